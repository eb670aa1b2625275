// memory layouts: offsets, packing, unpacking, copying, reuse
#include "mk.h"

#ifndef S
#define S 3
#endif
#ifndef MAPS
#define MAPS 2
#endif
#ifndef ES
#define ES 2
#endif
#ifndef KF
#define KF 0
#endif
#ifndef KT
#define KT 0
#endif
#ifndef CHUNK
#define CHUNK 3
#endif

static Laik_Data dat;
static Laik_Type typ;

// non-empty range with borders in [lo;lo+size], concrete on each path
static void any_range(Laik_Range* r, int64_t lo, int64_t size)
{
    memset(r, 0, sizeof(*r));
    r->space = &mk_sp;
    for(int d = 0; d < DIMS; d++) {
        int64_t f = nd_in(0, size - 1);
        int64_t t = nd_in(1, size);
        ASSUME(f < t);
#ifndef SYMBOLIC
        f = CONC(f); t = CONC(t);
#endif
        r->from.i[d] = lo + f;
        r->to.i[d] = lo + t;
    }
}
static void sub_range(Laik_Range* r, const Laik_Range* in)
{
    memset(r, 0, sizeof(*r));
    r->space = &mk_sp;
    for(int d = 0; d < DIMS; d++) {
        int64_t f = nd_in(in->from.i[d], in->to.i[d] - 1);
        int64_t t = nd_in(in->from.i[d] + 1, in->to.i[d]);
        ASSUME(f < t);
        r->from.i[d] = CONC(f);
        r->to.i[d] = CONC(t);
    }
}

// a user provided layout: reversed order of the lexicographical one
static int64_t rev_offset(Laik_Layout* l, int n, Laik_Index* idx)
{
    Laik_Range* r = ((Laik_Range*) (l + 1)) + n;
    int64_t off = 0;
    for(int d = DIMS - 1; d >= 0; d--)
        off = off * (r->to.i[d] - r->from.i[d]) + (idx->i[d] - r->from.i[d]);
    return (int64_t) laik_range_size(r) - 1 - off;
}
static int rev_mapno(Laik_Layout* l, int n) { (void) l; return n; }
static Laik_Layout* new_rev(int n, Laik_Range* r)
{
    Laik_Layout* l = malloc(sizeof(Laik_Layout) + n * sizeof(Laik_Range));
    laik_init_layout(l, DIMS, n, 0, 0, rev_mapno, rev_offset, 0, 0, 0, 0, 0);
    l->count = 0;
    for(int i = 0; i < n; i++) {
        ((Laik_Range*) (l + 1))[i] = r[i];
        l->count += laik_range_size(r + i);
    }
    return l;
}

// values at an index: two bytes per element at most are significant
static void put(char* p, int v) { for(int i = 0; i < ES; i++) p[i] = (char) (v + 64 * i); }
static bool has(const char* p, int v)
{
    bool ok = true;
    for(int i = 0; i < ES; i++) ok &= (p[i] == (char) (v + 64 * i));
    return ok;
}

static void mk_map(Laik_Mapping* m, Laik_Layout* l, int sec, Laik_Range* r)
{
    memset(m, 0, sizeof(*m));
    m->data = &dat;
    m->mapNo = sec;
    m->layout = l;
    m->layoutSection = sec;
    m->requiredRange = *r;
    m->allocatedRange = *r;
    m->count = m->allocCount = laik_range_size(r);
    m->start = m->base = malloc(m->count * ES);
    m->reusedFor = -1;
}

static void init(void)
{
    mk_world(1, 0);
    mk_space(&mk_sp, DIMS, 0, 1000, 0, 1000, 0, 1000);
    typ.size = ES; typ.name = "t";
    dat.name = "d"; dat.type = &typ; dat.elemsize = ES; dat.space = &mk_sp;
}

static Laik_Layout* make(int kind, int n, Laik_Range* r)
{
    return kind ? new_rev(n, r) : laik_new_layout_lex(n, r);
}

static int64_t spec_off(const Laik_Range* r, const Laik_Index* x)
{
    int64_t off = 0;
    for(int d = DIMS - 1; d >= 0; d--)
        off = off * (r->to.i[d] - r->from.i[d]) + (x->i[d] - r->from.i[d]);
    return off;
}

// offsets of a lex layout: a bijection between indexes of a map and [0;count[
void h_offset(void)
{
    init();
    Laik_Range r[MAPS];
    uint64_t total = 0;
    for(int i = 0; i < MAPS; i++) { any_range(r + i, -2, S); total += laik_range_size(r + i); }
    Laik_Layout* l = laik_new_layout_lex(MAPS, r);
    PROP(l->map_count == MAPS && l->dims == DIMS, "layout has all maps");
    PROP(l->count == total, "total count");
    int k = (int) CONC(nd_int(0, MAPS - 1));
    PROP(l->mapno(l, k) == k, "map number");
    Laik_Index a = { { 0, 0, 0 } }, b = { { 0, 0, 0 } };
    bool same = true;
    for(int d = 0; d < DIMS; d++) {
        a.i[d] = nd_in(-2, -2 + S - 1);
        ASSUME((a.i[d] >= r[k].from.i[d]) & (a.i[d] < r[k].to.i[d]));
        b.i[d] = nd_in(-2, -2 + S - 1);
        ASSUME((b.i[d] >= r[k].from.i[d]) & (b.i[d] < r[k].to.i[d]));
        same &= a.i[d] == b.i[d];
    }
    int64_t oa = laik_offset(l, k, &a), ob = laik_offset(l, k, &b);
    PROP((oa >= 0) & (oa < (int64_t) laik_range_size(r + k)), "offset within allocation");
    PROP((oa == ob) == same, "different indexes at different offsets");
    PROP(oa == spec_off(r + k, &a), "lexicographical order");
    int64_t str = 1;
    for(int d = 0; d < DIMS; d++) {
        PROP((int64_t) laik_layout_lex_stride(l, k, d) == str || (d == 0 && laik_layout_lex_stride(l, k, 0) == 1), "strides");
        str *= r[k].to.i[d] - r[k].from.i[d];
    }
    // map found by index
    Laik_Index c = { { 0, 0, 0 } };
    for(int d = 0; d < DIMS; d++) c.i[d] = nd_in(-3, -2 + S);
    int sec = l->section(l, &c), want = -1;
    for(int i = MAPS - 1; i >= 0; i--) if (mk_in(r + i, DIMS, c.i)) want = i;
    PROP(sec == want, "map found by index");
    const char* s = l->describe(l);
    PROP(s != 0, "description");
    REACHED("end");
}

// packing in chunks, unpacking in other chunks: all values of a range arrive
// at their index, nothing else changes
void h_pack(void)
{
    init();
    Laik_Range rf[MAPS], rt[MAPS], s;
    int kf = (int) CONC(nd_int(0, MAPS - 1));
    int kt = (int) CONC(nd_int(0, MAPS - 1));
    for(int i = 0; i < MAPS; i++) {
        if (i == kf) any_range(rf + i, 5, S);
        else { rf[i] = (Laik_Range) { 0 }; rf[i].space = &mk_sp; for(int d = 0; d < DIMS; d++) { rf[i].from.i[d] = 20; rf[i].to.i[d] = 22 + d; } }
    }
    sub_range(&s, rf + kf);
    for(int i = 0; i < MAPS; i++) {
        rt[i] = s;
        if (i != kt) { for(int d = 0; d < DIMS; d++) rt[i].to.i[d] += 2 * d + 30; continue; }
        // some range around the packed range
        for(int d = 0; d < DIMS; d++) {
            rt[i].from.i[d] -= CONC(nd_int(0, 1));
            rt[i].to.i[d] += CONC(nd_int(0, 1));
        }
    }
    Laik_Layout* lf = make(KF, MAPS, rf);
    Laik_Layout* lt = make(KT, MAPS, rt);
    Laik_Mapping mf, mt;
    mk_map(&mf, lf, kf, rf + kf);
    mk_map(&mt, lt, kt, rt + kt);
    // mark values
    Laik_Index x = { { 0, 0, 0 } };
    for(uint64_t i = 0; i < mf.count; i++) put(mf.start + i * ES, (int) i);
    for(uint64_t i = 0; i < mt.count; i++) put(mt.start + i * ES, 127);

    uint64_t n = laik_range_size(&s), got = 0;
    char* all = malloc(n * ES);
    x = s.from;
    int cp = (int) CONC(nd_int(1, CHUNK));
    int extra = ES > 1 ? (int) CONC(nd_int(0, 1)) : 0;
    for(int step = 0; step < 100; step++) {
        // exactly sized buffer: writing over the end is detected
        char* buf = malloc(cp * ES + extra);
        unsigned int c = (mf.layout->pack)(&mf, &s, &x, buf, cp * ES + extra);
        uint64_t want = (n - got) < (uint64_t) cp ? (n - got) : (uint64_t) cp;
        PROP(c == want, "packs as much as fits");
        memcpy(all + got * ES, buf, c * ES);
        free(buf);
        got += c;
        if (got == n) break;
    }
    PROP(got == n, "all elements packed");
    PROP(laik_index_isEqual(DIMS, &x, &s.to), "position at end of range");
    PROP((mf.layout->pack)(&mf, &s, &x, malloc(ES), ES) == 0, "nothing left to pack");
    // order: lexicographical
    uint64_t p = 0;
    Laik_Index y = { { 0, 0, 0 } };
    for(y.i[2] = s.from.i[2]; y.i[2] < (DIMS > 2 ? s.to.i[2] : 1); y.i[2]++)
    for(y.i[1] = s.from.i[1]; y.i[1] < (DIMS > 1 ? s.to.i[1] : 1); y.i[1]++)
    for(y.i[0] = s.from.i[0]; y.i[0] < s.to.i[0]; y.i[0]++, p++) {
        int64_t o = spec_off(rf + kf, &y);
        if (KF) o = (int64_t) mf.count - 1 - o;
        PROP(has(all + p * ES, (int) o), "values packed in lexicographical order");
    }
    // unpack
    int cu = (int) CONC(nd_int(1, CHUNK));
    got = 0;
    x = s.from;
    for(int step = 0; step < 100; step++) {
        uint64_t c = (n - got) < (uint64_t) cu ? (n - got) : (uint64_t) cu;
        char* buf = malloc(c * ES);
        memcpy(buf, all + got * ES, c * ES);
        unsigned int u = (mt.layout->unpack)(&mt, &s, &x, buf, c * ES);
        PROP(u == c, "unpacks everything given");
        free(buf);
        got += c;
        if (got == n) break;
    }
    PROP(laik_index_isEqual(DIMS, &x, &s.to), "position at end of range");
    Laik_Range* t = rt + kt;
    for(y.i[2] = t->from.i[2]; y.i[2] < (DIMS > 2 ? t->to.i[2] : 1); y.i[2]++)
    for(y.i[1] = t->from.i[1]; y.i[1] < (DIMS > 1 ? t->to.i[1] : 1); y.i[1]++)
    for(y.i[0] = t->from.i[0]; y.i[0] < t->to.i[0]; y.i[0]++) {
        int64_t of = spec_off(rf + kf, &y), ot = spec_off(t, &y);
        if (KF) of = (int64_t) mf.count - 1 - of;
        if (KT) ot = (int64_t) mt.count - 1 - ot;
        if (mk_in(&s, DIMS, y.i)) PROP(has(mt.start + ot * ES, (int) of), "values unpacked to their index");
        else PROP(has(mt.start + ot * ES, 127), "other values unchanged");
    }
    REACHED("end");
}

// copy between mappings
void h_copy(void)
{
    init();
    Laik_Range rf[MAPS], rt[MAPS], s;
    int kf = (int) CONC(nd_int(0, MAPS - 1));
    int kt = (int) CONC(nd_int(0, MAPS - 1));
    any_range(&s, 5, S);
    for(int i = 0; i < MAPS; i++) {
        rf[i] = s;
        rt[i] = s;
        for(int d = 0; d < DIMS; d++) {
            if (i == kf) { rf[i].from.i[d] -= CONC(nd_int(0, 1)); rf[i].to.i[d] += CONC(nd_int(0, 1)); }
            else rf[i].to.i[d] += 11 + d;
            if (i == kt) { rt[i].from.i[d] -= CONC(nd_int(0, 1)); rt[i].to.i[d] += CONC(nd_int(0, 1)); }
            else rt[i].to.i[d] += 14 + 2 * d;
        }
    }
    Laik_Layout* lf = make(KF, MAPS, rf);
    Laik_Layout* lt = make(KT, MAPS, rt);
    Laik_Mapping mf, mt;
    mk_map(&mf, lf, kf, rf + kf);
    mk_map(&mt, lt, kt, rt + kt);
    for(uint64_t i = 0; i < mf.count; i++) put(mf.start + i * ES, (int) i);
    for(uint64_t i = 0; i < mt.count; i++) put(mt.start + i * ES, 127);
    laik_data_copy(&s, &mf, &mt);
    Laik_Range* t = rt + kt;
    Laik_Index y = { { 0, 0, 0 } };
    for(y.i[2] = t->from.i[2]; y.i[2] < (DIMS > 2 ? t->to.i[2] : 1); y.i[2]++)
    for(y.i[1] = t->from.i[1]; y.i[1] < (DIMS > 1 ? t->to.i[1] : 1); y.i[1]++)
    for(y.i[0] = t->from.i[0]; y.i[0] < t->to.i[0]; y.i[0]++) {
        int64_t of = spec_off(rf + kf, &y), ot = spec_off(t, &y);
        if (KF) of = (int64_t) mf.count - 1 - of;
        if (KT) ot = (int64_t) mt.count - 1 - ot;
        if (mk_in(&s, DIMS, y.i)) PROP(has(mt.start + ot * ES, (int) of), "values copied to their index");
        else PROP(has(mt.start + ot * ES, 127), "other values unchanged");
    }
    for(uint64_t i = 0; i < mf.count; i++) PROP(has(mf.start + i * ES, (int) i), "source unchanged");
    REACHED("end");
}

// reuse of an old mapping: exactly if it covers the new one; each index stays
// at its address
void h_reuse(void)
{
    init();
    Laik_Range rn[MAPS], ro[MAPS];
    int kn = (int) CONC(nd_int(0, MAPS - 1));
    int ko = (int) CONC(nd_int(0, MAPS - 1));
    for(int i = 0; i < MAPS; i++) { any_range(rn + i, -2, S); any_range(ro + i, -2, S); }
    Laik_Layout* ln = laik_new_layout_lex(MAPS, rn);
    Laik_Layout* lo = laik_new_layout_lex(MAPS, ro);
    bool fits = true;
    for(int d = 0; d < DIMS; d++)
        fits &= (rn[kn].from.i[d] >= ro[ko].from.i[d]) & (rn[kn].to.i[d] <= ro[ko].to.i[d]);
    bool res = ln->reuse(ln, kn, lo, ko);
    PROP(res == fits, "reuse exactly if old mapping covers new one");
    Laik_Index a = { { 0, 0, 0 } };
    int k = (int) CONC(nd_int(0, MAPS - 1));
    for(int d = 0; d < DIMS; d++) {
        a.i[d] = nd_in(-2, -2 + S - 1);
        ASSUME((a.i[d] >= rn[k].from.i[d]) & (a.i[d] < rn[k].to.i[d]));
    }
    int64_t off = laik_offset(ln, k, &a);
    if (res && (k == kn)) PROP(off == spec_off(ro + ko, &a), "index stays at address in old mapping");
    else PROP(off == spec_off(rn + k, &a), "other mappings unchanged");
    uint64_t total = 0;
    for(int i = 0; i < MAPS; i++) total += laik_range_size((res && (i == kn)) ? (ro + ko) : (rn + i));
    PROP(ln->count == total, "total count");
    REACHED("end");
}

// large ranges: offset is the exact lexicographical position (no truncation)
void h_offset_wide(void)
{
    static const int64_t width[4] = { 1, 5, 65537, 1 << 20 };
    init();
    Laik_Range r;
    memset(&r, 0, sizeof(r));
    r.space = &mk_sp;
    Laik_Index a = { { 0, 0, 0 } };
    int64_t off = 0, w = 1;
    for(int d = 0; d < DIMS; d++) {
        int64_t wd = width[CONC(nd_in(0, 3))];
        r.from.i[d] = nd_in(-10000000000LL, 10000000000LL);
        r.to.i[d] = r.from.i[d] + wd;
        int64_t rel = nd_in(0, (1 << 20) - 1);
        ASSUME(rel < wd);
        a.i[d] = r.from.i[d] + rel;
        off += w * rel;
        w *= wd;
    }
    Laik_Layout* l = laik_new_layout_lex(1, &r);
    PROP((int64_t) l->count == w, "exact number of elements");
    PROP(laik_offset(l, 0, &a) == off, "exact lexicographical position");
    REACHED("end");
}
