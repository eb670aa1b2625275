// data containers: switching between partitionings, reuse of memory,
// reservations, address translation
#ifndef B0
#define B0 (-2)
#endif
#include "mk.h"

#ifndef S
#define S 3
#endif
#ifndef NTAGS
#define NTAGS 2
#endif
#ifndef STEPS
#define STEPS 1
#endif
#ifndef ME
#define ME 0
#endif
#ifndef RES
#define RES 0
#endif
#ifndef EXEC
#define EXEC 0
#endif
#ifndef BACK
#define BACK 0
#endif
#ifndef MERGE
#define MERGE false
#endif
#define CELLS (DIMS == 1 ? S : DIMS == 2 ? S * S : S * S * S)

static Laik_Type typ;
static Laik_Data* d;
static Laik_Backend be;
static Laik_Profiling_Controller prof;
static int execs;

// value of an index: never changed by preserving switches
static char val(const int64_t* i) { return (char) (i[0] - B0 + 10 * (DIMS > 1 ? i[1] - B0 : 0) + 40 * (DIMS > 2 ? i[2] - B0 : 0) + 1); }
static int64_t off0 = 0;
static Laik_Range cell(int c)
{
    Laik_Range r;
    memset(&r, 0, sizeof(r));
    r.space = &mk_sp;
    for(int k = 0; k < DIMS; k++) { r.from.i[k] = B0 + c % S; r.to.i[k] = r.from.i[k] + 1; c /= S; }
    r.from.i[0] += off0; r.to.i[0] += off0;
    return r;
}
static char* addr(Laik_Mapping* m, Laik_Index* x)
{
    int64_t off = m->layout->offset(m->layout, m->layoutSection, x);
    return m->start + off;
}

static void do_sends(Laik_TransitionContext* tc)
{
    Laik_Transition* t = tc->transition;
    for(int i = 0; i < t->sendCount; i++) {
        struct sendTOp* op = &(t->send[i]);
        PROP(op->mapNo >= 0 && op->mapNo < tc->fromList->count, "mapping to send from");
        Laik_Mapping* m = &(tc->fromList->map[op->mapNo]);
        PROP(m->start != 0, "memory to send from");
        // pack whole message
        Laik_Index x = op->range.from;
        uint64_t n = laik_range_size(&op->range);
        char* buf = malloc(n);
        PROP((m->layout->pack)(m, &op->range, &x, buf, (unsigned) n) == n, "message packed");
        int p = 0;
        Laik_Index y = { { 0, 0, 0 } };
        for(y.i[2] = DIMS > 2 ? op->range.from.i[2] : 0; y.i[2] < (DIMS > 2 ? op->range.to.i[2] : 1); y.i[2]++)
        for(y.i[1] = DIMS > 1 ? op->range.from.i[1] : 0; y.i[1] < (DIMS > 1 ? op->range.to.i[1] : 1); y.i[1]++)
        for(y.i[0] = op->range.from.i[0]; y.i[0] < op->range.to.i[0]; y.i[0]++)
            PROP(buf[p++] == val(y.i), "values sent are the values of the indexes");
        free(buf);
    }
}
static void do_recvs(Laik_TransitionContext* tc)
{
    Laik_Transition* t = tc->transition;
    for(int i = 0; i < t->recvCount; i++) {
        struct recvTOp* op = &(t->recv[i]);
        PROP(op->mapNo >= 0 && op->mapNo < tc->toList->count, "mapping to receive into");
        Laik_Mapping* m = &(tc->toList->map[op->mapNo]);
        PROP(m->start != 0, "memory to receive into");
        uint64_t n = laik_range_size(&op->range);
        char* buf = malloc(n);
        int p = 0;
        Laik_Index y = { { 0, 0, 0 } };
        for(y.i[2] = DIMS > 2 ? op->range.from.i[2] : 0; y.i[2] < (DIMS > 2 ? op->range.to.i[2] : 1); y.i[2]++)
        for(y.i[1] = DIMS > 1 ? op->range.from.i[1] : 0; y.i[1] < (DIMS > 1 ? op->range.to.i[1] : 1); y.i[1]++)
        for(y.i[0] = op->range.from.i[0]; y.i[0] < op->range.to.i[0]; y.i[0]++)
            buf[p++] = val(y.i);
        Laik_Index x = op->range.from;
        PROP((m->layout->unpack)(m, &op->range, &x, buf, (unsigned) n) == n, "message unpacked");
        free(buf);
    }
}
static int recv_first;
static void stub_exec(Laik_ActionSeq* as)
{
    execs++;
    PROP(as->contextCount == 1, "one transition to execute");
    Laik_TransitionContext* tc = as->context[0];
    PROP(tc->data == d, "container of transition");
    // backends may do communication in any order
    if (recv_first) { do_recvs(tc); do_sends(tc); }
    else { do_sends(tc); do_recvs(tc); }
}

static void init(void)
{
    mk_world(TASKS, ME);
    mk_space_s(&mk_sp, DIMS, S);
    be.name = "stub";
    be.exec = stub_exec;
    mk_inst.backend = &be;
    mk_inst.profiling = &prof;
    typ.size = 1; typ.name = "byte";
    laik_allocator_def = laik_new_allocator_def();
    d = laik_new_data(&mk_sp, &typ);
    recv_first = (int) CONC(nd_int(0, 1));
}

// any partitioning: each cell owned by exactly one process (halo=0) or by any
// set of processes (halo=1), in one of several mappings
static Laik_Partitioning* any_part_in(Laik_Group* g, bool halo, int* own, int* tag)
{
    Laik_RangeList* l = laik_rangelist_new(&mk_sp, g->size);
    int me = g->myid, n = g->size;
    for(int c = 0; c < CELLS; c++) {
        own[c] = (int) CONC(halo ? nd_int(0, (1 << n) - 1) : nd_int(0, n - 1));
        if (!halo) own[c] = 1 << own[c];
        bool mine = (me >= 0) && ((own[c] >> me) & 1);
        tag[c] = (mine && NTAGS > 1) ? (int) CONC(nd_int(1, NTAGS)) : NTAGS == 1 ? 1 : 0;
        Laik_Range r = cell(c);
        for(int t = 0; t < n; t++)
            if ((own[c] >> t) & 1) laik_rangelist_append(l, t, &r, t == me ? tag[c] : 1, 0);
    }
    laik_rangelist_freeze(l, MERGE);
    Laik_Partitioning* p = mk_part(l);
    p->group = g;
    return p;
}
static Laik_Partitioning* any_part(bool halo, int* own, int* tag)
{
    return any_part_in(mk_g, halo, own, tag);
}
// write/check values of own cells
static void fill(Laik_Partitioning* p, bool check)
{
    Laik_RangeList* l = laik_partitioning_myranges(p);
    int me = p->group->myid;
    for(int c = 0; c < CELLS; c++) for(unsigned o = l->off[me]; o < l->off[me+1]; o++) {
        Laik_Range cr = cell(c);
        Laik_Index x = cr.from;
        if (!mk_in(&l->trange[o].range, DIMS, x.i)) continue;
        Laik_Mapping* m = laik_get_map(d, l->trange[o].mapNo);
        PROP(m != 0, "mapping of own range exists");
        PROP(mk_in(&m->requiredRange, DIMS, x.i), "mapping covers own range");
        char* a = addr(m, &x);
        PROP(laik_get_map_addr(d, l->trange[o].mapNo, &x) == a, "address of index");
        if (check) PROP(*a == val(x.i), "value of index preserved");
        else *a = val(x.i);
        // direct access using base pointer
#if DIMS == 1
        void* base; uint64_t count;
        laik_get_map_1d(d, l->trange[o].mapNo, &base, &count);
        PROP((uint64_t) (x.i[0] - m->requiredRange.from.i[0]) < count, "index within mapping");
        PROP(((char*) base) + (x.i[0] - m->requiredRange.from.i[0]) == a, "direct access by base pointer");
        PROP(laik_maplocal2global_1d(d, l->trange[o].mapNo, (uint64_t) (x.i[0] - m->requiredRange.from.i[0])) == x.i[0], "global index of local one");
        int mno = -2; uint64_t li = 0, li2 = 0;
        Laik_Mapping* gm = laik_global2maplocal_1d(d, x.i[0], &mno, &li);
        PROP(gm != 0 && mno >= 0 && gm == laik_get_map(d, mno), "mapping with index found");
        PROP(gm->requiredRange.from.i[0] + (int64_t) li == x.i[0] && li < gm->count, "local index");
        PROP(laik_global2local_1d(d, x.i[0], &li2) == gm && li2 == li, "same result");
#elif DIMS == 2
        void* base; uint64_t ys, yst, xs;
        laik_get_map_2d(d, l->trange[o].mapNo, &base, &ys, &yst, &xs);
        uint64_t lx = x.i[0] - m->requiredRange.from.i[0], ly = x.i[1] - m->requiredRange.from.i[1];
        PROP(lx < xs && ly < ys, "index within mapping");
        PROP(((char*) base) + ly * yst + lx == a, "direct access by base pointer");
#else
        void* base; uint64_t zs, zst, ys, yst, xs;
        laik_get_map_3d(d, l->trange[o].mapNo, &base, &zs, &zst, &ys, &yst, &xs);
        uint64_t lx = x.i[0] - m->requiredRange.from.i[0], ly = x.i[1] - m->requiredRange.from.i[1];
        uint64_t lz = x.i[2] - m->requiredRange.from.i[2];
        PROP(lx < xs && ly < ys && lz < zs, "index within mapping");
        PROP(((char*) base) + lz * zst + ly * yst + lx == a, "direct access by base pointer");
#endif
    }
}
// different own indexes have different addresses (also over all mappings)
static void distinct(Laik_Partitioning* p)
{
    Laik_RangeList* l = laik_partitioning_myranges(p);
    char* a[CELLS];
    int me = p->group->myid;
    for(int c = 0; c < CELLS; c++) {
        a[c] = 0;
        Laik_Index x = cell(c).from;
        for(unsigned o = l->off[me]; o < l->off[me+1]; o++)
            if (mk_in(&l->trange[o].range, DIMS, x.i)) a[c] = addr(laik_get_map(d, l->trange[o].mapNo), &x);
        for(int e = 0; e < c; e++) PROP(!a[c] || a[c] != a[e], "different indexes at different addresses");
    }
}
static void stat_ok(void)
{
    uint64_t sum = 0;
    if (d->activeMappings)
        for(int i = 0; i < d->activeMappings->count; i++)
            if (d->activeMappings->map[i].base) sum += d->activeMappings->map[i].capacity;
    PROP(d->stat->currAllocedBytes == sum, "memory not used any longer is freed");
}

// preserving switches between arbitrary partitionings
void h_switch(void)
{
    init();
    int own[CELLS], tag[CELLS], nown[CELLS], ntag[CELLS];
    Laik_Partitioning* p0 = any_part(false, own, tag);
    laik_switchto_partitioning(d, p0, LAIK_DF_None, LAIK_RO_None);
    PROP(laik_data_get_partitioning(d) == p0, "active partitioning");
    fill(p0, false);
    distinct(p0);
    for(int s = 0; s < STEPS; s++) {
        Laik_Partitioning* p = any_part(s == STEPS - 1, nown, ntag);
        laik_switchto_partitioning(d, p, LAIK_DF_Preserve, LAIK_RO_None);
        PROP(laik_data_get_partitioning(d) == p, "active partitioning");
        fill(p, true);
        distinct(p);
        stat_ok();
    }
    laik_switchto_partitioning(d, 0, LAIK_DF_None, LAIK_RO_None);
    PROP(d->activeMappings == 0 && d->stat->currAllocedBytes == 0, "all memory freed at end");
    REACHED("end");
}

// switch with initialization: every own index gets the neutral element
static int init_calls;
static void stub_init(void* p, int n, Laik_ReductionOperation op)
{
    PROP(op == LAIK_RO_Max, "requested reduction operation");
    for(int i = 0; i < n; i++) ((char*) p)[i] = 77;
    init_calls++;
}
void h_init(void)
{
    init();
    typ.init = stub_init;
#ifdef OFFSET
    mk_sp.range.from.i[0] += OFFSET; mk_sp.range.to.i[0] += OFFSET;
    off0 = OFFSET;
#endif
    int own[CELLS], tag[CELLS];
    Laik_Partitioning* p0 = 0;
    if (CONC(nd_int(0, 1))) {
        p0 = any_part(false, own, tag);
        laik_switchto_partitioning(d, p0, LAIK_DF_None, LAIK_RO_None);
        fill(p0, false);
    }
    Laik_Partitioning* p = any_part(true, own, tag);
    laik_switchto_partitioning(d, p, LAIK_DF_Init, LAIK_RO_Max);
    Laik_RangeList* l = laik_partitioning_myranges(p);
    for(int c = 0; c < CELLS; c++) {
        Laik_Index x = cell(c).from;
        for(unsigned o = l->off[ME]; o < l->off[ME+1]; o++)
            if (mk_in(&l->trange[o].range, DIMS, x.i))
                PROP(*laik_get_map_addr(d, l->trange[o].mapNo, &x) == 77, "own values initialized");
    }
    stat_ok();
    REACHED("end");
}

// reservations: memory for multiple partitionings; switches preserve values,
// all memory freed at end
void h_reserve(void)
{
    init();
    int own[CELLS], tag[CELLS];
    Laik_Partitioning* p0 = any_part(false, own, tag);
    Laik_Partitioning* p1 = any_part(true, own, tag);
    Laik_Reservation* r = laik_reservation_new(d);
    laik_reservation_add(r, p0);
    if (CONC(nd_int(0, 1))) laik_reservation_add(r, p1);
    laik_reservation_alloc(r);
    laik_data_use_reservation(d, r);
    uint64_t total = d->stat->currAllocedBytes;
    int mallocs = d->stat->mallocCount;

    laik_switchto_partitioning(d, p0, LAIK_DF_None, LAIK_RO_None);
    PROP(d->stat->mallocCount == mallocs, "no further allocation if reserved");
    fill(p0, false);
    distinct(p0);
    // to the other partitioning
    Laik_ActionSeq* as = 0;
    if (EXEC == 0) laik_switchto_partitioning(d, p1, LAIK_DF_Preserve, LAIK_RO_None);
    else {
        Laik_Transition* t = laik_calc_transition(&mk_sp, p0, p1, LAIK_DF_Preserve, LAIK_RO_None);
        if (EXEC == 1) laik_exec_transition(d, t);
        else {
            bool known = CONC(nd_int(0, 1));
            as = laik_calc_actions(d, t, known ? r : 0, known ? r : 0);
            laik_exec_actions(as);
            PROP(d->activePartitioning == p1, "new active partitioning");
        }
    }
    if (r->count == 2) PROP(d->stat->mallocCount == mallocs, "no further allocation if reserved");
    fill(p1, true);
    distinct(p1);
    if (CONC(nd_int(0, 1))) {
        // and back again to the first one
        laik_switchto_partitioning(d, p0, LAIK_DF_None, LAIK_RO_None);
        fill(p0, false);
        if (as) laik_exec_actions(as);
        else laik_switchto_partitioning(d, p1, LAIK_DF_Preserve, LAIK_RO_None);
        fill(p1, true);
    }
    laik_switchto_partitioning(d, 0, LAIK_DF_None, LAIK_RO_None);
    PROP(d->stat->currAllocedBytes == total, "only reserved memory left");
    d->activeReservation = 0;
    laik_reservation_free(r);
    PROP(d->stat->currAllocedBytes == 0, "memory of reservation freed");
    REACHED("end");
}

// switches between partitionings of different process groups
static Laik_Group* any_group(void)
{
    int rem[TASKS], n = 0;
    for(int i = 0; i < TASKS; i++) if (CONC(nd_int(0, 1))) rem[n++] = i;
    ASSUME(n < TASKS);
    if (n == 0) return mk_g;
    return laik_new_shrinked_group(mk_g, n, rem);
}
void h_groups(void)
{
    init();
    int own[CELLS], tag[CELLS];
    Laik_Group* g1 = any_group();
    Laik_Group* g2 = any_group();
    Laik_Partitioning* p0 = any_part_in(g1, false, own, tag);
    Laik_Partitioning* p1 = any_part_in(g2, !BACK, own, tag);
    laik_switchto_partitioning(d, p0, LAIK_DF_None, LAIK_RO_None);
    if (g1->myid >= 0) fill(p0, false);
    laik_switchto_partitioning(d, p1, LAIK_DF_Preserve, LAIK_RO_None);
    PROP(laik_data_get_partitioning(d) == p1 && p1->group == g2 && p0->group == g1, "groups of partitionings");
    if (g2->myid >= 0) { fill(p1, true); distinct(p1); }
#if BACK
    // back to the first group
    laik_switchto_partitioning(d, p0, LAIK_DF_Preserve, LAIK_RO_None);
    if (g1->myid >= 0) { fill(p0, true); distinct(p0); }
#endif
    laik_switchto_partitioning(d, 0, LAIK_DF_None, LAIK_RO_None);
    PROP(d->stat->currAllocedBytes == 0, "all memory freed at end");
    REACHED("end");
}

// memory provided by the application: used for the first mapping, never freed,
// values still preserved
void h_provide(void)
{
    init();
    int own[CELLS], tag[CELLS];
    char* buf = malloc(CELLS);
    char* buf2 = malloc(CELLS);
    laik_data_provide_memory(d, buf, CELLS);
    Laik_Partitioning* p0 = any_part(false, own, tag);
    if (CONC(nd_int(0, 1))) laik_switchto_partitioning(d, p0, LAIK_DF_None, LAIK_RO_None);
    else laik_set_initial_partitioning(d, p0);
    if (d->activeMappings->count > 0)
        PROP(d->activeMappings->map[0].start == buf, "provided memory used");
    if (laik_my_mapcount(p0) < 2) {
        fill(p0, false);
        bool other = CONC(nd_int(0, 1));
        if (other) laik_data_provide_memory(d, buf2, CELLS);
        Laik_Partitioning* p1 = any_part(true, own, tag);
        laik_switchto_partitioning(d, p1, LAIK_DF_Preserve, LAIK_RO_None);
        if (other && d->activeMappings->count > 0)
            PROP(d->activeMappings->map[0].start == buf2, "newly provided memory used");
        fill(p1, true);
        distinct(p1);
        laik_switchto_partitioning(d, 0, LAIK_DF_None, LAIK_RO_None);
    }
    free(buf);
    free(buf2);
    REACHED("end");
}
