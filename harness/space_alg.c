// C01: range algebra is exact
#include "h.h"
#include <laik-internal.h>
#ifndef SIZEMAX
#define SIZEMAX 1
#endif

static Laik_Space sp;
static Laik_Index ix(void)
{
    Laik_Index i;
    i.i[0] = nd(); i.i[1] = nd(); i.i[2] = nd();
    return i;
}
static Laik_Range rg(int dims)
{
    Laik_Range r;
    r.space = &sp;
    r.from.i[0] = nd(); r.to.i[0] = nd();
    r.from.i[1] = nd(); r.to.i[1] = nd();
    r.from.i[2] = nd(); r.to.i[2] = nd();
    for(int d = 0; d < dims; d++) ASSUME(r.from.i[d] <= r.to.i[d]);
    return r;
}
static bool in(int dims, const Laik_Range* r, const Laik_Index* i)
{
    for(int d = 0; d < dims; d++)
        if ((i->i[d] < r->from.i[d]) || (i->i[d] >= r->to.i[d])) return false;
    return true;
}
static bool empty(int dims, const Laik_Range* r)
{
    for(int d = 0; d < dims; d++)
        if (r->from.i[d] >= r->to.i[d]) return true;
    return false;
}
static int setup(void)
{
    int dims = DIMS;
    sp.dims = dims;
    return dims;
}

// intersection contains exactly the common indexes
void h_intersect(void)
{
    int dims = setup();
    Laik_Range a = rg(dims), b = rg(dims);
    Laik_Range a0 = a, b0 = b;
    Laik_Range* r = laik_range_intersect(&a, &b);
    Laik_Index i = ix();
    bool both = in(dims, &a0, &i) && in(dims, &b0, &i);
    if (r) {
        PROP(r->space == &sp, "intersection is in the same space");
        PROP(in(dims, r, &i) == both, "index in intersection iff in both ranges");
        PROP(!empty(dims, r), "empty intersection reported as 0");
    }
    else
        PROP(!both, "no intersection reported only if no common index");
    // order of arguments does not matter
    bool had = (r != 0);
    Laik_Range rc;
    if (had) rc = *r;
    Laik_Range* r2 = laik_range_intersect(&b, &a);
    PROP((r2 != 0) == had, "intersection symmetric (existence)");
    if (r2) PROP(laik_range_isEqual(r2, &rc), "intersection symmetric");
    REACHED("intersect");
    if (had && (rc.from.i[dims-1] > 5)) REACHED("intersect nonempty");
}

void h_within(void)
{
    int dims = setup();
    Laik_Range a = rg(dims), b = rg(dims);
    Laik_Index i = ix();
    ASSUME(!empty(dims, &a));
    bool w = laik_range_within_range(&a, &b);
    if (w && in(dims, &a, &i)) PROP(in(dims, &b, &i), "every index of contained range is in the other");
    if (!w) {
        // then a corner of a is outside of b
        Laik_Index lo = a.from, hi = a.to;
        for(int d = 0; d < dims; d++) hi.i[d]--;
        PROP(!in(dims, &b, &lo) || !in(dims, &b, &hi), "a range not contained has an index outside");
    }
    sp.range = b;
    PROP(laik_range_within_space(&a, &sp) == w, "within space is within space's range");
    PROP(laik_range_within_range(&a, &a), "a range contains itself");
    REACHED("within");
}

void h_expand(void)
{
    int dims = setup();
    Laik_Range a = rg(dims), b = rg(dims), o = a;
    laik_range_expand(&a, &b);
    for(int d = 0; d < dims; d++) {
        int64_t f = (o.from.i[d] < b.from.i[d]) ? o.from.i[d] : b.from.i[d];
        int64_t t = (o.to.i[d] > b.to.i[d]) ? o.to.i[d] : b.to.i[d];
        PROP((a.from.i[d] == f) && (a.to.i[d] == t), "expansion is the bounding box of both");
    }
    PROP(a.space == &sp, "space kept");
    REACHED("expand");
}

void h_equal_empty(void)
{
    int dims = setup();
    Laik_Range a = rg(dims), b = rg(dims);
    bool same = true;
    for(int d = 0; d < dims; d++)
        if ((a.from.i[d] != b.from.i[d]) || (a.to.i[d] != b.to.i[d])) same = false;
    PROP(laik_range_isEqual(&a, &b) == same, "equal iff same borders");
    PROP(laik_range_isEmpty(&a) == empty(dims, &a), "empty iff no index");
    // invalid (no space)
    Laik_Range inv = b;
    inv.space = 0;
    PROP(laik_range_isEmpty(&inv), "invalid range is empty");
    PROP(!laik_range_isEqual(&inv, &a) && !laik_range_isEqual(&a, &inv), "invalid range equals nothing");
    PROP(laik_range_size(&inv) == 0, "invalid range has size 0");
    PROP(!laik_range_within_range(&inv, &a) && !laik_range_within_range(&a, &inv), "invalid range contained nowhere");
    REACHED("equal");
}

// index arithmetic and constructors
void h_index_init(void)
{
    int dims = setup();
    Laik_Index a = ix(), b = ix(), r, r2;
    for(int d = 0; d < 3; d++) {
        ASSUME(a.i[d] > -(1LL << 61) && a.i[d] < (1LL << 61));
        ASSUME(b.i[d] > -(1LL << 61) && b.i[d] < (1LL << 61));
    }
    laik_add_index(&r, &a, &b);
    laik_sub_index(&r2, &r, &b);
    PROP(laik_index_isEqual(3, &r2, &a), "subtracting what was added gives the original index");
    bool same = true;
    for(int d = 0; d < dims; d++) if (a.i[d] != b.i[d]) same = false;
    PROP(laik_index_isEqual(dims, &a, &b) == same, "indexes equal iff all used coordinates equal");
    Laik_Range x, y;
    laik_range_init(&x, &sp, &a, &b);
    if (dims == 1) laik_range_init_1d(&y, &sp, a.i[0], b.i[0]);
    if (dims == 2) laik_range_init_2d(&y, &sp, a.i[0], b.i[0], a.i[1], b.i[1]);
    if (dims == 3) laik_range_init_3d(&y, &sp, a.i[0], b.i[0], a.i[1], b.i[1], a.i[2], b.i[2]);
    PROP(laik_range_isEqual(&x, &y), "constructors agree");
    Laik_Range z;
    laik_range_init_copy(&z, &y);
    PROP(laik_range_isEqual(&z, &y), "copy is equal");
    REACHED("init");
}

// number of indexes
void h_size(void)
{
    int dims = setup();
    Laik_Range a;
    a.space = &sp;
    uint64_t s = 1;
    for(int d = 0; d < 3; d++) {
        uint64_t e = (uint64_t) nd_in(0, SIZEMAX);
        a.from.i[d] = nd_in(-64, 63);
        a.to.i[d] = a.from.i[d] + (int64_t) e;
        if (d < dims) s *= e;
    }
    PROP(laik_range_size(&a) == s, "size is product of extents");
    sp.range = a;
    PROP(laik_space_size(&sp) == s, "size of space is size of its range");
    REACHED("size");
}
