// construction of instances, groups and spaces for harnesses
#ifndef VERIF_MK_H
#define VERIF_MK_H
#include "h.h"
#include <laik-internal.h>
#include <stdlib.h>
#include <string.h>

#ifndef DIMS
#define DIMS 1
#endif
#ifndef TASKS
#define TASKS 2
#endif

static Laik_Instance mk_inst;
static Laik_Space mk_sp;
static Laik_Group* mk_g;

static inline Laik_Group* mk_group(int size, int myid)
{
    Laik_Group* g = calloc(1, sizeof(Laik_Group));
    g->inst = &mk_inst;
    g->gid = 0;
    g->size = size;
    g->maxsize = size;
    g->myid = myid;
    g->locationid = malloc(sizeof(int) * size);
    g->toParent = malloc(sizeof(int) * size);
    g->fromParent = malloc(sizeof(int) * size);
    for(int i = 0; i < size; i++) {
        g->locationid[i] = i;
        g->toParent[i] = i;
        g->fromParent[i] = i;
    }
    return g;
}
static inline void mk_space(Laik_Space* s, int dims, int64_t f0, int64_t t0, int64_t f1, int64_t t1,
                            int64_t f2, int64_t t2)
{
    memset(s, 0, sizeof(*s));
    s->name = "space";
    s->dims = dims;
    s->inst = &mk_inst;
    s->range.space = s;
    s->range.from.i[0] = f0; s->range.to.i[0] = t0;
    s->range.from.i[1] = f1; s->range.to.i[1] = t1;
    s->range.from.i[2] = f2; s->range.to.i[2] = t2;
}
// space with <size> indexes per dimension, starting at <B0>
#ifndef B0
#define B0 16          // positive: cheap for the solver
#endif
static inline void mk_space_s(Laik_Space* s, int dims, int64_t size)
{
    mk_space(s, dims, B0, B0 + size, dims > 1 ? B0 : 0, dims > 1 ? B0 + size : 0, dims > 2 ? B0 : 0, dims > 2 ? B0 + size : 0);
}
// setup with one instance, world group <TASKS> and one space
static inline void mk_world(int tasks, int myid)
{
    mk_inst.locations = tasks;
    mk_inst.mylocationid = myid;
    mk_inst.mylocation = "loc";
    mk_g = mk_group(tasks, myid);
    mk_inst.world = mk_g;
    mk_inst.group[0] = mk_g;
    mk_inst.group_count = 1;
}

static inline bool mk_in(const Laik_Range* r, int dims, const int64_t* i)
{
    // no branches
    bool in = true;
    for(int d = 0; d < dims; d++)
        in &= (i[d] >= r->from.i[d]) & (i[d] < r->to.i[d]);
    return in;
}
static inline bool mk_empty(const Laik_Range* r, int dims)
{
    bool e = false;
    for(int d = 0; d < dims; d++) e |= (r->from.i[d] >= r->to.i[d]);
    return e;
}
// common index?
static inline bool mk_overlap(const Laik_Range* a, const Laik_Range* b, int dims)
{
    bool o = !mk_empty(a, dims) & !mk_empty(b, dims);
    for(int d = 0; d < dims; d++) o &= (a->from.i[d] < b->to.i[d]) & (b->from.i[d] < a->to.i[d]);
    return o;
}
static inline bool mk_same(const Laik_Range* a, const Laik_Range* b, int dims)
{
    bool o = true;
    for(int d = 0; d < dims; d++) o &= (a->from.i[d] == b->from.i[d]) & (a->to.i[d] == b->to.i[d]);
    return o;
}
// partitioning with given complete, frozen list of ranges
static inline Laik_Partitioning* mk_part(Laik_RangeList* l)
{
    Laik_Partitioning* p = calloc(1, sizeof(Laik_Partitioning));
    RangeList_Entry* e = calloc(1, sizeof(RangeList_Entry));
    p->name = "part";
    p->group = mk_g;
    p->space = l->space;
    e->ranges = l;
    e->info = LAIK_RI_FULL;
    p->rangeList = e;
    return p;
}

// input: range within <size> indexes from start of space in each dimension; may be empty if allowed
static inline Laik_Range mk_range(Laik_Space* s, int dims, int64_t size, bool allow_empty)
{
    Laik_Range r;
    memset(&r, 0, sizeof(r));
    r.space = s;
    for(int d = 0; d < 3; d++) {
        if (d >= dims) { r.from.i[d] = 0; r.to.i[d] = 0; continue; }
        r.from.i[d] = nd_in(s->range.from.i[d], s->range.from.i[d] + size);
        r.to.i[d] = nd_in(s->range.from.i[d], s->range.from.i[d] + size);
        ASSUME(allow_empty ? (r.from.i[d] <= r.to.i[d]) : (r.from.i[d] < r.to.i[d]));
    }
    return r;
}
#endif
