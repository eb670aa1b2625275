// C04-C07: partitioners
#include "mk.h"

#ifndef S
#define S 6
#endif
#ifndef N
#define N 2
#endif
#ifndef DMIN
#define DMIN 0
#define DMAX 2
#endif
#ifndef BMIN
#define BMIN 1
#define SMIN 1
#endif
#ifndef CYC
#define CYC 1
#endif
#ifndef WMAX
#define WMAX 2
#endif
#ifndef SCALE
#define SCALE 1.0
#endif

static Laik_PartitionerParams params;
static Laik_RangeList* run(Laik_Partitioner* pr, Laik_Partitioning* other)
{
    params.space = &mk_sp;
    params.group = mk_g;
    params.partitioner = pr;
    params.other = other;
    return laik_run_partitioner(&params, 0);
}
// symbolic index within the space
static void any_index(int64_t* x)
{
    for(int d = 0; d < 3; d++) x[d] = 0;
    bool ok = true;
    for(int d = 0; d < DIMS; d++) {
        x[d] = nd_in(-8, 255);
        ok &= (x[d] >= mk_sp.range.from.i[d]) & (x[d] < mk_sp.range.to.i[d]);
    }
    ASSUME(ok);
}
static int owner_count(Laik_RangeList* l, const int64_t* x)
{
    int c = 0;
    for(unsigned k = 0; k < l->count; k++) c += mk_in(&(l->trange[k].range), DIMS, x);
    return c;
}
// every index of the space in exactly one range, nothing outside, no empty ranges
static void exact_cover(Laik_RangeList* l)
{
    int64_t x[3];
    any_index(x);
    PROP(owner_count(l, x) == 1, "each index of the space belongs to exactly one process");
    bool ok = true, ne = true;
    for(unsigned k = 0; k < l->count; k++) {
        Laik_Range* r = &(l->trange[k].range);
        ok &= (l->trange[k].task >= 0) & (l->trange[k].task < mk_g->size);
        ne &= !mk_empty(r, DIMS);
        for(int d = 0; d < DIMS; d++)
            ok &= (r->from.i[d] >= mk_sp.range.from.i[d]) & (r->to.i[d] <= mk_sp.range.to.i[d]);
    }
    PROP(ok, "ranges are within the space and belong to processes of the group");
    PROP(ne, "no empty ranges");
}

// --- C04 block partitioner
void h_block(void)
{
    int tasks = CONC(nd_int(1, TASKS)), cycles = CONC(nd_int(1, CYC));
    int64_t size = CONC(nd_in(1, S));
    int pdim = CONC(nd_int(0, DIMS-1));
    int64_t f[3], t[3];
    for(int d = 0; d < 3; d++) {
        f[d] = nd_in(-2, 3);
        t[d] = (d == pdim) ? (f[d] + size) : (f[d] + nd_in(1, 3));
    }
    mk_world(tasks, 0);
    mk_space(&mk_sp, DIMS, f[0], t[0], f[1], t[1], f[2], t[2]);
    Laik_RangeList* l = run(laik_new_block_partitioner(pdim, cycles, 0, 0, 0), 0);
    exact_cover(l);
    int parts = tasks * cycles;
    bool full = true, fair = true, order = true;
    for(unsigned k = 0; k < l->count; k++) {
        Laik_Range* r = &(l->trange[k].range);
        for(int d = 0; d < DIMS; d++) {
            if (d == pdim) continue;
            full &= (r->from.i[d] == mk_sp.range.from.i[d]) & (r->to.i[d] == mk_sp.range.to.i[d]);
        }
        int64_t w = r->to.i[pdim] - r->from.i[pdim];
        fair &= (w >= size / parts) & (w <= (size + parts - 1) / parts);
        int before = 0;
        for(unsigned j = 0; j < l->count; j++)
            before += (l->trange[j].range.from.i[pdim] < r->from.i[pdim]);
        if (size >= parts) order &= (l->trange[k].task == before % tasks);
        else if (cycles == 1)
            for(unsigned j = 0; j < l->count; j++)
                order &= (l->trange[j].range.from.i[pdim] >= r->from.i[pdim]) | (l->trange[j].task < l->trange[k].task);
    }
    PROP(full, "other dimensions are not split");
    PROP(fair, "blocks have the same size, up to one index");
    PROP(order, "blocks are given to processes round-robin in index order");
    if (size >= parts) PROP((int) l->count == parts, "one block per process and cycle");
    REACHED("block");
    if (size < parts) REACHED("more parts than indexes");
}

typedef struct { double iw[16], tw[8]; int64_t from; int dim; } Weights;
static double idx_weight(Laik_Index* i, const void* d)
{
    Weights* w = (Weights*) d;
    int64_t k = i->i[w->dim] - w->from;
    PROP(k >= 0 && k < S, "weight requested for an index of the space");
    return w->iw[k];
}
static double task_weight(int t, const void* d)
{
    PROP(t >= 0 && t < TASKS, "weight requested for a process of the group");
    return ((Weights*) d)->tw[t];
}
void h_block_weights(void)
{
    bool useI = CONC(nd_bool()), useT = CONC(nd_bool());
    ASSUME(useI || useT);
    Weights w;
    int64_t iw[S], tw[TASKS], isum = 0, tsum = 0, imax = 0;
    w.from = CONC(nd_in(-1, 1));
    w.dim = 0;
    for(int k = 0; k < S; k++) {
        iw[k] = useI ? CONC(nd_in(0, WMAX)) : 1;
        isum += iw[k];
        if (iw[k] > imax) imax = iw[k];
        w.iw[k] = iw[k] * SCALE;
    }
    for(int k = 0; k < TASKS; k++) {
        tw[k] = useT ? CONC(nd_in(0, 2)) : 1;
        tsum += tw[k];
        w.tw[k] = tw[k];
    }
    mk_world(TASKS, 0);
    mk_space(&mk_sp, 1, w.from, w.from + S, 0, 0, 0, 0);
    int cycles = CONC(nd_int(1, CYC));
    Laik_Partitioner* pr;
    if (nd_bool())
        pr = laik_new_block_partitioner(0, cycles, useI ? idx_weight : 0, useT ? task_weight : 0, &w);
    else {
        pr = laik_new_block_partitioner1();
        if (useI) laik_set_index_weight(pr, idx_weight, &w);
        if (useT) laik_set_task_weight(pr, task_weight, &w);
        laik_set_cycle_count(pr, cycles);
    }
    Laik_RangeList* l = run(pr, 0);
    exact_cover(l);
    bool order = true, bal = true;
    if (cycles == 1) {
        for(unsigned k = 0; k < l->count; k++) for(unsigned j = 0; j < l->count; j++)
            order &= (l->trange[j].range.from.i[0] >= l->trange[k].range.from.i[0]) | (l->trange[j].task < l->trange[k].task);
        PROP(order, "blocks are in order of processes");
    }
    if (SCALE >= 1.0 && isum > 0 && tsum > 0 && cycles == 1) {
        // weight of blocks of first processes against their share:
        // compare isum*ttw against got*tsum, at most <max> off
        int64_t got = 0, ttw = 0;
        if (imax < 1) imax = 1;
        for(int t = 0; t < TASKS; t++) {
            for(unsigned k = 0; k < l->count; k++)
                if (l->trange[k].task == t)
                    for(int64_t i = l->trange[k].range.from.i[0]; i < l->trange[k].range.to.i[0]; i++) got += iw[i - w.from];
            ttw += tw[t];
            int64_t d = isum * ttw - got * tsum;
            bal &= (d <= imax * tsum) & (d >= -imax * tsum);
        }
        PROP(bal, "weights of blocks follow the shares of processes, up to one index");
    }
    REACHED("weights");
    if (isum == 0 || tsum == 0) REACHED("zero weights");
}

// --- C05 bisection, grid
void h_bisection(void)
{
    int64_t f[3], t[3], size[3];
    for(int d = 0; d < 3; d++) {
        f[d] = nd_in(-2, 3);
        size[d] = nd_in(1, S);
        t[d] = f[d] + size[d];
    }
    mk_world(TASKS, 0);
    mk_space(&mk_sp, DIMS, f[0], t[0], f[1], t[1], f[2], t[2]);
    Laik_RangeList* l = run(laik_new_bisection_partitioner(), 0);
    exact_cover(l);
    bool one = true, fair = true;
    for(unsigned k = 0; k < l->count; k++) {
        for(unsigned j = 0; j < k; j++) one &= (l->trange[j].task != l->trange[k].task);
        int64_t w = l->trange[k].range.to.i[0] - l->trange[k].range.from.i[0];
        fair &= (w * TASKS < size[0] + TASKS) & (w * TASKS > size[0] - TASKS);
    }
    PROP(one, "one range per process");
    if (DIMS == 1) PROP(fair, "sizes differ at most by one");
    REACHED("bisection");
    if (l->count < TASKS) REACHED("less indexes than processes");
}
#ifndef XB
#define XB 3
#define YB 2
#define ZB 2
#endif
void h_grid(void)
{
    int b[3] = { CONC(nd_int(1, XB)), CONC(nd_int(1, YB)), CONC(nd_int(1, ZB)) };
    int64_t f[3], size[3];
    for(int d = 0; d < 3; d++) {
        f[d] = CONC(nd_in(-1, 1));
        size[d] = CONC(nd_in(1, (d == 0) ? S : 3));
    }
    mk_world(b[0] * b[1] * b[2], 0);
    mk_space(&mk_sp, 3, f[0], f[0]+size[0], f[1], f[1]+size[1], f[2], f[2]+size[2]);
    Laik_RangeList* l = run(laik_new_grid_partitioner(b[0], b[1], b[2]), 0);
    exact_cover(l);
    bool one = true;
    for(unsigned k = 0; k < l->count; k++)
        for(unsigned j = 0; j < k; j++) one &= (l->trange[j].task != l->trange[k].task);
    PROP(one, "one range per process");
    REACHED("grid");
}
// many blocks: rounding of borders
void h_grid_long(void)
{
    int blocks = CONC(nd_int(BMIN, XB)), dim = CONC(nd_int(0, 2));
    int64_t size = CONC(nd_in(SMIN, S)), f = 0;
    mk_world(blocks, 0);
    int64_t a[3] = {0,0,0}, e[3] = {2,2,2};
    a[dim] = f; e[dim] = f + size;
    mk_space(&mk_sp, 3, a[0], e[0], a[1], e[1], a[2], e[2]);
    Laik_RangeList* l = run(laik_new_grid_partitioner(dim == 0 ? blocks:1, dim == 1 ? blocks:1, dim == 2 ? blocks:1), 0);
    exact_cover(l);
    bool fair = true;
    for(unsigned k = 0; k < l->count; k++) {
        int64_t w = l->trange[k].range.to.i[dim] - l->trange[k].range.from.i[dim];
        fair &= (w >= size / blocks) & (w <= size / blocks + 2);
    }
    PROP(fair, "blocks have about the same size");
    REACHED("grid");
}

// --- C06 all/master/copy/halo/cornerhalo
static int o_task[N], o_tag[N];
static Laik_Range o_r[N];
static Laik_Space o_sp;
static Laik_Partitioning* mk_other(Laik_Space* sp, int dims, int mintag)
{
    Laik_RangeList* l = laik_rangelist_new(sp, mk_g->size);
    for(int k = 0; k < N; k++) {
        o_task[k] = CONC(nd_int(k > 0 ? o_task[k-1] : 0, TASKS-1));  // any order of adding: see C02
        o_tag[k] = nd_int(mintag, 2);
        o_r[k] = mk_range(sp, dims, S, false);
        laik_rangelist_append(l, o_task[k], &o_r[k], o_tag[k], 0);
    }
    laik_rangelist_freeze(l, false);
    return mk_part(l);
}
static bool has(Laik_RangeList* l, int task, int tag, const int64_t* x)
{
    bool h = false;
    for(unsigned k = 0; k < l->count; k++)
        h |= (l->trange[k].task == task) & (l->trange[k].tag == tag) & mk_in(&(l->trange[k].range), DIMS, x);
    return h;
}
void h_all_master(void)
{
    int64_t x[3];
    mk_world(TASKS, 0);
    int64_t f[3], t[3];
    for(int d = 0; d < 3; d++) { f[d] = nd_in(-4, 0); t[d] = nd_in(1, 4); }
    mk_space(&mk_sp, DIMS, f[0], t[0], f[1], t[1], f[2], t[2]);
    bool all = nd_bool();
    Laik_RangeList* l = run(all ? laik_new_all_partitioner() : laik_new_master_partitioner(), 0);
    any_index(x);
    int c[TASKS];
    for(int k = 0; k < TASKS; k++) c[k] = 0;
    for(unsigned k = 0; k < l->count; k++) c[l->trange[k].task] += mk_in(&(l->trange[k].range), DIMS, x);
    bool ok = true;
    for(int k = 0; k < TASKS; k++) ok &= (c[k] == (all || (k == 0)));
    PROP(ok, "all: every process owns every index; master: only process 0");
    if (all) REACHED("all"); else REACHED("master");
}
#ifndef ODIMS
#define ODIMS DIMS
#endif
void h_copy(void)
{
    int64_t x[3];
    mk_world(TASKS, 0);
    mk_space_s(&mk_sp, DIMS, S);
    mk_space_s(&o_sp, ODIMS, S);
    int from = CONC(nd_int(0, ODIMS-1)), to = CONC(nd_int(0, DIMS-1));
    Laik_Partitioning* other = mk_other(&o_sp, ODIMS, 0);
    Laik_Partitioner* pr = laik_new_copy_partitioner(from, to);
    pr->flags |= LAIK_PF_NoFullCoverage;
    Laik_RangeList* l = run(pr, other);
    any_index(x);
    bool ok = true;
    for(int t = 0; t < TASKS; t++) for(int g = 0; g < 3; g++) {
        bool e = false;
        for(int k = 0; k < N; k++)
            e |= (o_task[k] == t) & (o_tag[k] == g) & (x[to] >= o_r[k].from.i[from]) & (x[to] < o_r[k].to.i[from]);
        ok &= (has(l, t, g, x) == e);
    }
    PROP(ok, "ownership follows the borders in the copied dimension");
    REACHED("copy");
}
static void halo(bool corner)
{
    int64_t x[3];
    mk_world(TASKS, 0);
    mk_space_s(&mk_sp, DIMS, S);
    int depth = CONC(nd_int(DMIN, DMAX));
    Laik_Partitioning* other = mk_other(&mk_sp, DIMS, corner ? 0 : 1);
    Laik_Partitioner* pr = corner ? laik_new_cornerhalo_partitioner(depth) : laik_new_halo_partitioner(depth);
    pr->flags |= LAIK_PF_NoFullCoverage;
    Laik_RangeList* l = run(pr, other);
    any_index(x);
    bool ok = true;
    for(int t = 0; t < TASKS; t++) for(int g = 0; g < 3; g++) {
        bool e = false;
        for(int k = 0; k < N; k++) {
            bool near = true;
            int off = 0;
            for(int d = 0; d < DIMS; d++) {
                near &= (x[d] >= o_r[k].from.i[d] - depth) & (x[d] < o_r[k].to.i[d] + depth);
                off += (x[d] < o_r[k].from.i[d]) | (x[d] >= o_r[k].to.i[d]);
            }
            e |= (o_task[k] == t) & (o_tag[k] == g) & near & (corner | (off <= 1));
        }
        ok &= (has(l, t, g, x) == e);
    }
    PROP(ok, "exactly indexes within the depth of owned ranges are added, up to the border of the space");
    bool in = true;
    for(unsigned k = 0; k < l->count; k++) for(int d = 0; d < DIMS; d++)
        in &= (l->trange[k].range.from.i[d] >= B0) & (l->trange[k].range.to.i[d] <= B0 + S);
    PROP(in, "halos stay within the space");
    REACHED("halo");
}
void h_halo(void) { halo(false); }
void h_cornerhalo(void) { halo(true); }

// --- C07 reassign
void h_reassign(void)
{
    int64_t x[3];
    Weights w;
    bool useW = CONC(nd_bool());
    int64_t sum = 0, wmax = 1, iw[S];
    mk_world(TASKS, 0);
    mk_space_s(&mk_sp, 1, S);
    w.from = B0; w.dim = 0;
    for(int k = 0; k < S; k++) {
        iw[k] = useW ? CONC(nd_in(0, WMAX)) : 1;
        w.iw[k] = iw[k];
        if (iw[k] > wmax) wmax = iw[k];
    }
    // disjoint consecutive ranges covering the space
    int64_t b = B0;
    Laik_RangeList* ol = laik_rangelist_new(&mk_sp, TASKS);
    for(int k = 0; k < N; k++) {
        o_task[k] = CONC(nd_int(0, TASKS-1));
        int64_t e = (k == N-1) ? B0 + S : CONC(nd_in(B0, B0 + S));
        ASSUME(e > b);
        laik_range_init_1d(&o_r[k], &mk_sp, b, e);
        laik_rangelist_append(ol, o_task[k], &o_r[k], 0, 0);
        b = e;
    }
    laik_rangelist_freeze(ol, true);
    Laik_Partitioning* other = mk_part(ol);
    // group without some processes
    Laik_Group* ng = mk_group(TASKS, -1);
    ng->parent = mk_g;
    int c = 0;
    for(int t = 0; t < TASKS; t++) {
        if (nd_bool()) { ng->fromParent[t] = -1; continue; }
        ng->fromParent[t] = c;
        ng->toParent[c] = t;
        c++;
    }
    ng->size = c;
    ASSUME(c > 0);
    Laik_RangeList* l = run(laik_new_reassign_partitioner(ng, useW ? idx_weight : 0, &w), other);
    exact_cover(l);
    any_index(x);
    int64_t ix = CONC(x[0]);
    int old = -1, new = -1;
    for(int k = 0; k < N; k++) if (mk_in(&o_r[k], 1, &ix)) old = o_task[k];
    for(unsigned k = 0; k < l->count; k++) if (mk_in(&(l->trange[k].range), 1, &ix)) new = l->trange[k].task;
    PROP(ng->fromParent[new] >= 0, "removed processes own nothing");
    PROP((ng->fromParent[old] < 0) || (old == new), "remaining processes keep their indexes");
    // weight redistributed
    int64_t got[TASKS], d = 0;
    for(int t = 0; t < TASKS; t++) got[t] = 0;
    for(int64_t i = B0; i < B0 + S; i++) {
        int o = -1, n = -1;
        for(int k = 0; k < N; k++) if (mk_in(&o_r[k], 1, &i)) o = o_task[k];
        for(unsigned k = 0; k < l->count; k++) if (mk_in(&(l->trange[k].range), 1, &i)) n = l->trange[k].task;
        if (ng->fromParent[o] < 0) { sum += iw[i - B0]; got[n] += iw[i - B0]; }
    }
    bool bal = true;
    for(int k = 0; k < c; k++) {
        d = got[ng->toParent[k]] * c - sum;
        bal &= (d <= wmax * c) & (d >= -wmax * c);
    }
    PROP(bal, "weight of removed processes is distributed evenly, up to one index");
    REACHED("reassign");
    if (c < TASKS && sum > 0) REACHED("redistribution");
}
