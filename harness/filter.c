// C08: partitioner runs with filters keep exactly what is needed
#include "mk.h"

#ifndef N
#define N 2
#endif
#ifndef M
#define M 2
#endif
#ifndef S
#define S 5
#endif
#ifndef SINGLE
#define SINGLE 0
#endif
#ifndef MERGE
#define MERGE 0
#endif
#ifndef TAGS
#define TAGS 1
#endif

typedef struct { int n; int task[4], tag[4]; Laik_Range r[4]; bool single; } Spec;
static Spec sa, sb;

static void run_spec(Laik_RangeReceiver* rr, Laik_PartitionerParams* p)
{
    Spec* s = laik_partitioner_data(p->partitioner);
    for(int k = 0; k < s->n; k++) {
        if (s->single) laik_append_index_1d(rr, s->task[k], s->r[k].from.i[0]);
        else laik_append_range(rr, s->task[k], &(s->r[k]), s->tag[k], 0);
    }
}
static void mk_spec(Spec* s, int n, bool single, int tags)
{
    s->n = n;
    s->single = single;
    for(int k = 0; k < n; k++) {
        s->task[k] = CONC(nd_int(0, TASKS-1));
        s->tag[k] = nd_int(0, tags);
        if (single) {
            int64_t i = nd_in(B0, B0+S-1);
            laik_range_init_1d(&(s->r[k]), &mk_sp, i, i+1);
        }
        else s->r[k] = mk_range(&mk_sp, DIMS, S, false);
    }
}
static Laik_Partitioning* mk(Spec* s, bool merge)
{
    return laik_new_empty_partitioning(mk_g, &mk_sp,
               laik_new_partitioner("spec", run_spec, s, LAIK_PF_NoFullCoverage | (merge ? LAIK_PF_Merge : 0)), 0);
}

// run with filter for own ranges
void h_my(void)
{
    int me = CONC(nd_int(-1, TASKS-1));
    mk_world(TASKS, me);
    mk_space_s(&mk_sp, DIMS, S);
    mk_spec(&sa, N, SINGLE, TAGS);
    bool merge = (DIMS == 1) ? nd_bool() : false;
    Laik_Partitioning* f = mk(&sa, merge);
    Laik_Partitioning* p = mk(&sa, merge);
    laik_partitioning_store_allranges(f);
    laik_partitioning_store_myranges(p);
    if (me < 0) {
        PROP(laik_my_rangecount(p) == 0 && laik_my_mapcount(p) == 0, "nothing owned outside of group");
        PROP(laik_my_range(p, 0) == 0, "no range outside of group");
        STOP();
    }
    Laik_RangeList* l = laik_partitioning_myranges(p);
    PROP(l != 0, "own ranges known");
    bool own = true;
    for(unsigned k = 0; k < l->count; k++) own &= (l->trange[k].task == me);
    PROP(own, "only own ranges stored");
    int n = laik_my_rangecount(f);
    PROP(laik_my_rangecount(p) == n, "same number of own ranges as without filter");
    PROP(laik_my_mapcount(p) == laik_my_mapcount(f), "same number of mappings as without filter");
    bool same = true, meta = true;
    for(int k = 0; k < n; k++) {
        Laik_TaskRange *t = laik_my_range(f, k), t1 = *t;
        Laik_TaskRange *u = laik_my_range(p, k);
        same &= mk_same(laik_taskrange_get_range(&t1), laik_taskrange_get_range(u), DIMS);
        meta &= (laik_taskrange_get_tag(&t1) == laik_taskrange_get_tag(u)) &
                (laik_taskrange_get_mapNo(&t1) == laik_taskrange_get_mapNo(u));
        for(int m = 0; m < N; m++) {
            if (m >= laik_my_mapcount(f)) break;
            meta &= (laik_my_maprangecount(p, m) == laik_my_maprangecount(f, m));
        }
    }
    PROP(same, "same own ranges in same order as without filter");
    PROP(meta, "same tags and mappings as without filter");
    REACHED("my filter");
    if (n > 1) REACHED("multiple own ranges");
}

// any range passed to index filter: kept if it has a common index with own ranges
void h_idx(void)
{
    int me = CONC(nd_int(0, TASKS-1));
    mk_world(TASKS, me);
    mk_space_s(&mk_sp, 1, S);
    mk_spec(&sa, N, false, TAGS);
    mk_spec(&sb, M, false, TAGS);
    Laik_Partitioning *a = mk(&sa, false), *b = mk(&sb, false);
    laik_partitioning_store_allranges(a);
    laik_partitioning_store_allranges(b);
    Laik_RangeFilter* f = laik_rangefilter_new();
    laik_rangefilter_add_idxfilter(f, laik_partitioning_allranges(a), me);
    laik_rangefilter_add_idxfilter(f, laik_partitioning_allranges(b), me);
    Laik_Range r = mk_range(&mk_sp, 1, S, false);
    bool e = false;
    for(int k = 0; k < N; k++) e |= (sa.task[k] == me) & mk_overlap(&r, &(sa.r[k]), 1);
    for(int k = 0; k < M; k++) e |= (sb.task[k] == me) & mk_overlap(&r, &(sb.r[k]), 1);
    Laik_RangeList* l = laik_rangelist_new(&mk_sp, TASKS);
    Laik_PartitionerParams params = { &mk_sp, mk_g, a->partitioner, 0 };
    Laik_RangeReceiver rr;
    rr.params = &params; rr.list = l; rr.filter = f;
    laik_append_range(&rr, nd_int(0, TASKS-1), &r, 0, 0);
    PROP((l->count == 1) == e, "range kept if and only if it intersects own ranges");
    laik_rangefilter_free(f);
    REACHED("index filter");
    if (e) REACHED("index filter keeps range");
}

// transition from filtered range lists is the same as from complete ones
void h_inter(void)
{
    int me = CONC(nd_int(0, TASKS-1));
    mk_world(TASKS, me);
    mk_space_s(&mk_sp, 1, S);
    mk_spec(&sa, N, SINGLE, 0);
    mk_spec(&sb, M, false, 0);
    bool ok = true;
    // own ranges without overlap, wanted indexes owned
    for(int x = 0; x < N; x++) for(int y = 0; y < x; y++)
        ok &= !((sa.task[x] == sa.task[y]) & mk_overlap(&sa.r[x], &sa.r[y], 1));
    for(int x = 0; x < M; x++) for(int y = 0; y < x; y++)
        ok &= !((sb.task[x] == sb.task[y]) & mk_overlap(&sb.r[x], &sb.r[y], 1));
    for(int64_t i = B0; i < B0 + S; i++) {
        bool o = false, w = false;
        for(int x = 0; x < N; x++) o |= mk_in(&sa.r[x], 1, &i);
        for(int x = 0; x < M; x++) w |= mk_in(&sb.r[x], 1, &i);
        ok &= !w | o;
    }
    ASSUME(ok);
    Laik_Partitioning *fa = mk(&sa, MERGE), *fb = mk(&sb, MERGE), *pa = mk(&sa, MERGE), *pb = mk(&sb, MERGE);
    laik_partitioning_store_allranges(fa);
    laik_partitioning_store_allranges(fb);
    laik_partitioning_store_myranges(pa);
    laik_partitioning_store_myranges(pb);
    laik_partitioning_store_intersectranges(pa, pb);
    laik_partitioning_store_intersectranges(pb, pa);
    Laik_Transition* f = laik_calc_transition(&mk_sp, fa, fb, LAIK_DF_Preserve, LAIK_RO_Sum);
    Laik_Transition* p = laik_calc_transition(&mk_sp, pa, pb, LAIK_DF_Preserve, LAIK_RO_Sum);
    PROP((f->localCount == p->localCount) && (f->sendCount == p->sendCount) &&
         (f->recvCount == p->recvCount) && (f->redCount == p->redCount), "same number of operations");
    bool same = true;
    for(int k = 0; k < f->localCount; k++)
        same &= mk_same(&(f->local[k].range), &(p->local[k].range), 1) &
                (f->local[k].fromMapNo == p->local[k].fromMapNo) & (f->local[k].toMapNo == p->local[k].toMapNo) &
                (f->local[k].fromRangeNo == p->local[k].fromRangeNo) & (f->local[k].toRangeNo == p->local[k].toRangeNo);
    for(int k = 0; k < f->sendCount; k++)
        same &= mk_same(&(f->send[k].range), &(p->send[k].range), 1) & (f->send[k].toTask == p->send[k].toTask) &
                (f->send[k].mapNo == p->send[k].mapNo) & (f->send[k].rangeNo == p->send[k].rangeNo);
    for(int k = 0; k < f->recvCount; k++)
        same &= mk_same(&(f->recv[k].range), &(p->recv[k].range), 1) & (f->recv[k].fromTask == p->recv[k].fromTask) &
                (f->recv[k].mapNo == p->recv[k].mapNo) & (f->recv[k].rangeNo == p->recv[k].rangeNo);
    for(int k = 0; k < f->redCount; k++) {
        same &= mk_same(&(f->red[k].range), &(p->red[k].range), 1) &
                (f->red[k].myInputMapNo == p->red[k].myInputMapNo) & (f->red[k].myOutputMapNo == p->red[k].myOutputMapNo);
        int c = laik_trans_groupCount(f, f->red[k].inputGroup), d = laik_trans_groupCount(f, f->red[k].outputGroup);
        same &= (c == laik_trans_groupCount(p, p->red[k].inputGroup)) & (d == laik_trans_groupCount(p, p->red[k].outputGroup));
        if (!same) break;
        for(int i = 0; i < c; i++)
            same &= laik_trans_taskInGroup(f, f->red[k].inputGroup, i) == laik_trans_taskInGroup(p, p->red[k].inputGroup, i);
        for(int i = 0; i < d; i++)
            same &= laik_trans_taskInGroup(f, f->red[k].outputGroup, i) == laik_trans_taskInGroup(p, p->red[k].outputGroup, i);
    }
    PROP(same, "same operations as with complete knowledge");
    REACHED("filtered transition");
    if (f->sendCount > 0) REACHED("filtered transition with send");
}
