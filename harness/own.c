// C18: what a process sees of a partitioning
#ifndef B0
#define B0 (-2)
#endif
#include "mk.h"

#ifndef N
#define N 3
#endif
#ifndef S
#define S 4
#endif
#ifndef TAGS
#define TAGS 2
#endif
#define CELLS (DIMS == 1 ? S : DIMS == 2 ? S * S : S * S * S)

typedef struct { int n; int task[N], tag[N]; Laik_Range r[N]; } Spec;
static Spec sa, sb;
static void run_spec(Laik_RangeReceiver* rr, Laik_PartitionerParams* p)
{
    Spec* s = laik_partitioner_data(p->partitioner);
    for(int k = 0; k < s->n; k++) laik_append_range(rr, s->task[k], &(s->r[k]), s->tag[k], 0);
}
static void mk_spec(Spec* s)
{
    s->n = N;
    for(int k = 0; k < N; k++) {
        s->task[k] = CONC(nd_int(0, TASKS-1));
        s->tag[k] = nd_int(0, TAGS);
        s->r[k] = mk_range(&mk_sp, DIMS, S, false);
    }
}
static Laik_Index cell(int c)
{
    Laik_Index x;
    memset(&x, 0, sizeof(x));
    for(int k = 0; k < DIMS; k++) { x.i[k] = B0 + c % S; c /= S; }
    return x;
}
static int own_count(const Spec* s, int t, const Laik_Index* x)
{
    int n = 0;
    for(int k = 0; k < s->n; k++) n += (s->task[k] == t) & mk_in(&(s->r[k]), DIMS, x->i);
    return n;
}
static Laik_Partitioning* mk(Spec* s, bool merge, bool bytag)
{
    int f = LAIK_PF_NoFullCoverage | (merge ? LAIK_PF_Merge : 0) | (bytag ? LAIK_PF_GroupByTag : 0);
    return laik_new_empty_partitioning(mk_g, &mk_sp, laik_new_partitioner("spec", run_spec, s, f), 0);
}
static Laik_TaskRange* my_range(Laik_Partitioning* p, int n, Laik_Range* r)
{
    int64_t b[6] = { 99, 99, 99, 99, 99, 99 };
    memset(r, 0, sizeof(*r));
    r->space = &mk_sp;
    Laik_TaskRange* tr;
#if DIMS == 1
    tr = laik_my_range_1d(p, n, &b[0], &b[1]);
#elif DIMS == 2
    tr = laik_my_range_2d(p, n, &b[0], &b[1], &b[2], &b[3]);
#else
    tr = laik_my_range_3d(p, n, &b[0], &b[1], &b[2], &b[3], &b[4], &b[5]);
#endif
    for(int k = 0; k < DIMS; k++) { r->from.i[k] = b[2 * k]; r->to.i[k] = b[2 * k + 1]; }
    return tr;
}

// own ranges, in total and per mapping
void h_own(void)
{
    int me = CONC(nd_int(0, TASKS-1));
    mk_world(TASKS, me);
    mk_space_s(&mk_sp, DIMS, S);
    mk_spec(&sa);
    bool merge = (DIMS == 1) ? CONC(nd_bool()) : false;
    Laik_Partitioning* p = mk(&sa, merge, CONC(nd_bool()));
    // known: ranges of all processes, only own ones, or both
    int kind = CONC(nd_int(0, 2));
    if (kind != 1) laik_partitioning_store_allranges(p);
    if (kind != 0) laik_partitioning_store_myranges(p);
    PROP(laik_partitioning_get_space(p) == &mk_sp && laik_partitioning_get_group(p) == mk_g, "space and group");

    int n = laik_my_rangecount(p), maps = laik_my_mapcount(p);
    PROP(n >= 0 && n <= N && maps >= 0 && maps <= n && (n == 0) == (maps == 0), "number of own ranges and mappings");
    Laik_Range r[N];
    int mapNo[N], count[N], seen[N];
    for(int k = 0; k < N; k++) count[k] = seen[k] = 0;
    for(int k = 0; k < n; k++) {
        Laik_TaskRange* tr = my_range(p, k, &r[k]);
        PROP(tr != 0, "own range exists");
        PROP(mk_same(laik_taskrange_get_range(tr), &r[k], DIMS), "borders of own range");
        mapNo[k] = CONC(laik_taskrange_get_mapNo(tr));
        PROP(mapNo[k] >= 0 && mapNo[k] < maps, "mapping of own range");
        PROP(laik_taskrange_get_mapNo(laik_my_range(p, k)) == mapNo[k], "same range");
        count[mapNo[k]]++;
    }
    for(int c = 0; c < CELLS; c++) {
        Laik_Index x = cell(c);
        int e = 0;
        for(int k = 0; k < n; k++) e += mk_in(&r[k], DIMS, x.i);
        int w = own_count(&sa, me, &x);
        PROP((e > 0) == (w > 0), "indexes of own ranges are those given by the partitioner");
        if (!merge) PROP(e == w, "all ranges given by the partitioner");
    }
    // invalid range numbers
    Laik_Range x;
    PROP(my_range(p, n, &x) == 0 && mk_same(&x, &(Laik_Range) { &mk_sp }, DIMS), "no range at end");
    PROP(my_range(p, -1, &x) == 0, "no range with negative number");
    // ranges per mapping
    for(int m = 0; m < maps; m++) {
        PROP(laik_my_maprangecount(p, m) == count[m], "number of ranges in mapping");
        PROP(count[m] > 0, "no empty mapping");
        for(int k = 0; k < count[m]; k++) {
            Laik_TaskRange* tr = laik_my_maprange(p, m, k);
            PROP(tr != 0, "range of mapping exists");
            PROP(laik_taskrange_get_mapNo(tr) == m, "range belongs to mapping");
            const Laik_Range* q = laik_taskrange_get_range(tr);
            bool found = false;
            for(int i = 0; i < n; i++) if (mapNo[i] == m) found |= mk_same(q, &r[i], DIMS);
            PROP(found, "range of mapping is own range");
            seen[m]++;
        }
        PROP(laik_my_maprange(p, m, count[m]) == 0 && laik_my_maprange(p, m, -1) == 0, "no other range in mapping");
    }
    PROP(laik_my_maprange(p, maps, 0) == 0 && laik_my_maprange(p, -1, 0) == 0, "no other mapping");
    REACHED("own");
    if (maps > 1) REACHED("multiple mappings");
}

// ranges per mapping for all processes
void h_all(void)
{
    mk_world(TASKS, CONC(nd_int(-1, TASKS-1)));
    mk_space_s(&mk_sp, DIMS, S);
    mk_spec(&sa);
    Laik_Partitioning* p = mk(&sa, false, CONC(nd_bool()));
    laik_partitioning_store_allranges(p);
    Laik_RangeList* l = laik_partitioning_allranges(p);
    int total = 0;
    for(int t = 0; t < TASKS; t++) {
        int n = laik_rangelist_tidrangecount(l, t), maps = laik_rangelist_tidmapcount(l, t), sum = 0;
        for(int m = 0; m < maps; m++) {
            int k = (int) laik_rangelist_tidmaprangecount(l, t, m);
            for(int i = 0; i < k; i++) {
                Laik_TaskRange* tr = laik_rangelist_tidmaprange(l, t, m, i);
                PROP(tr != 0 && laik_taskrange_get_mapNo(tr) == m && laik_taskrange_get_task(tr) == t, "range in mapping of process");
            }
            sum += k;
        }
        PROP(sum == n, "each range in one mapping");
        PROP(laik_rangelist_tidmaprange(l, t, maps, 0) == 0, "no other mapping");
        total += n;
    }
    PROP(total == N && (int) laik_rangelist_rangecount(l) == N, "all ranges");
    REACHED("all");
}

// coverage and comparison
void h_compare(void)
{
    mk_world(TASKS, CONC(nd_int(-1, TASKS-1)));
    mk_space_s(&mk_sp, DIMS, S);
    mk_spec(&sa);
    mk_spec(&sb);
    Laik_Partitioning *a = mk(&sa, false, false), *b = mk(&sb, false, false);
    laik_partitioning_store_allranges(a);
    laik_partitioning_store_allranges(b);
    bool all = true, same = true;
    for(int c = 0; c < CELLS; c++) {
        Laik_Index x = cell(c);
        bool any = false;
        for(int t = 0; t < TASKS; t++) {
            int m = own_count(&sa, t, &x), n = own_count(&sb, t, &x);
            any |= m > 0;
            same &= (m == n);
        }
        all &= any;
    }
    PROP(laik_partitioning_coversSpace(a) == all, "covers space if each index has an owner");
    PROP(laik_partitioning_isEqual(a, a) && laik_partitioning_isEqual(b, b), "equal to itself");
    bool eq = laik_partitioning_isEqual(a, b);
    PROP(eq == laik_partitioning_isEqual(b, a), "symmetric");
    if (eq) PROP(same, "equal partitionings have the same owners");
    // clone: same partitioner, group and space, run again
    Laik_Partitioning* c = laik_clone_empty_partitioning(a);
    laik_partitioning_store_allranges(c);
    PROP(laik_partitioning_get_space(c) == &mk_sp && laik_partitioning_get_group(c) == mk_g, "space and group of clone");
    PROP(laik_partitioning_isEqual(a, c) && laik_partitioning_isEqual(c, a), "clone is equal");
    REACHED("compare");
    if (eq) REACHED("equal");
}
