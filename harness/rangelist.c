// C02: freezing a range list keeps who owns what, and queries are consistent
#include "mk.h"

#ifndef N
#define N 3
#endif
#ifndef S
#define S 7
#endif
#ifndef NEWC
#define NEWC TASKS
#endif
#ifndef TAGS
#define TAGS 2
#endif

static int o_task[8], o_tag[8];
static Laik_Range o_r[8];
static int64_t o_idx[8];

static int owners(int task, int tag, const int64_t* i, int dims)
{
    int c = 0;
    for(int k = 0; k < N; k++)
        if ((o_task[k] == task) && (o_tag[k] == tag) && mk_in(&o_r[k], dims, i)) c++;
    return c;
}

// snapshot of all ranges of a frozen list, by constant position
static int s_n, s_task[8], s_tag[8], s_map[8];
static Laik_Range s_r[8];
static void snapshot(Laik_RangeList* l)
{
    s_n = laik_rangelist_rangecount(l);
    PROP(s_n >= 0 && s_n <= N, "not more ranges than added");
    for(int k = 0; k < N; k++) {
        if (k >= s_n) continue;
        Laik_TaskRange t;
        t.list = l; t.no = k;
        s_task[k] = laik_taskrange_get_task(&t);
        s_tag[k] = laik_taskrange_get_tag(&t);
        s_map[k] = laik_taskrange_get_mapNo(&t);
        s_r[k] = *laik_taskrange_get_range(&t);
    }
}
static int f_owners(int task, int tag, const int64_t* i, int dims)
{
    int c = 0;
    for(int k = 0; k < N; k++)
        if ((k < s_n) && (s_task[k] == task) && (s_tag[k] == tag) && mk_in(&s_r[k], dims, i)) c++;
    return c;
}

// queries consistent with snapshot
static void structure(Laik_RangeList* l, int tasks, bool merged)
{
    int lt = 0;
    for(int k = 0; k < N; k++) {
        if (k >= s_n) break;
        PROP((s_task[k] >= lt) && (s_task[k] < tasks), "ranges are ordered by task");
        lt = s_task[k];
    }
    PROP(laik_rangelist_taskrange(l, s_n) == 0, "no range beyond total count");
    int t = nd_int(0, TASKS);
    ASSUME(t < tasks);
    int n = 0, first = 0;
    for(int k = 0; k < N; k++) {
        if (k >= s_n) break;
        if (s_task[k] < t) first++;
        if (s_task[k] == t) n++;
    }
    PROP(laik_rangelist_tidrangecount(l, t) == n, "range count of task");
    int q = nd_int(-1, N);
    Laik_TaskRange* tr = laik_rangelist_tidrange(l, t, q);
    PROP((tr != 0) == ((q >= 0) && (q < n)), "range of task exists iff number below its count");
    if (tr) PROP(tr->list == l && tr->no == first + q, "ranges of task are enumerated in order");
    // merged: ranges of same task and tag neither overlap nor touch
    if (merged)
        for(int a = 0; a < N; a++) for(int b = 0; b < N; b++) {
            if (a >= s_n || b >= s_n || a == b) continue;
            if (s_task[a] != s_task[b] || s_tag[a] != s_tag[b]) continue;
            PROP((s_r[a].to.i[0] < s_r[b].from.i[0]) || (s_r[b].to.i[0] < s_r[a].from.i[0]),
                 "after merging, ranges of same task and tag neither overlap nor touch");
        }
}

// mapping structure of task <t>: ranges with same tag > 0 in one mapping,
// ranges without tag each in their own mapping (or all in one: single indexes)
static void maps(Laik_RangeList* l, int t, bool single)
{
    int m = laik_rangelist_tidmapcount(l, t);
    int lastm = -1, first = -1;
    int qm = nd_int(-1, N), qc = 0, qf = 0;
    for(int k = 0; k < N; k++) {
        if (k >= s_n || s_task[k] != t) continue;
        if (first < 0) {
            first = k;
            PROP(s_map[k] == 0, "mapping numbers of a task start at 0");
        }
        else {
            PROP(s_map[k] == lastm || s_map[k] == lastm + 1, "mapping numbers are consecutive");
            bool same = single || (s_tag[k] > 0 && s_tag[k] == s_tag[k-1]);
            PROP((s_map[k] == lastm) == same, "same mapping iff same tag (> 0)");
            PROP(s_tag[k] >= s_tag[k-1], "ranges of a task are grouped by tag");
        }
        lastm = s_map[k];
        if (lastm == qm) {
            if (qc == 0) qf = k;
            qc++;
        }
    }
    PROP(m == lastm + 1, "mapping count of task");
    if (qm >= 0 && qm < m)
        PROP((int) laik_rangelist_tidmaprangecount(l, t, qm) == qc, "range count of mapping");
    int q = nd_int(-1, N);
    Laik_TaskRange* tr = laik_rangelist_tidmaprange(l, t, qm, q);
    PROP((tr != 0) == ((qm >= 0) && (qm < m) && (q >= 0) && (q < qc)), "range of mapping exists iff number below count");
    if (tr) PROP(tr->list == l && tr->no == qf + q, "ranges of mapping are enumerated in order");
}

static Laik_RangeList* mk_list(bool merge)
{
    mk_world(TASKS, 0);
    int dims = DIMS;
    mk_space_s(&mk_sp, dims, S);
    Laik_RangeList* l = laik_rangelist_new(&mk_sp, TASKS);
    for(int k = 0; k < N; k++) {
        o_task[k] = nd_int(0, TASKS-1);
        o_tag[k] = nd_int(0, TAGS);
        o_r[k] = mk_range(&mk_sp, dims, S, false);
        laik_rangelist_append(l, o_task[k], &o_r[k], o_tag[k], 0);
    }
    laik_rangelist_freeze(l, merge);
    snapshot(l);
    return l;
}

void h_freeze(void)
{
    Laik_RangeList* l = mk_list(false);
    int task = nd_int(0, TASKS-1), tag = nd_int(0, TAGS);
    int64_t i[3] = { nd_in(B0, B0+S-1), nd_in(B0, B0+S-1), nd_in(B0, B0+S-1) };
    PROP(f_owners(task, tag, i, DIMS) == owners(task, tag, i, DIMS),
         "freezing keeps all ranges of each task and tag");
    PROP(laik_rangelist_rangecount(l) == N, "freezing keeps number of ranges");
    structure(l, TASKS, false);
    maps(l, task, false);
    REACHED("freeze");
    if (laik_rangelist_tidmapcount(l, 0) == 2) REACHED("freeze two maps");
}

void h_merge(void)
{
    Laik_RangeList* l = mk_list(true);
    int task = nd_int(0, TASKS-1), tag = nd_int(0, TAGS);
    int64_t i[3] = { nd_in(B0, B0+S-1), 0, 0 };
    PROP((f_owners(task, tag, i, 1) > 0) == (owners(task, tag, i, 1) > 0),
         "merging keeps the set of indexes of each task and tag");
    structure(l, TASKS, true);
    maps(l, task, false);
    REACHED("merge");
    if (laik_rangelist_rangecount(l) < N) REACHED("merge some");
}

// single indexes
static Laik_RangeList* mk_single(void)
{
    mk_world(TASKS, 0);
    mk_space_s(&mk_sp, 1, S);
    Laik_RangeList* l = laik_rangelist_new(&mk_sp, TASKS);
    for(int k = 0; k < N; k++) {
        o_task[k] = nd_int(0, TASKS-1);
        o_tag[k] = 0;
        o_idx[k] = nd_in(B0, B0+S-1);
        laik_range_init_1d(&o_r[k], &mk_sp, o_idx[k], o_idx[k]+1);
        laik_rangelist_append_single1d(l, o_task[k], o_idx[k]);
    }
    laik_rangelist_freeze(l, false);
    snapshot(l);
    return l;
}
void h_single(void)
{
    Laik_RangeList* l = mk_single();
    int task = nd_int(0, TASKS-1);
    int64_t i[3] = { nd_in(B0, B0+S-1), 0, 0 };
    int f = f_owners(task, 0, i, 1);
    PROP(f <= 1, "merged single indexes do not overlap");
    PROP((f == 1) == (owners(task, 0, i, 1) > 0), "freezing keeps single indexes of each task");
    structure(l, TASKS, true);
    maps(l, task, true);
    REACHED("single");
    if (laik_rangelist_rangecount(l) < N) REACHED("single merged");
}

// comparison with special partitionings, and equality
void h_compare(void)
{
    Laik_RangeList* l = mk_list(false);
    int all = 1;
    // isAll: every task exactly one range, which is the space
    for(int t = 0; t < TASKS; t++) {
        int c = 0;
        for(int k = 0; k < N; k++) if (o_task[k] == t) c++;
        if (c != 1) all = 0;
    }
    for(int k = 0; k < N; k++)
        for(int d = 0; d < DIMS; d++)
            if (o_r[k].from.i[d] != B0 || o_r[k].to.i[d] != B0 + S) all = 0;
    PROP(laik_rangelist_isAll(l) == (all == 1), "full replication detected exactly");
    bool full0 = true;
    for(int d = 0; d < DIMS; d++)
        if (o_r[0].from.i[d] != B0 || o_r[0].to.i[d] != B0 + S) full0 = false;
    if (N == 1)
        PROP(laik_rangelist_isSingle(l) == (full0 ? o_task[0] : -1), "single owner of everything detected exactly");
    else
        PROP(laik_rangelist_isSingle(l) == -1, "more than one range is no single owner");
    REACHED("compare");
    if (laik_rangelist_isAll(l) || N != TASKS) REACHED("compare all");
}

// lists for other numbers of processes, other spaces, or with more ranges are not equal
void h_equal_other(void)
{
    Laik_RangeList* l = mk_list(false);
    int t2 = TASKS + (int) CONC(nd_int(0, 2));
    static Laik_Space sp2;
    mk_space_s(&sp2, DIMS, S);
    bool sp = CONC(nd_bool());
    int n2 = (int) CONC(nd_int(N - 1, N + 1));
    Laik_RangeList* l2 = laik_rangelist_new(sp ? &sp2 : &mk_sp, t2);
    for(int k = 0; k < n2; k++) {
        Laik_Range r = o_r[k < N ? k : N - 1];
        if (sp) r.space = &sp2;
        laik_rangelist_append(l2, o_task[k < N ? k : N - 1], &r, 0, 0);
    }
    laik_rangelist_freeze(l2, false);
    for(int k = 0; k < N; k++) ASSUME(o_tag[k] == 0);
    bool same = t2 == TASKS && !sp && n2 == N;
    PROP(laik_rangelist_isEqual(l, l2) == same, "equal only with same processes, space, number of ranges");
    PROP(laik_rangelist_isEqual(l2, l) == same, "equality is symmetric");
    if (same) REACHED("equal"); else REACHED("not equal");
}

void h_equal(void)
{
    Laik_RangeList* l = mk_list(false);
    // second list: may differ in one entry
    Laik_RangeList* l2 = laik_rangelist_new(&mk_sp, TASKS);
    int chg = nd_int(0, N);
    int ntask = nd_int(0, TASKS-1);
    Laik_Range nr = mk_range(&mk_sp, DIMS, S, false);
    bool same = true;
    for(int k = 0; k < N; k++) ASSUME(o_tag[k] == 0);
    for(int k = 0; k < N; k++) {
        int t = o_task[k];
        Laik_Range r = o_r[k];
        if (k == chg) {
            t = ntask; r = nr;
            if (t != o_task[k]) same = false;
            for(int d = 0; d < DIMS; d++)
                if (r.from.i[d] != o_r[k].from.i[d] || r.to.i[d] != o_r[k].to.i[d]) same = false;
        }
        laik_rangelist_append(l2, t, &r, 0, 0);
    }
    laik_rangelist_freeze(l2, false);
    bool eq = laik_rangelist_isEqual(l, l2);
    if (same) PROP(eq, "lists from same ranges are equal");
    if (eq) {
        int task = nd_int(0, TASKS-1);
        int64_t i[3] = { nd_in(B0, B0+S-1), nd_in(B0, B0+S-1), nd_in(B0, B0+S-1) };
        int c1 = f_owners(task, 0, i, DIMS);
        snapshot(l2);
        PROP(c1 == f_owners(task, 0, i, DIMS), "equal lists have same owners");
    }
    REACHED("equal");
    if (!eq) REACHED("equal not");
}

// migration to other task ids
static void migrate(Laik_RangeList* l, bool single)
{
    int idmap[TASKS], newcount = NEWC;
    bool used[TASKS + 1];
    for(int t = 0; t <= TASKS; t++) used[t] = false;
    for(int t = 0; t < TASKS; t++) {
        idmap[t] = nd_int(-1, TASKS);
        ASSUME(idmap[t] < newcount);
        bool has = false;
        for(int k = 0; k < N; k++) if (k < s_n && s_task[k] == t) has = true;
        if (idmap[t] < 0) ASSUME(!has);
        else
            for(int u = 0; u <= TASKS; u++)
                if (u == idmap[t]) {
                    ASSUME(!used[u]);
                    used[u] = true;
                }
    }
    int task = nd_int(0, TASKS-1), tag = nd_int(0, TAGS);
    int64_t i[3] = { nd_in(B0, B0+S-1), 0, 0 };
    int before = f_owners(task, tag, i, 1);
    int total = s_n;
    int maps0 = laik_rangelist_tidmapcount(l, task);
    // mapping queries before migration must not disturb later ones
    if (nd_bool()) laik_rangelist_tidmaprange(l, task, 0, 0);

    laik_rangelist_migrate(l, idmap, (unsigned) newcount);

    snapshot(l);
    int to = idmap[task];
    PROP(s_n == total, "migration keeps number of ranges");
    if (to >= 0) {
        PROP(f_owners(to, tag, i, 1) == before, "migrated task keeps its ranges");
        PROP(laik_rangelist_tidmapcount(l, to) == maps0, "migration keeps number of mappings");
    }
    for(int t = 0; t <= TASKS; t++) {
        if (t >= newcount) break;
        if (!used[t]) PROP(laik_rangelist_tidrangecount(l, t) == 0, "new task starts without range");
    }
    structure(l, newcount, false);
    int q = nd_int(0, TASKS);
    ASSUME(q < newcount);
    maps(l, q, single);
    REACHED("migrate");
}
void h_migrate(void)
{
    Laik_RangeList* l = mk_list(true);
    migrate(l, false);
}
void h_migrate_single(void)
{
    Laik_RangeList* l = mk_single();
    migrate(l, true);
}

// --- C03: does the list cover the space
void h_covers(void)
{
    Laik_RangeList* l = mk_list(false);
    bool c = laik_rangelist_coversSpace(l);
    bool all = true;
    int64_t i[3] = { 0, 0, 0 };
    // the space is small: conjunction over all its indexes
    for(i[0] = B0; i[0] < B0 + S; i[0]++)
        for(i[1] = (DIMS > 1 ? B0 : 0); i[1] < (DIMS > 1 ? B0 + S : 1); i[1]++)
            for(i[2] = (DIMS > 2 ? B0 : 0); i[2] < (DIMS > 2 ? B0 + S : 1); i[2]++) {
                bool o = false;
                for(int k = 0; k < N; k++) if (mk_in(&o_r[k], DIMS, i)) o = true;
                if (!o) all = false;
            }
    PROP(c == all, "reported as covering the space iff every index has an owner");
    // freezing order does not matter for a later query
    REACHED("covers");
    if (c) REACHED("covers yes");
}
// large indexes (1d): a gap anywhere is found
void h_covers_wide(void)
{
    mk_world(TASKS, 0);
    int64_t f = nd(), t = nd();
    ASSUME(f < t);
    mk_space(&mk_sp, 1, f, t, 0, 0, 0, 0);
    Laik_RangeList* l = laik_rangelist_new(&mk_sp, TASKS);
    for(int k = 0; k < N; k++) {
        o_r[k].space = &mk_sp;
        o_r[k].from.i[0] = nd(); o_r[k].to.i[0] = nd();
        ASSUME(o_r[k].from.i[0] < o_r[k].to.i[0]);
        ASSUME(o_r[k].from.i[0] >= f && o_r[k].to.i[0] <= t);
        laik_rangelist_append(l, nd_int(0, TASKS-1), &o_r[k], 0, 0);
    }
    laik_rangelist_freeze(l, false);
    bool c = laik_rangelist_coversSpace(l);
    int64_t i[1] = { nd() };
    ASSUME(i[0] >= f && i[0] < t);
    bool o = false;
    for(int k = 0; k < N; k++) if (mk_in(&o_r[k], 1, i)) o = true;
    if (c) PROP(o, "no uncovered index if reported as covering");
    // candidates for a gap: start of space or end of a range
    bool cov0 = false, covend[N];
    for(int k = 0; k < N; k++) {
        if (o_r[k].from.i[0] <= f && f < o_r[k].to.i[0]) cov0 = true;
        covend[k] = (o_r[k].to.i[0] == t);
        for(int j = 0; j < N; j++)
            if (o_r[j].from.i[0] <= o_r[k].to.i[0] && o_r[k].to.i[0] < o_r[j].to.i[0]) covend[k] = true;
    }
    bool all = cov0;
    for(int k = 0; k < N; k++) if (!covend[k]) all = false;
    PROP(c == all, "reported as covering iff no gap");
    REACHED("covers wide");
    if (c) REACHED("covers wide yes");
}
