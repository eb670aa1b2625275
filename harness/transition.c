// C11/C12/C13: transitions between partitionings
#include "mk.h"

#ifndef NF
#define NF 2
#endif
#ifndef NT
#define NT 2
#endif
#ifndef S
#define S 6
#endif
#ifndef TAGS
#define TAGS 0
#endif
#ifndef MERGE
#define MERGE 0
#endif
#ifndef ONE_EACH        // each process owns one range
#define ONE_EACH 0
#endif
#ifndef EMPTY
#define EMPTY 0
#endif

static int f_task[NF], f_tag[NF], t_task[NT], t_tag[NT];
static Laik_Range f_r[NF], t_r[NT];
static Laik_RangeList *fl, *tl;
static Laik_Partitioning *fp, *tp;
static Laik_Transition* tr[TASKS];

static void mk_lists(bool tasklocal_overlap)
{
    mk_world(TASKS, 0);
    mk_space_s(&mk_sp, DIMS, S);
    fl = laik_rangelist_new(&mk_sp, TASKS);
    tl = laik_rangelist_new(&mk_sp, TASKS);
    for(int k = 0; k < NF; k++) {
        // order of adding ranges is irrelevant (see C02): use ordered tasks here
        f_task[k] = ONE_EACH ? k % TASKS : nd_int(k > 0 ? f_task[k-1] : 0, TASKS-1);
        f_task[k] = CONC(f_task[k]);
        f_tag[k] = nd_int(0, TAGS);
        f_r[k] = mk_range(&mk_sp, DIMS, S, EMPTY);
    }
    for(int k = 0; k < NT; k++) {
        t_task[k] = nd_int(k > 0 ? t_task[k-1] : 0, TASKS-1);
        t_task[k] = CONC(t_task[k]);
        t_tag[k] = nd_int(0, TAGS);
        t_r[k] = mk_range(&mk_sp, DIMS, S, EMPTY);
    }
    // ordered ranges within same task
    bool ord = true;
    for(int a = 1; a < NF; a++) ord &= (f_task[a-1] != f_task[a]) | (f_r[a-1].from.i[0] <= f_r[a].from.i[0]);
    for(int a = 1; a < NT; a++) ord &= (t_task[a-1] != t_task[a]) | (t_r[a-1].from.i[0] <= t_r[a].from.i[0]);
    ASSUME(ord);
    if (!tasklocal_overlap) {
        // own ranges do not overlap
        bool ok = true;
        for(int a = 0; a < NF; a++) for(int b = 0; b < a; b++)
            ok &= !((f_task[a] == f_task[b]) & mk_overlap(&f_r[a], &f_r[b], DIMS));
        for(int a = 0; a < NT; a++) for(int b = 0; b < a; b++)
            ok &= !((t_task[a] == t_task[b]) & mk_overlap(&t_r[a], &t_r[b], DIMS));
        ASSUME(ok);
    }
}
static void mk_parts(void)
{
    for(int k = 0; k < NF; k++) laik_rangelist_append(fl, f_task[k], &f_r[k], f_tag[k], 0);
    for(int k = 0; k < NT; k++) laik_rangelist_append(tl, t_task[k], &t_r[k], t_tag[k], 0);
    bool merge = MERGE;
    laik_rangelist_freeze(fl, merge);
    laik_rangelist_freeze(tl, merge);
    fp = mk_part(fl);
    tp = mk_part(tl);
}
// no index has owners in different processes
static bool from_disjoint(void)
{
    bool ok = true;
    for(int a = 0; a < NF; a++) for(int b = 0; b < a; b++)
        ok &= !((f_task[a] != f_task[b]) & mk_overlap(&f_r[a], &f_r[b], DIMS));
    return ok;
}
static bool owned(const int64_t* i)
{
    bool o = false;
    for(int k = 0; k < NF; k++) o |= mk_in(&f_r[k], DIMS, i);
    return o;
}
static bool wanted(const int64_t* i)
{
    bool o = false;
    for(int k = 0; k < NT; k++) o |= mk_in(&t_r[k], DIMS, i);
    return o;
}
// 1d: every wanted index has an owner. It is enough to check starts of wanted
// ranges and ends of owned ranges
static bool all_owned_1d(void)
{
    bool ok = true;
    for(int k = 0; k < NT; k++) ok &= !wanted(t_r[k].from.i) | owned(t_r[k].from.i);
    for(int k = 0; k < NF; k++) ok &= !wanted(f_r[k].to.i) | owned(f_r[k].to.i);
    return ok;
}
static void calc(Laik_ReductionOperation redOp)
{
    for(int me = 0; me < TASKS; me++) {
        mk_g->myid = me;
        tr[me] = laik_calc_transition(&mk_sp, fp, tp, LAIK_DF_Preserve, redOp);
        PROP(tr[me] != 0, "transition exists for member of the group");
        PROP(tr[me]->initCount == 0, "no initialization when preserving values");
        PROP(tr[me]->actionCount == tr[me]->localCount + tr[me]->sendCount + tr[me]->recvCount + tr[me]->redCount,
             "number of actions");
    }
}

// mapping of range in list <l> of task <t> containing <x> (ranges of a task do not overlap)
static int map_of(Laik_RangeList* l, int t, const int64_t* x)
{
    int m = -1;
    for(unsigned k = l->off[t]; k < l->off[t+1]; k++)
        m = mk_in(&(l->trange[k].range), DIMS, x) ? l->trange[k].mapNo : m;
    return m;
}
static int group_has(Laik_Transition* t, int g, int task)
{
    int c = 0, n = laik_trans_groupCount(t, g);
    for(int i = 0; i < n; i++) c += (laik_trans_taskInGroup(t, g, i) == task);
    return c;
}

// --- C11 (1d): exact operations for any index
static void check_1d(bool reduction)
{
    int64_t x[3] = { nd_in(B0, B0+S-1), 0, 0 };
    int own[TASKS], want[TASKS], no = 0, nw = 0;
    for(int t = 0; t < TASKS; t++) {
        own[t] = want[t] = 0;
        for(int k = 0; k < NF; k++) own[t] |= (f_task[k] == t) & mk_in(&f_r[k], 1, x);
        for(int k = 0; k < NT; k++) want[t] |= (t_task[k] == t) & mk_in(&t_r[k], 1, x);
        no += own[t]; nw += want[t];
    }
    bool ok = true, okmap = true, okred = true, okgroup = true, okrmap = true;
    for(int t = 0; t < TASKS; t++) {
        int nl = 0, ns[TASKS], nr[TASKS], nred = 0;
        int fm = map_of(fl, t, x), tm = map_of(tl, t, x);
        for(int d = 0; d < TASKS; d++) { ns[d] = 0; nr[d] = 0; }
        for(int k = 0; k < tr[t]->localCount; k++) {
            struct localTOp* o = &(tr[t]->local[k]);
            bool in = mk_in(&(o->range), 1, x);
            nl += in;
            okmap &= !in | ((o->fromMapNo == fm) & (o->toMapNo == tm));
        }
        for(int k = 0; k < tr[t]->sendCount; k++) {
            struct sendTOp* o = &(tr[t]->send[k]);
            bool in = mk_in(&(o->range), 1, x);
            for(int d = 0; d < TASKS; d++) ns[d] += in & (o->toTask == d);
            okmap &= !in | (o->mapNo == fm);
        }
        for(int k = 0; k < tr[t]->recvCount; k++) {
            struct recvTOp* o = &(tr[t]->recv[k]);
            bool in = mk_in(&(o->range), 1, x);
            for(int d = 0; d < TASKS; d++) nr[d] += in & (o->fromTask == d);
            okmap &= !in | (o->mapNo == tm);
        }
        for(int k = 0; k < tr[t]->redCount; k++) {
            struct redTOp* o = &(tr[t]->red[k]);
            bool in = mk_in(&(o->range), 1, x);
            nred += in;
            okred &= (o->redOp == LAIK_RO_Sum);
            for(int d = 0; d < TASKS; d++)
                okgroup &= !in | ((group_has(tr[t], o->inputGroup, d) == own[d]) &
                                  (group_has(tr[t], o->outputGroup, d) == want[d]));
            okrmap &= !in | !own[t] | (o->myInputMapNo == fm);
            okrmap &= !in | !want[t] | (o->myOutputMapNo == tm);
        }
        bool one = (no == 1);
        ok &= (nl == (one & own[t] & want[t]));
        for(int d = 0; d < TASKS; d++) {
            ok &= (ns[d] == (one & own[t] & want[d] & (d != t)));
            ok &= (nr[d] == (one & own[d] & want[t] & (d != t)));
        }
        okred &= (nred == ((no > 1) & (nw > 0) & (own[t] | want[t])));
    }
    PROP(ok, "exactly one copy/transfer from the owner for each process wanting an index");
    PROP(okmap, "operations use the mappings holding the index");
    PROP(okred, "exactly one reduction for indexes with multiple owners, in all involved processes");
    PROP(okgroup, "reduction inputs are the owners, outputs the processes wanting the index");
    PROP(okrmap, "reductions use the mappings holding the index");
    if (!reduction) PROP(tr[0]->redCount == 0, "no reduction without request");
}
void h_trans_1d(void)
{
    mk_lists(false);
    ASSUME(from_disjoint());
    ASSUME(all_owned_1d());
    mk_parts();
    calc(LAIK_RO_None);
    check_1d(false);
    REACHED("transition");
    if (tr[0]->sendCount > 0) REACHED("transition with send");
}
void h_trans_1d_red(void)
{
    mk_lists(false);
    ASSUME(all_owned_1d());
    mk_parts();
    calc(LAIK_RO_Sum);
    check_1d(true);
    REACHED("transition");
    if (tr[0]->redCount > 0) REACHED("transition with reduction");
}

// --- C12 (2d/3d): every wanted index gets a value from an owner
static void calc_own(const int64_t* x, int* own, int* want)
{
    for(int t = 0; t < TASKS; t++) {
        own[t] = want[t] = 0;
        for(int k = 0; k < NF; k++) own[t] |= (f_task[k] == t) & mk_in(&f_r[k], DIMS, x);
        for(int k = 0; k < NT; k++) want[t] |= (t_task[k] == t) & mk_in(&t_r[k], DIMS, x);
    }
}
static void check_nd(bool exact)
{
    int64_t x[3] = { nd_in(B0, B0+S-1), nd_in(B0, B0+S-1), (DIMS > 2) ? nd_in(B0, B0+S-1) : 0 };
    int own[TASKS], want[TASKS];
    calc_own(x, own, want);
    bool okl = true, okr = true, oks = true, okmap = true, oknone = true;
    for(int t = 0; t < TASKS; t++) {
        int nl = 0, ns[TASKS], nr[TASKS];
        int fm = map_of(fl, t, x), tm = map_of(tl, t, x);
        for(int d = 0; d < TASKS; d++) { ns[d] = 0; nr[d] = 0; }
        for(int k = 0; k < tr[t]->localCount; k++) {
            struct localTOp* o = &(tr[t]->local[k]);
            bool in = mk_in(&(o->range), DIMS, x);
            nl += in;
            okmap &= !in | ((o->fromMapNo == fm) & (o->toMapNo == tm));
        }
        for(int k = 0; k < tr[t]->sendCount; k++) {
            struct sendTOp* o = &(tr[t]->send[k]);
            bool in = mk_in(&(o->range), DIMS, x);
            for(int d = 0; d < TASKS; d++) ns[d] += in & (o->toTask == d);
            okmap &= !in | (o->mapNo == fm);
        }
        for(int k = 0; k < tr[t]->recvCount; k++) {
            struct recvTOp* o = &(tr[t]->recv[k]);
            bool in = mk_in(&(o->range), DIMS, x);
            for(int d = 0; d < TASKS; d++) nr[d] += in & (o->fromTask == d);
            okmap &= !in | (o->mapNo == tm);
        }
        PROP(tr[t]->redCount == 0, "no reduction without request");
        okl &= (nl == (own[t] & want[t]));
        oknone &= (nr[t] == 0) & (ns[t] == 0);
        for(int d = 0; d < TASKS; d++) {
            if (d == t) continue;
            int e = own[d] & want[t], e2 = own[t] & want[d];
            if (exact) {
                okr &= (nr[d] == e);
                oks &= (ns[d] == e2);
            }
            else {
                // indexes also available locally may be transfered or not
                okr &= own[t] ? (nr[d] <= e) : (nr[d] == e);
                oks &= own[d] ? (ns[d] <= e2) : (ns[d] == e2);
            }
        }
    }
    PROP(okl, "wanted indexes owned before stay, with one local copy");
    PROP(okr, "a process receives each wanted index once from the processes owning it");
    PROP(oks, "an owner sends each index once to processes wanting it");
    PROP(okmap, "operations use the mappings holding the index");
    PROP(oknone, "no transfer of a process to itself");
}
void h_trans_nd(void)
{
    mk_lists(false);
    ASSUME(from_disjoint());
    mk_parts();
    calc(LAIK_RO_None);
    check_nd(true);
    REACHED("transition");
    if (tr[0]->sendCount > 0) REACHED("transition with send");
}
// multiple owners with the same values
void h_trans_nd_multi(void)
{
    mk_lists(false);
    mk_parts();
    calc(LAIK_RO_None);
    check_nd(false);
    REACHED("transition");
    if (tr[0]->sendCount > 0) REACHED("transition with send");
}
// reduction of the complete space
void h_trans_nd_red(void)
{
    mk_world(TASKS, 0);
    mk_space_s(&mk_sp, DIMS, S);
    fl = laik_rangelist_new(&mk_sp, TASKS);
    tl = laik_rangelist_new(&mk_sp, TASKS);
    int target = nd_int(-1, TASKS-1);
    for(int t = 0; t < TASKS; t++) {
        laik_rangelist_append(fl, t, &mk_sp.range, 0, 0);
        if (target < 0 || target == t) laik_rangelist_append(tl, t, &mk_sp.range, 0, 0);
    }
    laik_rangelist_freeze(fl, DIMS == 1);
    laik_rangelist_freeze(tl, DIMS == 1);
    fp = mk_part(fl);
    tp = mk_part(tl);
    calc(LAIK_RO_Sum);
    for(int t = 0; t < TASKS; t++) {
        PROP(tr[t]->sendCount == 0 && tr[t]->recvCount == 0, "no transfers besides the reduction");
        if (TASKS == 1) continue;
        PROP(tr[t]->redCount == 1, "one reduction in each process");
        struct redTOp* o = &(tr[t]->red[0]);
        PROP(o->redOp == LAIK_RO_Sum, "requested reduction operation");
        PROP(mk_same(&(o->range), &mk_sp.range, DIMS), "reduction of complete space");
        bool ok = true;
        for(int d = 0; d < TASKS; d++)
            ok &= (group_has(tr[t], o->inputGroup, d) == 1) &
                  (group_has(tr[t], o->outputGroup, d) == ((target < 0) | (target == d)));
        PROP(ok, "all processes are input, requested ones output");
    }
    REACHED("reduction");
    if (target > 0) REACHED("reduction to one");
}

// --- C13: messages match in number, order and range
static void check_match(void)
{
    bool okn = true, okrange = true;
    for(int s = 0; s < TASKS; s++) for(int d = 0; d < TASKS; d++) {
        if (s == d) continue;
        int a = 0, b = 0;
        while(1) {
            while(a < tr[s]->sendCount && tr[s]->send[a].toTask != d) a++;
            while(b < tr[d]->recvCount && tr[d]->recv[b].fromTask != s) b++;
            bool ea = (a >= tr[s]->sendCount), eb = (b >= tr[d]->recvCount);
            okn &= (ea == eb);
            if (ea || eb) break;
            okrange &= mk_same(&(tr[s]->send[a].range), &(tr[d]->recv[b].range), DIMS);
            okrange &= !mk_empty(&(tr[s]->send[a].range), DIMS);
            a++; b++;
        }
    }
    PROP(okn, "as many receives as sends between two processes");
    PROP(okrange, "n-th message sent is the n-th message expected (same non-empty range)");
    // reductions: same sequence in all processes taking part
    for(int s = 0; s < TASKS; s++) for(int d = 0; d < s; d++) {
        int a = 0, b = 0;
        bool okg = true, okrr = true;
        while(1) {
            while(a < tr[s]->redCount && !group_has(tr[s], tr[s]->red[a].inputGroup, d) && !group_has(tr[s], tr[s]->red[a].outputGroup, d)) a++;
            while(b < tr[d]->redCount && !group_has(tr[d], tr[d]->red[b].inputGroup, s) && !group_has(tr[d], tr[d]->red[b].outputGroup, s)) b++;
            bool ea = (a >= tr[s]->redCount), eb = (b >= tr[d]->redCount);
            okrr &= (ea == eb);
            if (ea || eb) break;
            struct redTOp *ra = &(tr[s]->red[a]), *rb = &(tr[d]->red[b]);
            okrr &= mk_same(&(ra->range), &(rb->range), DIMS);
            for(int t = 0; t < TASKS; t++) {
                okg &= group_has(tr[s], ra->inputGroup, t) == group_has(tr[d], rb->inputGroup, t);
                okg &= group_has(tr[s], ra->outputGroup, t) == group_has(tr[d], rb->outputGroup, t);
            }
            a++; b++;
        }
        PROP(okrr, "n-th common reduction of two processes has the same range");
        PROP(okg, "processes agree on input and output groups of a reduction");
    }
}
void h_match(void)
{
    mk_lists(DIMS > 1);
    if (DIMS == 1) ASSUME(all_owned_1d());
    mk_parts();
    calc(DIMS == 1 ? LAIK_RO_Sum : LAIK_RO_None);
    check_match();
    REACHED("match");
    if (tr[0]->sendCount > 0) REACHED("match with send");
}
