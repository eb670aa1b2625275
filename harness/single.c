// Sequential run: program using the single-process backend and the public interface
#include "h.h"
#include <laik-internal.h>
#include "laik-backend-single.h"
#include <stdlib.h>
#include <string.h>
#ifndef DIMS
#define DIMS 1
#endif
#ifndef S
#define S 3
#endif
#ifndef STEPS
#define STEPS 3
#endif
#ifndef NTAGS
#define NTAGS 2
#endif
#ifndef USER            // partitionings with any set of indexes
#define USER 1
#endif
#ifndef B0
#define B0 0
#endif
#define CELLS (DIMS == 1 ? S : DIMS == 2 ? S * S : S * S * S)

void laik_log_init(Laik_Instance* i) { (void) i; }
void laik_log_cleanup(Laik_Instance* i) { (void) i; }
static Laik_Space* sp;
static int64_t size(int k) { return k < DIMS ? S : 1; }
static Laik_Index cellpos(int c)
{
    Laik_Index x;
    for(int k = 0; k < 3; k++) { x.i[k] = k < DIMS ? c % S : 0; if (k < DIMS) c /= S; }
    return x;
}
// user partitioner: set of indexes with tags
typedef struct { int tag[CELLS]; } Own;
static void run_user(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
{
    Own* o = p->partitioner->data;
    for(int c = 0; c < CELLS; c++) {
        if (!o->tag[c]) continue;
        Laik_Range g;
        memset(&g, 0, sizeof(g));
        g.space = sp;
        g.from = cellpos(c);
        for(int k = 0; k < DIMS; k++) g.to.i[k] = g.from.i[k] + 1;
        laik_append_range(r, 0, &g, o->tag[c], 0);
    }
}
static Laik_Partitioning* part(Laik_Group* w, int kind, bool* has)
{
    for(int c = 0; c < CELLS; c++) has[c] = true;
    Laik_Partitioner* pr = 0;
    if (kind == 0) pr = laik_new_all_partitioner();
    if (kind == 1) pr = laik_new_master_partitioner();
    if (kind == 2) pr = laik_new_block_partitioner1();
    if (kind == 3) {
        Own* o = calloc(1, sizeof(Own));
        bool any = false;
        for(int c = 0; c < CELLS; c++) {
            o->tag[c] = (int) CONC(nd_int(0, NTAGS));
            has[c] = o->tag[c] > 0;
            any |= has[c];
        }
        ASSUME(any);
        bool all = true;
        for(int c = 0; c < CELLS; c++) all &= has[c];
        pr = laik_new_partitioner("user", run_user, o, LAIK_PF_GroupByTag | ((DIMS == 1 && CONC(nd_bool())) ? LAIK_PF_Merge : 0) | (all ? 0 : LAIK_PF_NoFullCoverage));
    }
    return laik_new_partitioning(pr, w, sp, 0);
}
static uint32_t* at(Laik_Data* d, Laik_Partitioning* p, int c)
{
    Laik_Index x = cellpos(c);
    for(int i = 0; i < laik_my_rangecount(p); i++) {
        Laik_TaskRange* tr = laik_my_range(p, i);
        const Laik_Range* r = laik_taskrange_get_range(tr);
        bool in = true;
        for(int k = 0; k < DIMS; k++) in &= (x.i[k] >= r->from.i[k]) & (x.i[k] < r->to.i[k]);
        if (!in) continue;
        int m = laik_taskrange_get_mapNo(tr);
        uint32_t* a = (uint32_t*) laik_get_map_addr(d, m, &x);
        if (DIMS == 1) {
            // the same by local index
            uint32_t* base;
            uint64_t count;
            laik_get_map_1d(d, m, (void**) &base, &count);
            int64_t l = (int64_t) (a - base);
            PROP(l >= 0 && (uint64_t) l < count, "address within mapping");
        }
        return a;
    }
    PROP(0, "own index found");
    return 0;
}
void h_single(void)
{
    Laik_Instance* inst = laik_init_single();
    PROP(laik_init_single() == inst, "one instance");
    Laik_Group* w = laik_single_world();
    PROP(w == laik_world(inst), "world");
    PROP(laik_size(w) == 1 && laik_myid(w) == 0, "one process");
    sp = DIMS == 1 ? laik_new_space_1d(inst, S) : DIMS == 2 ? laik_new_space_2d(inst, S, S) : laik_new_space_3d(inst, S, S, S);
    Laik_Data* d = laik_new_data(sp, laik_UInt32);
    uint32_t v[CELLS];
    bool valid[CELLS], has[CELLS], old[CELLS];
    for(int c = 0; c < CELLS; c++) { old[c] = false; valid[c] = false; }
    Laik_Partitioning* p = 0;
    int steps = (int) CONC(nd_int(1, STEPS));
    int oldkind = 0;
    for(int s = 0; s < steps; s++) {
        int kind = (int) CONC(nd_int(0, 2 + USER));
        int flow = (DIMS > 1) ? (s == 0 ? 0 : 2 * (int) CONC(nd_int(0, 1))) : (int) CONC(nd_int(0, s == 0 ? 1 : 2));   // initialization: 1d only
        Laik_Partitioning* q = part(w, kind, has);
        if (flow == 0) laik_switchto_partitioning(d, q, LAIK_DF_None, LAIK_RO_None);
        if (flow == 1) {
            bool sum = CONC(nd_bool());
            laik_switchto_partitioning(d, q, LAIK_DF_Init, sum ? LAIK_RO_Sum : LAIK_RO_And);
            for(int c = 0; c < CELLS; c++) v[c] = sum ? 0 : 0xffffffff;
        }
        Laik_ReductionOperation op = LAIK_RO_None;
        if (flow == 2) {
            bool reducible = (DIMS == 1) || ((oldkind != 3) & (kind != 3));
            if (reducible && CONC(nd_bool())) op = CONC(nd_bool()) ? LAIK_RO_Sum : LAIK_RO_And;
            if (CONC(nd_bool())) {
                // the same with a prepared action sequence
                Laik_Transition* t = laik_calc_transition(sp, p, q, LAIK_DF_Preserve, op);
                Laik_ActionSeq* as = laik_calc_actions(d, t, 0, 0);
                laik_exec_actions(as);
                laik_aseq_free(as);
                laik_free_transition(t);
            }
            else
            laik_switchto_partitioning(d, q, LAIK_DF_Preserve, op);
        }
        for(int c = 0; c < CELLS; c++) {
            if (flow == 0) valid[c] = false;
            if (flow == 1) valid[c] = has[c];
            if (flow == 2 && op != LAIK_RO_None && !old[c]) { v[c] = (op == LAIK_RO_Sum) ? 0 : 0xffffffff; valid[c] = has[c]; }  // reduction without inputs: neutral element
            else if (flow == 2) valid[c] &= has[c];
            if (valid[c]) PROP(*at(d, q, c) == v[c], "value of index preserved or initialized");
        }
        // write to all
        bool wr = (flow == 0) || CONC(nd_bool());
        for(int c = 0; c < CELLS; c++) {
            if (!has[c] || !wr) continue;
            v[c] = (uint32_t) nd_in(0, 0xffffffffLL);
            *at(d, q, c) = v[c];
            valid[c] = true;
        }
        for(int c = 0; c < CELLS; c++) if (valid[c]) PROP(*at(d, q, c) == v[c], "indexes have separate memory");
        if (p) laik_free_partitioning(p);
        p = q;
        oldkind = kind;
        for(int c = 0; c < CELLS; c++) old[c] = has[c];
    }
    laik_free(d);
    laik_finalize(inst);
    REACHED("sequential run");
}
