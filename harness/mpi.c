// Simulation of a parallel run: all processes execute the real library code
// including the real MPI backend (coroutines); MPI functions are stand-ins
// with the semantics of the MPI standard (no buffering of blocking sends:
// rendezvous). Communication of the simulated processes is checked.
#include "backend-mpi.c"
#ifndef B0
#define B0 (-2)
#endif
#include "mk.h"

#ifndef S
#define S 2
#endif
#ifndef NTAGS
#define NTAGS 1
#endif
#ifndef MERGE
#define MERGE false
#endif
#ifndef MODE            // 0: switch, 1: prepared actions, 2: prepared with reservation
#define MODE 0
#endif
#ifndef ITER
#define ITER 1
#endif
#ifndef HOLES           // indexes without owner before the switch
#define HOLES 0
#endif
#ifndef RED             // 0: no reductions, 1: any owners, 2: all but at most one process, 3: all indexes in all processes
#define RED 0
#endif
#ifndef MREDUCE
#define MREDUCE 1
#endif
#ifndef MASYNC
#define MASYNC 1
#endif
#define CELLS (DIMS == 1 ? S : DIMS == 2 ? S * S : S * S * S)

void laik_log_ActionSeqIfChanged(bool c, Laik_ActionSeq* as, char* m) { (void) c; (void) as; (void) m; }

char* laik_at_str(Laik_ActionType t) { (void) t; return "?"; }

// ------------------------------------------------------------ processes
typedef struct {
    Laik_Instance* save_inst;
    Laik_Instance inst;
    Laik_Group* g;
    MPIGroupData gd;
    MPIData md;
    Laik_Space sp;
    Laik_Data* d;
    Laik_Profiling_Controller prof;
    Laik_Partitioning *p0, *p1;
    char pb[512];           // part of static packbuf
} Proc;
static Proc P[TASKS];
static Laik_Type* typ;
#include "mpisim.h"
static void sim_save(int t)
{
    for(int i = 0; i < 512; i++) P[t].pb[i] = packbuf[i];
    P[t].save_inst = mpi_instance;
}
static void sim_restore(int t)
{
    for(int i = 0; i < 512; i++) packbuf[i] = P[t].pb[i];
    mpi_instance = P[t].save_inst;
}
static MPI_Comm sim_comm(int t, MPI_Comm c) { (void) c; return P[t].gd.comm; }

// ------------------------------------------------------------ the run
static int own0[CELLS], own1[CELLS], tag0[CELLS], tag1[CELLS];
static SIM_CT val[ITER][TASKS][CELLS];
static void cellpos(int c, int64_t* x)
{
    for(int k = 0; k < 3; k++) { x[k] = (k < DIMS) ? B0 + c % S : 0; c /= S; }
}
static Laik_Partitioning* build(Proc* p, int* own, int* tag)
{
    Laik_RangeList* l = laik_rangelist_new(&p->sp, TASKS);
    for(int c = 0; c < CELLS; c++) {
        Laik_Range r;
        memset(&r, 0, sizeof(r));
        r.space = &p->sp;
        cellpos(c, r.from.i);
        for(int k = 0; k < DIMS; k++) r.to.i[k] = (RED == 3) ? B0 + S : r.from.i[k] + 1;
        if (RED == 3 && c > 0) break;
        for(int t = 0; t < TASKS; t++)
            if ((own[c] >> t) & 1) laik_rangelist_append(l, t, &r, tag[c], 0);
    }
    laik_rangelist_freeze(l, MERGE);
    Laik_Partitioning* q = calloc(1, sizeof(Laik_Partitioning));
    RangeList_Entry* e = calloc(1, sizeof(RangeList_Entry));
    q->name = "part";
    q->group = p->g;
    q->space = &p->sp;
    e->ranges = l;
    e->info = LAIK_RI_FULL;
    q->rangeList = e;
    return q;
}
static SIM_CT* at(Proc* p, Laik_Partitioning* q, int c)
{
    Laik_RangeList* l = laik_partitioning_myranges(q);
    int me = q->group->myid;
    Laik_Index x;
    cellpos(c, x.i);
    for(unsigned o = l->off[me]; o < l->off[me+1]; o++)
        if (mk_in(&l->trange[o].range, DIMS, x.i))
            return (SIM_CT*) laik_get_map_addr(p->d, l->trange[o].mapNo, &x);
    PROP(0, "own index found");
    return 0;
}
static Laik_ReductionOperation redop;
static SIM_CT anyval(void)
{
#ifdef SIM_FP
    static int n = 0;       // exact sums and products
    return (SIM_CT) (RED ? CONC(nd_in(-2, 2)) : ++n) / 4;
#else
    return (SIM_CT) (uint64_t) nd_in(INT64_MIN, INT64_MAX);
#endif
}
static void process(int t)
{
    Proc* p = &P[t];
    mpi_instance = &p->inst;
    p->p0 = build(p, own0, tag0);
    p->p1 = build(p, own1, tag1);
    p->d = laik_new_data(&p->sp, typ);
    Laik_ActionSeq* as = 0;
    Laik_Transition* tr = 0;
    Laik_Reservation* res = 0;
    if (MODE == 2) {
        res = laik_reservation_new(p->d);
        laik_reservation_add(res, p->p0);
        laik_reservation_add(res, p->p1);
        laik_reservation_alloc(res);
        laik_data_use_reservation(p->d, res);
    }
    if (MODE > 0) {
        tr = laik_calc_transition(&p->sp, p->p0, p->p1, LAIK_DF_Preserve, redop);
        as = laik_calc_actions(p->d, tr, res, res);
        PROP(as->backend == &laik_backend_mpi, "prepared by backend");
    }
    for(int it = 0; it < ITER; it++) {
        laik_switchto_partitioning(p->d, p->p0, LAIK_DF_None, LAIK_RO_None);
        for(int c = 0; c < CELLS; c++)
            if ((own0[c] >> t) & 1) *at(p, p->p0, c) = val[it][t][c];
        uint64_t s = sim[t].sends, sb = sim[t].sendBytes, r = sim[t].recvs, rb = sim[t].recvBytes, rd = sim[t].reds;
        if (MODE > 0) laik_exec_actions(as);
        else laik_switchto_partitioning(p->d, p->p1, LAIK_DF_Preserve, redop);
        for(int c = 0; c < CELLS; c++) {
            if (!((own1[c] >> t) & 1)) continue;
            SIM_CT v = (SIM_CT) ((redop == LAIK_RO_And) ? -1 : 0);
            bool first = true;
            for(int o = 0; o < TASKS; o++) {
                SIM_CT w = val[it][o][c];
                if (!((own0[c] >> o) & 1)) continue;
                if (first) { v = w; first = false; continue; }
                switch(redop) {
                case LAIK_RO_Sum: v = v + w; break;
                case LAIK_RO_Prod: v = v * w; break;
                case LAIK_RO_Min: v = (v < w) ? v : w; break;
                case LAIK_RO_Max: v = (v > w) ? v : w; break;
#ifndef SIM_FP
                case LAIK_RO_And: v &= w; break;
                case LAIK_RO_Or: v |= w; break;
#endif
                default: PROP(0, "one owner without reduction");
                }
            }
            if (!RED && !own0[c]) continue;     // undefined
            PROP(*at(p, p->p1, c) == v, "value of index preserved or reduced over all owners");
        }
        if (as) {
            PROP(as->msgSendCount + as->msgAsyncSendCount == sim[t].sends - s, "statistics: number of messages sent");
            PROP(as->byteSendCount == sim[t].sendBytes - sb, "statistics: bytes sent");
            PROP(as->msgRecvCount + as->msgAsyncRecvCount == sim[t].recvs - r, "statistics: number of messages received");
            PROP(as->byteRecvCount == sim[t].recvBytes - rb, "statistics: bytes received");
            PROP(as->msgReduceCount == sim[t].reds - rd, "statistics: number of reductions");
        }
    }
    if (as) laik_aseq_free(as);
    sim[t].done = true;
    progress++;
}
void h_mpi(void)
{
    mpi_reduce = MREDUCE;
    mpi_async = MASYNC;
    laik_allocator_def = laik_new_allocator_def();
    laik_type_init();
    typ = SIM_LT;
#ifdef ALLOPS
    static Laik_ReductionOperation ops[] = { LAIK_RO_Sum, LAIK_RO_Prod, LAIK_RO_Min, LAIK_RO_Max, LAIK_RO_And, LAIK_RO_Or };
    redop = ops[CONC(nd_int(0, ALLOPS - 1))];
#else
    redop = RED ? CONC(nd_bool()) ? LAIK_RO_Sum : LAIK_RO_Or : LAIK_RO_None;
#endif
    int miss = (RED == 2) ? (int) CONC(nd_int(-1, TASKS-1)) : 0;
    for(int c = 0; c < CELLS; c++) {
        if (RED == 2) own0[c] = ((1 << TASKS) - 1) & ~(miss < 0 ? 0 : 1 << miss);
        else if (RED == 3) own0[c] = (1 << TASKS) - 1;
        else
        own0[c] = (int) CONC(RED ? nd_int(!HOLES, (1 << TASKS) - 1) : nd_int(0, TASKS - !HOLES));
        if (!RED) own0[c] = (own0[c] < TASKS) ? 1 << own0[c] : 0;   // exactly one owner
        own1[c] = (RED == 3 && c > 0) ? own1[0] : (int) CONC(nd_int(RED == 3, (1 << TASKS) - 1));
        tag0[c] = NTAGS == 1 ? 1 : (int) CONC(nd_int(1, NTAGS));
        tag1[c] = NTAGS == 1 ? 1 : (int) CONC(nd_int(1, NTAGS));
        for(int t = 0; t < TASKS; t++) for(int i = 0; i < ITER; i++)
            if ((own0[c] >> t) & 1) val[i][t][c] = anyval();
    }
    for(int t = 0; t < TASKS; t++) {
        Proc* p = &P[t];
        p->inst.locations = TASKS;
        p->inst.mylocationid = t;
        p->inst.mylocation = "loc";
        p->inst.backend = &laik_backend_mpi;
        p->inst.profiling = &p->prof;
        p->gd.comm = (MPI_Comm) &P;
        p->md.comm = (MPI_Comm) &P;
        p->inst.backend_data = &p->md;
        p->g = mk_group(TASKS, t);
        p->g->inst = &p->inst;
        p->g->backend_data = &p->gd;
        p->inst.world = p->g;
        p->inst.group[0] = p->g;
        p->inst.group_count = 1;
        mk_space_s(&p->sp, DIMS, S);
        p->sp.inst = &p->inst;
        sim[t].co = sym_co_new(process, t);
    }
    run_all();
    no_left();
    REACHED("end");
    for(int t = 0; t < TASKS; t++) if (sim[t].sends) { REACHED("messages"); break; }
}
