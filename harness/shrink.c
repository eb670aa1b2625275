// Simulation of a parallel run in which the group of processes is shrunk and
// grows again: all processes execute the real library code
// including the real MPI backend (coroutines); MPI functions are stand-ins
// with the semantics of the MPI standard (no buffering of blocking sends:
// rendezvous). Communication of the simulated processes is checked.
#include "backend-mpi.c"
#ifndef B0
#define B0 (-2)
#endif
#include "mk.h"

#ifndef S
#define S 2
#endif
#define CELLS (DIMS == 1 ? S : DIMS == 2 ? S * S : S * S * S)

void laik_log_ActionSeqIfChanged(bool c, Laik_ActionSeq* as, char* m) { (void) c; (void) as; (void) m; }

char* laik_at_str(Laik_ActionType t) { char m[20]="type xx"; m[5]=(char)(48+t/10); m[6]=(char)(48+t%10); verif_prop(0,m); return "?"; }

// ------------------------------------------------------------ processes
typedef struct {
    Laik_Instance* save_inst;
    Laik_Instance inst;
    Laik_Group* g;
    MPIGroupData gd;
    MPIData md;
    Laik_Space sp;
    Laik_Data* d;
    Laik_Profiling_Controller prof;
    Laik_Partitioning *p0, *p1;
    char pb[512];           // part of static packbuf
} Proc;
static Proc P[TASKS];
static Laik_Type* typ;
#include "mpisim.h"
static void sim_save(int t)
{
    for(int i = 0; i < 512; i++) P[t].pb[i] = packbuf[i];
    P[t].save_inst = mpi_instance;
}
static void sim_restore(int t)
{
    for(int i = 0; i < 512; i++) packbuf[i] = P[t].pb[i];
    mpi_instance = P[t].save_inst;
}
static MPI_Comm sim_comm(int t, MPI_Comm c) { (void) t; return c; }   // wrong ones are noticed by misrouted messages

// ------------------------------------------------------------ the run
#ifndef BACK            // switch back to the original group at end
#define BACK 1
#endif
#ifndef REDUCE          // reduction in shrunk group
#define REDUCE 0
#endif
#ifndef TWICE           // shrink twice
#define TWICE 0
#endif
static int own0[CELLS], own1[CELLS], own2[CELLS], own3[CELLS];
static int rem[2][TASKS], rems[2];
static int member[3][TASKS];        // process IDs of groups as global process numbers
static int members[3];
static uint32_t val[CELLS], val2[TASKS][CELLS];
static void cellpos(int c, int64_t* x)
{
    for(int k = 0; k < 3; k++) { x[k] = (k < DIMS) ? B0 + c % S : 0; c /= S; }
}
// own: mask of process IDs in group, -1 for all
static Laik_Partitioning* build(Proc* p, Laik_Group* g, int* own)
{
    Laik_RangeList* l = laik_rangelist_new(&p->sp, g->size);
    for(int c = 0; c < CELLS; c++) {
        Laik_Range r;
        memset(&r, 0, sizeof(r));
        r.space = &p->sp;
        cellpos(c, r.from.i);
        for(int k = 0; k < DIMS; k++) r.to.i[k] = own ? r.from.i[k] + 1 : B0 + S;
        for(int t = 0; t < g->size; t++)
            if (!own || ((own[c] >> t) & 1)) laik_rangelist_append(l, t, &r, 1, 0);
        if (!own) break;
    }
    laik_rangelist_freeze(l, false);
    Laik_Partitioning* q = calloc(1, sizeof(Laik_Partitioning));
    RangeList_Entry* e = calloc(1, sizeof(RangeList_Entry));
    q->name = "part";
    q->group = g;
    q->space = &p->sp;
    e->ranges = l;
    e->info = LAIK_RI_FULL;
    q->rangeList = e;
    return q;
}
static uint32_t* at(Proc* p, Laik_Partitioning* q, int c)
{
    Laik_RangeList* l = laik_partitioning_myranges(q);
    int me = q->group->myid;
    Laik_Index x;
    cellpos(c, x.i);
    for(unsigned o = l->off[me]; o < l->off[me+1]; o++)
        if (mk_in(&l->trange[o].range, DIMS, x.i))
            return (uint32_t*) laik_get_map_addr(p->d, l->trange[o].mapNo, &x);
    PROP(0, "own index found");
    return 0;
}
static void check(Proc* p, Laik_Partitioning* q, int* own, uint32_t* v)
{
    int me = q->group->myid;
    if (me < 0) return;
    for(int c = 0; c < CELLS; c++)
        if (!own || ((own[c] >> me) & 1)) PROP(*at(p, q, c) == v[c], "value of index");
}
static void check_group(Laik_Group* g, int k, int t)
{
    PROP(laik_size(g) == members[k], "size of group");
    int id = -1;
    for(int i = 0; i < members[k]; i++) {
        if (member[k][i] == t) id = i;
        PROP(g->locationid[i] == member[k][i], "location of process in group");
    }
    PROP(laik_myid(g) == id, "own ID in group");
}
static void process(int t)
{
    Proc* p = &P[t];
    mpi_instance = &p->inst;
    p->d = laik_new_data(&p->sp, typ);
    Laik_Partitioning* p0 = build(p, p->g, own0);
    laik_switchto_partitioning(p->d, p0, LAIK_DF_None, LAIK_RO_None);
    for(int c = 0; c < CELLS; c++) if ((own0[c] >> t) & 1) *at(p, p0, c) = val[c];
    // to smaller group
    Laik_Group* g = laik_new_shrinked_group(p->g, rems[0], rem[0]);
    check_group(g, 1, t);
    Laik_Partitioning* p1 = build(p, g, own1);
    laik_switchto_partitioning(p->d, p1, LAIK_DF_Preserve, LAIK_RO_None);
    PROP(p0->group == p->g && p1->group == g, "groups of partitionings unchanged");
    check(p, p1, own1, val);
    Laik_Partitioning* last = p1;
    int* lastown = own1;
    uint32_t* v = val;
    uint32_t sum[CELLS];
    if (TWICE) {
        g = laik_new_shrinked_group(g, rems[1], rem[1]);
        check_group(g, 2, t);
    }
    if (REDUCE) {
        // everybody in group has all indexes, sum
        Laik_Partitioning* pa = build(p, g, 0);
        Laik_Partitioning* pb = build(p, g, own2);
        laik_switchto_partitioning(p->d, pa, LAIK_DF_Preserve, LAIK_RO_None);
        check(p, pa, 0, v);
        if (g->myid >= 0)
            for(int c = 0; c < CELLS; c++) *at(p, pa, c) = val2[t][c];
        laik_switchto_partitioning(p->d, pb, LAIK_DF_Preserve, LAIK_RO_Sum);
        for(int c = 0; c < CELLS; c++) {
            sum[c] = 0;
            for(int i = 0; i < members[TWICE ? 2 : 1]; i++) sum[c] += val2[member[TWICE ? 2 : 1][i]][c];
        }
        v = sum;
        last = pb;
        lastown = own2;
        check(p, pb, own2, v);
    }
    else {
        Laik_Partitioning* p2 = build(p, g, own2);
        laik_switchto_partitioning(p->d, p2, LAIK_DF_Preserve, LAIK_RO_None);
        check(p, p2, own2, v);
        last = p2;
        lastown = own2;
    }
    (void) last; (void) lastown;
    if (BACK) {
        Laik_Partitioning* p3 = build(p, TWICE ? g->parent : p->g, own3);
        laik_switchto_partitioning(p->d, p3, LAIK_DF_Preserve, LAIK_RO_None);
        check(p, p3, own3, v);
    }
    sim[t].done = true;
    progress++;
}
static void shrink(int k)
{
    // any list of processes to remove; somebody stays
    rems[k] = 0;
    members[k+1] = 0;
    for(int i = 0; i < members[k]; i++) {
        if (CONC(nd_bool())) rem[k][rems[k]++] = i;
        else member[k+1][members[k+1]++] = member[k][i];
    }
    ASSUME(members[k+1] > 0);
}
static void owners(int* own, int n, bool single)
{
    for(int c = 0; c < CELLS; c++) own[c] = single ? 1 << (int) CONC(nd_int(0, n - 1)) : (int) CONC(nd_int(0, (1 << n) - 1));
}
void h_shrink(void)
{
    mpi_reduce = 1;
    mpi_async = 1;
    laik_allocator_def = laik_new_allocator_def();
    laik_type_init();
    typ = laik_Int32;
    members[0] = TASKS;
    for(int t = 0; t < TASKS; t++) member[0][t] = t;
    shrink(0);
    if (TWICE) shrink(1);
    int last = TWICE ? 2 : 1;
    owners(own0, TASKS, true);
    owners(own1, members[1], true);
    owners(own2, members[last], BACK);
    if (BACK) owners(own3, TWICE ? members[1] : TASKS, false);
    for(int c = 0; c < CELLS; c++) val[c] = (uint32_t) nd_in(0, 0xffffffffLL);
    if (REDUCE)
        for(int t = 0; t < TASKS; t++) for(int c = 0; c < CELLS; c++) val2[t][c] = (uint32_t) nd_in(0, 0xffffffffLL);
    for(int t = 0; t < TASKS; t++) {
        Proc* p = &P[t];
        p->inst.locations = TASKS;
        p->inst.mylocationid = t;
        p->inst.mylocation = "loc";
        p->inst.backend = &laik_backend_mpi;
        p->inst.profiling = &p->prof;
        p->gd.comm = (MPI_Comm) &P;
        p->md.comm = (MPI_Comm) &P;
        p->inst.backend_data = &p->md;
        p->g = mk_group(TASKS, t);
        p->g->inst = &p->inst;
        p->g->backend_data = &p->gd;
        p->inst.world = p->g;
        p->inst.group[0] = p->g;
        p->inst.group_count = 1;
        mk_space_s(&p->sp, DIMS, S);
        p->sp.inst = &p->inst;
        sim[t].co = sym_co_new(process, t);
    }
    run_all();
    no_left();
    REACHED("end");
    for(int t = 0; t < TASKS; t++) if (sim[t].sends) { REACHED("messages"); break; }
}
