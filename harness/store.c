// Space store and location strings: synchronized among all processes
// (simulated parallel run with the MPI backend)
#include "backend-mpi.c"
#include "mk.h"
#include "mpisim.h"
#ifndef FIRST
#define FIRST TASKS     // number of processes at start, others join later
#endif
#ifndef OWNER
#define OWNER 0         // process creating the space
#endif
typedef struct {
    Laik_Instance* save_inst;
    Laik_Instance inst;
    MPIGroupData gd;
    MPIData md;
} Proc;
static Proc P[TASKS];
static void sim_save(int t) { P[t].save_inst = mpi_instance; }
static void sim_restore(int t) { mpi_instance = P[t].save_inst; }
static MPI_Comm sim_comm(int t, MPI_Comm c) { (void) c; return P[t].md.comm; }

static int64_t bord[2][2][3];   // version, from/to, dimension
static int other;               // process changing the size
static char name[] = "my space";

static void check_space(Laik_Space* s, int v)
{
    PROP(s != 0, "space with name known");
    PROP(s->dims == DIMS, "number of dimensions");
    PROP(strcmp(s->name, name) == 0, "name of space");
    const Laik_Range* r = laik_space_asrange(s);
    PROP(r->space == s, "range of space belongs to space");
    for(int d = 0; d < DIMS; d++)
        PROP(r->from.i[d] == bord[v][0][d] && r->to.i[d] == bord[v][1][d], "borders of space");
}
static void change(Laik_Space* s, int v)
{
    if (DIMS == 1) laik_change_space_1d(s, bord[v][0][0], bord[v][1][0]);
    if (DIMS == 2) laik_change_space_2d(s, bord[v][0][0], bord[v][1][0], bord[v][0][1], bord[v][1][1]);
    if (DIMS == 3) laik_change_space_3d(s, bord[v][0][0], bord[v][1][0], bord[v][0][1], bord[v][1][1], bord[v][0][2], bord[v][1][2]);
}
static void spaces(int t)
{
    Proc* p = &P[t];
    mpi_instance = &p->inst;
    Laik_Space* s = 0;
    if (t == OWNER) {
        s = DIMS == 1 ? laik_new_space_1d(&p->inst, 5) : DIMS == 2 ? laik_new_space_2d(&p->inst, 5, 6) : laik_new_space_3d(&p->inst, 5, 6, 7);
        change(s, 0);
        laik_set_space_name(s, name);
        laik_spacestore_set(s);
    }
    laik_sync_spaces(&p->inst);
    Laik_Space* s2 = laik_spacestore_get(&p->inst, name);
    if (s) PROP(s2 == s, "own space found");
    s = s2;
    check_space(s, 0);
    PROP(laik_spacestore_get(&p->inst, "other") == 0, "unknown space");
    if (t == other) change(s, 1);
    laik_sync_spaces(&p->inst);
    PROP(laik_spacestore_get(&p->inst, name) == s, "same space");
    check_space(s, 1);
    sim[t].done = true;
    progress++;
}
static void world(int t, int size)
{
    Proc* p = &P[t];
    Laik_Group* g = mk_group(size, t);
    g->inst = &p->inst;
    g->backend_data = &p->gd;
    p->inst.world = g;
    p->inst.group[0] = g;
    p->inst.group_count = 1;
    p->inst.locations = size;
}
void h_spaces(void)
{
    for(int v = 0; v < 2; v++) for(int k = 0; k < 2; k++) for(int d = 0; d < DIMS; d++)
        bord[v][k][d] = nd_in(INT64_MIN, INT64_MAX);
    other = (int) CONC(nd_int(0, TASKS - 1));
    for(int t = 0; t < TASKS; t++) {
        Proc* p = &P[t];
        p->inst.mylocationid = t;
        p->inst.mylocation = "loc";
        p->inst.backend = &laik_backend_mpi;
        p->gd.comm = (MPI_Comm) &p->gd;
        p->md.comm = (MPI_Comm) &P;
        p->inst.backend_data = &p->md;
        world(t, TASKS);
        sim[t].co = sym_co_new(spaces, t);
    }
    run_all();
    no_left();
    REACHED("end");
}

static char loc[TASKS][4];
static int arrived;
static void locations(int t)
{
    Proc* p = &P[t];
    mpi_instance = &p->inst;
    if (t < FIRST) {
        world(t, FIRST);
        for(int i = 0; i < FIRST; i++) PROP(laik_group_location(p->inst.world, i) == 0, "unknown before synchronization");
        laik_sync_location(&p->inst);
        for(int i = 0; i < FIRST; i++) {
            char* l = laik_group_location(p->inst.world, i);
            PROP(l != 0 && strcmp(l, loc[i]) == 0, "location string of process");
        }
    }
    arrived++;
    progress++;
    while(arrived < TASKS) sched_yield_();
    world(t, TASKS);
    if (t < FIRST) for(int i = FIRST; i < TASKS; i++) PROP(laik_group_location(p->inst.world, i) == 0, "unknown before synchronization");
    laik_sync_location(&p->inst);
    for(int i = 0; i < TASKS; i++) {
        char* l = laik_group_location(p->inst.world, i);
        PROP(l != 0 && strcmp(l, loc[i]) == 0, "location string of process");
    }
    // derived group
    if (t > 0) {
        int rm[1] = {0};
        Laik_Group* g = laik_new_shrinked_group(p->inst.world, 1, rm);
        for(int i = 1; i < TASKS; i++) {
            char* l = laik_group_location(g, i - 1);
            PROP(l != 0 && strcmp(l, loc[i]) == 0, "location string of process in derived group");
        }
    }
    else {
        int rm[1] = {0};
        laik_new_shrinked_group(p->inst.world, 1, rm);
    }
    sim[t].done = true;
    progress++;
}
int MPI_Comm_rank(MPI_Comm c, int* r) { (void) c; *r = cur > 0 ? cur - 1 : -1; return MPI_SUCCESS; }
void h_locations(void)
{
    for(int t = 0; t < TASKS; t++) {
        Proc* p = &P[t];
        int n = (int) CONC(nd_int(0, 2));
        for(int i = 0; i < n; i++) loc[t][i] = (char) nd_in(1, 255);
        p->inst.mylocationid = t;
        p->inst.mylocation = loc[t];
        p->inst.backend = &laik_backend_mpi;
        p->gd.comm = (MPI_Comm) &p->gd;
        p->md.comm = (MPI_Comm) &P;
        p->inst.backend_data = &p->md;
        sim[t].co = sym_co_new(locations, t);
    }
    run_all();
    no_left();
    REACHED("end");
}
