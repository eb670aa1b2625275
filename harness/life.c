// Life cycle of instances and objects: creation, freeing, resize of the world, finalization
#include "h.h"
#include <laik-internal.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>

#ifndef STEPS
#define STEPS 4
#endif
#ifndef DATAS
#define DATAS 3
#endif
// logging shows everything: all arguments are used
static char text[4000];
bool laik_log_begin(int l) { (void) l; return true; }
void laik_log_append(const char* m, ...)
{
    va_list ap;
    va_start(ap, m);
    PROP(vsnprintf(text, sizeof(text), m, ap) < (int) sizeof(text), "limit of harness");
    va_end(ap);
}
void laik_log_flush(const char* m, ...)
{
    if (!m) return;
    va_list ap;
    va_start(ap, m);
    PROP(vsnprintf(text, sizeof(text), m, ap) < (int) sizeof(text), "limit of harness");
    va_end(ap);
}
bool laik_log_shown(int l) { (void) l; return true; }
void laik_log_inc(void) {}
void laik_log(int l, const char* m, ...)
{
    PROP(l != LAIK_LL_Panic, "no panic");
    va_list ap;
    va_start(ap, m);
    PROP(vsnprintf(text, sizeof(text), m, ap) < (int) sizeof(text), "limit of harness");
    va_end(ap);
}
void laik_panic(const char* m) { (void) m; PROP(false, "no panic"); }
void laik_log_append_info(void) {}
static int log_cleaned;
void laik_log_init(Laik_Instance* i) { (void) i; }
void laik_log_cleanup(Laik_Instance* i) { (void) i; log_cleaned++; }

// backend recording calls
static Laik_Instance* inst;
static int finalized, finishes, progress;
static bool pending;            // resize not finished yet
static Laik_ResizeRequests* seen;
static int expect[2 * STEPS], expn;
static int nextw;               // 0: no change, 1: new world
static void be_finalize(Laik_Instance* i) { PROP(i == inst && !pending, "resize finished before finalization"); finalized++; }
static int be_objs[2 * STEPS];
static bool add_in_progress;
static void be_progress(void)
{
    progress++;
    if (add_in_progress) { laik_add_join_req(inst, &be_objs[2 * STEPS - 1]); expect[expn++] = 2 * (2 * STEPS - 1) + 1; add_in_progress = false; }
}
static Laik_Group* be_resize(Laik_ResizeRequests* r)
{
    PROP(!pending, "previous resize finished before next");
    PROP((r ? r->used : 0) == expn, "all requests since last resize passed on");
    for(int i = 0; i < expn; i++) {
        PROP(r->req[i].is_join_req == (expect[i] & 1), "kind of request");
        PROP(r->req[i].backend_data == &be_objs[expect[i] / 2], "request in order");
    }
    expn = 0;
    if (!nextw) return 0;
    Laik_Group* g = laik_create_group(inst, 4);
    g->size = nextw;
    g->myid = 0;
    g->parent = inst->world;
    for(int i = 0; i < nextw; i++) { g->locationid[i] = i; g->toParent[i] = i; g->fromParent[i] = i; }
    pending = true;
    return g;
}
static void be_finish(void) { PROP(pending, "resize in progress"); pending = false; finishes++; }
static Laik_Backend be = { .name = "stub", .finalize = be_finalize };

static void setup(bool resize)
{
    if (resize) { be.resize = be_resize; be.finish_resize = be_finish; be.make_progress = be_progress; }
    inst = laik_new_instance(&be, 2, 0, 0, 0, "here", 0);
    strcpy(inst->guid, "0");
    Laik_Group* g = laik_create_group(inst, 2);
    g->size = 2;
    g->myid = 0;
    for(int i = 0; i < 2; i++) g->locationid[i] = i;
    inst->world = g;
}
static int spaces(void)
{
    int n = 0;
    for(Laik_Space* s = inst->firstSpaceForInstance; s; s = s->nextSpaceForInstance) n++;
    return n;
}
static bool has_space(Laik_Space* x)
{
    for(Laik_Space* s = inst->firstSpaceForInstance; s; s = s->nextSpaceForInstance) if (s == x) return true;
    return false;
}
// containers and spaces created and freed in any order
void h_objects(void)
{
    setup(false);
    Laik_Data* d[STEPS];
    Laik_Space* s[STEPS + 1];
    bool ddead[STEPS], sdead[STEPS + 1];
    int dn = 0, sn = 0, dl = 0, sl = 0;
    s[sn++] = laik_new_space_1d(inst, 10);
    sdead[0] = false;
    sl++;
    int steps = (int) CONC(nd_int(1, STEPS));
    for(int k = 0; k < steps; k++) {
        int op = (int) CONC(nd_int(0, 3));
        if (op == 0) { d[dn] = laik_new_data(s[0], laik_Double); ddead[dn++] = false; dl++; }
        else if (op == 1) {
            ASSUME(dn > 0);
            int i = (int) CONC(nd_int(0, dn - 1));
            ASSUME(!ddead[i]);
            laik_free(d[i]);
            ddead[i] = true;
            dl--;
        }
        else if (op == 2) { s[sn] = CONC(nd_bool()) ? laik_new_space_2d(inst, 3, 4) : laik_new_space_3d(inst, 2, 3, 4); sdead[sn++] = false; sl++; }
        else {
            ASSUME(sn > 1);
            int i = (int) CONC(nd_int(1, sn - 1));
            ASSUME(!sdead[i]);
            laik_free_space(s[i]);
            sdead[i] = true;
            sl--;
        }
        PROP(inst->data_count == dl, "number of containers of instance");
        PROP(spaces() == sl, "number of spaces of instance");
        for(int i = 0; i < sn; i++) PROP(has_space(s[i]) == !sdead[i], "spaces of instance");
        int p = 0;
        for(int i = 0; i < dn; i++) if (!ddead[i]) { PROP(inst->data[p] == d[i], "containers of instance"); p++; }
    }
    laik_finalize(inst);
    PROP(finalized == 1 && log_cleaned == 1, "backend and logging finalized");
    REACHED("finalized");
}
// requests to join/leave the world, resize at any time
void h_resize(void)
{
    setup(CONC(nd_bool()));
    int steps = (int) CONC(nd_int(1, STEPS)), no = 0;
    for(int k = 0; k < steps; k++) {
        int op = (int) CONC(nd_int(0, 3));
        if (op < 2) {
            ASSUME(be.resize);
            if (op) laik_add_join_req(inst, &be_objs[no]);
            else laik_add_remove_req(inst, &be_objs[no]);
            expect[expn++] = 2 * no + op;
            no++;
        }
        else if (op == 2) {
            nextw = (int) CONC(nd_int(0, 3));
            add_in_progress = be.make_progress && CONC(nd_bool());
            int phase = nd_int(-1, 5), epoch = laik_epoch(inst), pr = progress;
            Laik_Group* w = laik_world(inst);
            Laik_Group* g = laik_allow_world_resize(inst, phase);
            PROP(laik_phase(inst) == phase, "phase set");
            PROP(g == laik_world(inst), "world returned");
            if (!be.resize || !nextw) PROP(g == w && laik_epoch(inst) == epoch, "world not changed");
            else {
                PROP(g != w && g->size == nextw && laik_epoch(inst) == epoch + 1, "new world, new epoch");
                PROP(laik_group_parent(g) == w && pending, "transition from old world possible");
                PROP(progress == pr + 1, "backend asked for progress");
                REACHED("resized");
            }
        }
        else {
            laik_finish_world_resize(inst);
            PROP(!pending, "resize finished");
            PROP(laik_group_parent(laik_world(inst)) == 0, "old world not accessible any more");
        }
    }
    laik_finalize(inst);
    PROP(finalized == 1 && log_cleaned == 1 && !pending, "finalized");
    REACHED("finalized");
}
