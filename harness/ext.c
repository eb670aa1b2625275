// External agents: loading, failures, iterations, cleanup; program control
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <dlfcn.h>
#include "h.h"
#define dlopen my_dlopen
#define dlsym my_dlsym
#define dlclose my_dlclose
#define dlerror my_dlerror
void* my_dlopen(const char* path, int flags);
void* my_dlsym(void* h, const char* name);
int my_dlclose(void* h);
char* my_dlerror(void);
#include "external.c"

#ifndef AGENTS
#define AGENTS 3
#endif
#ifndef FAILS
#define FAILS 3         // failures at most per agent
#endif
static struct lib { int opened, closed; } lib[MAX_AGENTS];
static Laik_Ft_Agent ag[MAX_AGENTS];
static int kind[MAX_AGENTS];        // 0: loaded from file, 1: from function
static int nfail[MAX_AGENTS], iters[MAX_AGENTS], lastiter[MAX_AGENTS], consumed[MAX_AGENTS];
static int cur;
static char* path[MAX_AGENTS];
static char** args[MAX_AGENTS];
static int argcnt[MAX_AGENTS];

void* my_dlopen(const char* p, int flags)
{
    (void) flags;
    PROP(p == path[cur], "library of agent opened");
    lib[cur].opened++;
    return &lib[cur];
}
static Laik_Agent* init(int argc, char** argv)
{
    PROP(argc == argcnt[cur] && argv == args[cur], "arguments passed to agent");
    return &ag[cur].base;
}
void* my_dlsym(void* h, const char* name)
{
    PROP(h == &lib[cur], "library of agent");
    PROP(strcmp(name, "agent_init") == 0, "entry point of agent");
    return (void*) init;
}
int my_dlclose(void* h)
{
    struct lib* l = (struct lib*) h;
    PROP(l >= lib && l < lib + MAX_AGENTS, "library");
    l->closed++;
    return 0;
}
char* my_dlerror(void) { return (char*) "error"; }

static void give(int i, int* n, node_uid_t* u);
#define AG(i) \
static int peek##i(void) { return nfail[i] - consumed[i]; } \
static void get##i(int* n, node_uid_t* u) { give(i, n, u); } \
static void iter##i(const int k) { iters[i]++; lastiter[i] = k; }
static void give(int i, int* n, node_uid_t* u)
{
    int c = nfail[i] - consumed[i];
    for(int k = 0; k < c; k++) { u[k].uid[0] = (char) ('a' + i); u[k].uid[1] = (char) ('0' + k); u[k].uid[2] = 0; }
    *n = c;
    consumed[i] = nfail[i];
}
AG(0) AG(1) AG(2) AG(3) AG(4) AG(5) AG(6) AG(7) AG(8) AG(9)
static laik_agent_peek_failed peeks[] = { peek0, peek1, peek2, peek3, peek4, peek5, peek6, peek7, peek8, peek9 };
static laik_agent_get_failed getters[] = { get0, get1, get2, get3, get4, get5, get6, get7, get8, get9 };
static laik_agent_set_iter sets[] = { iter0, iter1, iter2, iter3, iter4, iter5, iter6, iter7, iter8, iter9 };

static Laik_Instance inst;
static void load(int n)
{
    for(cur = 0; cur < n; cur++) {
        kind[cur] = (int) CONC(nd_int(0, 1));
        ag[cur].base.id = cur;
        ag[cur].base.type = CONC(nd_bool()) ? LAIK_AGENT_FT : LAIK_AGENT_PROFILING;
        ag[cur].peekfail = peeks[cur];
        ag[cur].getfail = getters[cur];
        ag[cur].setiter = CONC(nd_bool()) ? sets[cur] : 0;
        path[cur] = (char*) malloc(1);
        path[cur][0] = 0;
        argcnt[cur] = nd_int(0, 3);
        args[cur] = (char**) malloc(sizeof(char*) * 3);
        if (kind[cur] == 0) laik_ext_load_agent_from_file(&inst, path[cur], argcnt[cur], args[cur]);
        else laik_ext_load_agent_from_function(&inst, init, argcnt[cur], args[cur]);
    }
}
static void cleanup(int n)
{
    laik_ext_cleanup(&inst);
    PROP(inst.repart_ctrl == 0, "no agents after cleanup");
    for(int i = 0; i < MAX_AGENTS; i++) {
        PROP(lib[i].opened == (i < n && kind[i] == 0 ? 1 : 0), "library of each agent opened once");
        PROP(lib[i].closed == lib[i].opened, "library of each agent closed once");
    }
}
void h_agents(void)
{
    int n = (int) CONC(nd_int(1, AGENTS));
    inst.control = laik_program_control_init();
    load(n);
    int k = nd_int(-3, 1000);
    laik_set_iteration(&inst, k);
    PROP(laik_get_iteration(&inst) == k, "iteration set");
    for(int i = 0; i < n; i++) {
        bool e = ag[i].base.type == LAIK_AGENT_FT && ag[i].setiter;
        PROP(iters[i] == (e ? 1 : 0) && (!e || lastiter[i] == k), "fault tolerance agents know iteration");
    }
    // failures, reported twice
    for(int r = 0; r < 2; r++) {
        int max = (int) CONC(nd_int(0, AGENTS * FAILS)), sum = 0;
        for(int i = 0; i < n; i++) {
            int f = r == 0 ? (int) CONC(nd_int(0, FAILS)) : 0;
            nfail[i] += f;
            if (ag[i].base.type == LAIK_AGENT_FT) sum += nfail[i] - consumed[i];
        }
        node_uid_t* u = (node_uid_t*) malloc(sizeof(node_uid_t) * (max ? max : 1));
        int got = nd_int(-1, 5), pos = 0;
        int c0[MAX_AGENTS];
        for(int i = 0; i < n; i++) c0[i] = consumed[i];
        laik_get_failed(&inst, &got, u, max);
        PROP(got >= 0 && got <= max, "number of failures within buffer");
        if (max >= sum) PROP(got == sum, "all failures of all agents reported");
        for(int i = 0; i < n; i++) {
            if (ag[i].base.type != LAIK_AGENT_FT) PROP(consumed[i] == 0, "other agents not asked");
            if (consumed[i] == c0[i]) continue;
            for(int j = 0; j < nfail[i] - c0[i]; j++, pos++)
                PROP(pos < got && u[pos].uid[0] == 'a' + i && u[pos].uid[1] == '0' + j && u[pos].uid[2] == 0, "failed node in list");
        }
        PROP(pos == got, "each failure reported once");
        if (got > 1) REACHED("failures");
        free(u);
    }
    cleanup(n);
    REACHED("agents");
}
// up to the maximal number of agents
void h_limit(void)
{
    int n = (int) CONC(nd_int(1, MAX_AGENTS)), f = (int) CONC(nd_int(0, MAX_AGENTS));
    for(cur = 0; cur < n; cur++) {
        kind[cur] = cur < f ? 0 : 1;
        ag[cur].base.id = cur;
        ag[cur].base.type = LAIK_AGENT_FT;
        ag[cur].peekfail = peeks[cur];
        ag[cur].getfail = getters[cur];
        path[cur] = (char*) malloc(1);
        if (kind[cur] == 0) laik_ext_load_agent_from_file(&inst, path[cur], 0, 0);
        else laik_ext_load_agent_from_function(&inst, init, 0, 0);
    }
    for(int i = 0; i < n; i++) nfail[i] = i & 1;
    node_uid_t* u = (node_uid_t*) malloc(sizeof(node_uid_t) * MAX_AGENTS);
    int got = -1;
    laik_get_failed(&inst, &got, u, MAX_AGENTS);
    PROP(got == n / 2, "failures of all agents reported");
    cleanup(n);
    if (n == MAX_AGENTS) REACHED("maximal number of agents");
}
// program control: values set are returned
void h_control(void)
{
    static const char* names[] = { "a", "b" };
    int d0, d1;
    inst.control = laik_program_control_init();
    PROP(laik_get_iteration(&inst) == 0, "first iteration");
    int steps = (int) CONC(nd_int(1, 3));
    int it = 0, ph = 0;
    const char* nm = 0;
    void* pd = 0;
    for(int s = 0; s < steps; s++) {
        int op = (int) CONC(nd_int(0, 3));
        if (op == 0) { it = nd_int(-1000, 1000); laik_set_iteration(&inst, it); }
        else if (op == 1) { ph = nd_int(-1000, 1000); nm = names[CONC(nd_bool())]; pd = CONC(nd_bool()) ? &d0 : &d1; laik_set_phase(&inst, ph, nm, pd); }
        else if (op == 2) { laik_iter_reset(&inst); it = 0; }
        else { char** av = (char**) malloc(8); laik_set_args(&inst, 1, av); PROP(inst.control->argc == 1 && inst.control->argv == av, "arguments stored"); }
        int p; const char* n; void* d;
        laik_get_phase(&inst, &p, &n, &d);
        PROP(p == ph && n == nm && d == pd, "phase");
        PROP(laik_get_iteration(&inst) == it, "iteration");
    }
    REACHED("control");
}
