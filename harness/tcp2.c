// Parallel run with the TCP2 backend: all processes execute the real library
// code (coroutines), TCP is simulated (see tcpsim.h)
#include "tcpsim.h"
#include "backend-tcp2.c"
#ifndef S
#define S 2
#endif
#ifndef ITER
#define ITER 1
#endif
#ifndef RED             // 0: no reductions, 1: any owners
#define RED 0
#endif
#ifndef BIN             // binary data accepted: 0: no process, 1: all, 2: any
#define BIN 1
#endif
#ifndef ET
#define ET uint32_t
#define LT laik_Int32
#endif
#ifndef MERGE
#define MERGE false
#endif
#ifndef LEAD
#define LEAD 1
#endif
#ifndef SYNC
#define SYNC 0
#endif
#ifndef DATA
#define DATA 0
#endif
#ifndef FINISH
#define FINISH 1
#endif
#ifndef OPMAX
#define OPMAX 4
#endif
#ifndef CONNECTED
#define CONNECTED true
#endif
#define CELLS (DIMS == 1 ? S : DIMS == 2 ? S * S : S * S * S)

void laik_log_ActionSeqIfChanged(bool c, Laik_ActionSeq* as, char* m) { (void) c; (void) as; (void) m; }
char* laik_at_str(Laik_ActionType t) { (void) t; return "?"; }
void laik_log_init_loc(char* l) { (void) l; }

typedef struct {
    Laik_Instance* save_inst;
    char sb[512];
    int sb_used, sb_to;
    Laik_Instance inst;
    Laik_Group* g;
    InstData* id;
    Laik_Space sp;
    Laik_Data* d;
    Laik_Profiling_Controller prof;
    Laik_Partitioning *p0, *p1;
    Laik_KVStore* kvs;
} Proc;
static Proc P[PROCS];
static Laik_Type* typ;
static void sim_save(int t)
{
    P[t].save_inst = instance;
    P[t].sb_used = sbuf_used;
    P[t].sb_to = sbuf_toLID;
    for(int i = 3; i < 512 && i < sbuf_used; i++) P[t].sb[i] = sbuf[i];
}
static void sim_restore(int t)
{
    instance = P[t].save_inst;
    sbuf_used = P[t].sb_used;
    sbuf_toLID = P[t].sb_to;
    for(int i = 3; i < 512 && i < sbuf_used; i++) sbuf[i] = P[t].sb[i];
}
static char* sim_getenv(const char* n)
{
    static char* num[] = { "0", "1", "2", "3", "4", "5" };
    if (strcmp(n, "LAIK_SIZE") == 0) return num[TASKS];
    return 0;
}
static int sim_regexec(const char* s) { return strstr(s, re_pat) ? 0 : 1; }

// processes after startup, not yet connected to each other (apart from master)
static bool bin[PROCS];
static void mk_ready(bool connected)
{
    for(int t = 0; t < TASKS; t++) {
        Proc* p = &P[t];
        cur = t;
        InstData* d = new_inst_data("host", "loc");
        p->id = d;
        d->accept_bin_data = bin[t];
        d->listenfd = sim_socket();
        fdt[t][d->listenfd].port = 20000 + t;
        sim_listen(d->listenfd);
        d->listenport = 20000 + t;
        add_rfd(d, d->listenfd, got_connect);
        d->mylid = t;
        d->mystate = PS_Ready;
        d->maxid = TASKS - 1;
        d->phase = 0;
        d->epoch = 0;
        d->peers = TASKS - 1;
        d->readyPeers = (t == 0) ? TASKS - 1 : 0;
        for(int i = 0; i < TASKS; i++) {
            d->peer[i].state = PS_Ready;
            d->peer[i].port = 20000 + i;
            d->peer[i].host = strdup("host");
            d->peer[i].location = strdup("L:loc");
            d->peer[i].location[0] = '0' + i;
            d->peer[i].accepts_bin_data = bin[i];
        }
        p->inst.locations = TASKS;
        p->inst.mylocationid = t;
        p->inst.mylocation = "loc";
        p->inst.backend = &laik_backend;
        p->inst.profiling = &p->prof;
        p->inst.backend_data = d;
        p->g = mk_group(TASKS, t);
        p->g->inst = &p->inst;
        p->inst.world = p->g;
        p->inst.group[0] = p->g;
        p->inst.group_count = 1;
        mk_space_s(&p->sp, DIMS, S);
        p->sp.inst = &p->inst;
        p->sb_used = 3;
        p->sb_to = -1;
    }
    if (!connected) return;
    for(int a = 0; a < TASKS; a++) for(int b = a + 1; b < TASKS; b++) {
        int fa, fb;
        sim_pair(a, &fa, b, &fb);
        P[a].id->peer[b].fd = fa;
        add_rfd(P[a].id, fa, got_bytes);
        P[a].id->fds[fa].lid = b;
        P[b].id->peer[a].fd = fb;
        add_rfd(P[b].id, fb, got_bytes);
        P[b].id->fds[fb].lid = a;
    }
}

// ------------------------------------------------------------ switches
#ifndef NTAG
#define NTAG 1          // mappings per process
#endif
#ifndef BIG
static int own0[CELLS], own1[CELLS];
static ET val[ITER][TASKS][CELLS];
static Laik_ReductionOperation redop;
static void cellpos(int c, int64_t* x)
{
    for(int k = 0; k < 3; k++) { x[k] = (k < DIMS) ? B0 + c % S : 0; c /= S; }
}
static Laik_Partitioning* build(Proc* p, int* own)
{
    Laik_RangeList* l = laik_rangelist_new(&p->sp, p->g->size);
    for(int c = 0; c < CELLS; c++) {
        Laik_Range r;
        memset(&r, 0, sizeof(r));
        r.space = &p->sp;
        cellpos(c, r.from.i);
        for(int k = 0; k < DIMS; k++) r.to.i[k] = r.from.i[k] + 1;
        for(int t = 0; t < p->g->size; t++)
            if ((own[c] >> t) & 1) laik_rangelist_append(l, t, &r, 1 + c % NTAG, 0);
    }
    laik_rangelist_freeze(l, MERGE);
    Laik_Partitioning* q = calloc(1, sizeof(Laik_Partitioning));
    RangeList_Entry* e = calloc(1, sizeof(RangeList_Entry));
    q->name = "part";
    q->group = p->g;
    q->space = &p->sp;
    e->ranges = l;
    e->info = LAIK_RI_FULL;
    q->rangeList = e;
    return q;
}
static ET* at(Proc* p, Laik_Partitioning* q, int c)
{
    Laik_RangeList* l = laik_partitioning_myranges(q);
    int me = q->group->myid;
    Laik_Index x;
    cellpos(c, x.i);
    for(unsigned o = l->off[me]; o < l->off[me+1]; o++)
        if (mk_in(&l->trange[o].range, DIMS, x.i))
            return (ET*) laik_get_map_addr(p->d, l->trange[o].mapNo, &x);
    PROP(0, "own index found");
    return 0;
}
static void process(int t)
{
    Proc* p = &P[t];
    instance = &p->inst;
    sbuf_used = 3;
    sbuf_toLID = -1;
    p->p0 = build(p, own0);
    p->p1 = build(p, own1);
    p->d = laik_new_data(&p->sp, typ);
    for(int it = 0; it < ITER; it++) {
        laik_switchto_partitioning(p->d, p->p0, LAIK_DF_None, LAIK_RO_None);
        for(int c = 0; c < CELLS; c++)
            if ((own0[c] >> t) & 1) *at(p, p->p0, c) = val[it][t][c];
        laik_switchto_partitioning(p->d, p->p1, LAIK_DF_Preserve, redop);
        for(int c = 0; c < CELLS; c++) {
            if (!((own1[c] >> t) & 1)) continue;
            ET v = 0;
            for(int o = 0; o < TASKS; o++)
                if ((own0[c] >> o) & 1) v = (redop == LAIK_RO_Sum) ? v + val[it][o][c] : v | val[it][o][c];
            PROP(*at(p, p->p1, c) == v, "value of index preserved or reduced over all owners");
        }
    }
    sim[t].done = true;
    progress++;
}
static bool no_left(void)
{
    bool ok = true;
    for(int i = 0; i < conns; i++) {
        ok &= conn[i].accepted;
        // greeting on accept is not read before next communication
        for(int s = 0; s < 2; s++) ok &= (conn[i].q[s].head == conn[i].q[s].tail) || (s == 0 && conn[i].q[s].b[conn[i].q[s].head] == '#');
    }
    return ok;
}
static void setup(void)
{
    laik_allocator_def = laik_new_allocator_def();
    laik_type_init();
    typ = LT;
    for(int t = 0; t < PROCS; t++) bin[t] = (BIN == 2) ? (bool) CONC(nd_bool()) : (bool) BIN;
}
#endif
// ------------------------------------------------------------ many or large elements
#ifndef ES
#define ES 8            // size of elements
#endif
static unsigned char pat(int c, int k) { return (unsigned char) (c * 31 + k * 7 + (c >> 8)); }
static unsigned char symb[4];
static unsigned char want(int c, int k) { return (k == ES - 1 && c < 4) ? symb[c] : pat(c, k); }
static void big(int t)
{
    Proc* p = &P[t];
    instance = &p->inst;
    sbuf_used = 3;
    sbuf_toLID = -1;
    Laik_Partitioning* q[2];
    for(int k = 0; k < 2; k++) {
        Laik_RangeList* l = laik_rangelist_new(&p->sp, TASKS);
        laik_rangelist_append(l, k, &p->sp.range, 1, 0);
        laik_rangelist_freeze(l, false);
        q[k] = calloc(1, sizeof(Laik_Partitioning));
        RangeList_Entry* e = calloc(1, sizeof(RangeList_Entry));
        q[k]->name = "part";
        q[k]->group = p->g;
        q[k]->space = &p->sp;
        e->ranges = l;
        e->info = LAIK_RI_FULL;
        q[k]->rangeList = e;
    }
    p->d = laik_new_data(&p->sp, typ);
    laik_switchto_partitioning(p->d, q[0], LAIK_DF_None, LAIK_RO_None);
    if (t == 0) {
        uint64_t n;
        unsigned char* b;
        laik_get_map_1d(p->d, 0, (void**) &b, &n);
        PROP(n == S, "size of mapping");
        for(int c = 0; c < S; c++) for(int k = 0; k < ES; k++) b[c * ES + k] = want(c, k);
    }
    laik_switchto_partitioning(p->d, q[1], LAIK_DF_Preserve, LAIK_RO_None);
    if (t == 1) {
        uint64_t n;
        unsigned char* b;
        laik_get_map_1d(p->d, 0, (void**) &b, &n);
        PROP(n == S, "size of mapping");
        bool ok = true;
        for(int c = 0; c < S; c++) for(int k = 0; k < ES; k++) ok &= b[c * ES + k] == want(c, k);
        PROP(ok, "all elements received as sent");
    }
    sim[t].done = true;
    progress++;
}
void h_big(void)
{
    setup();
    typ = laik_type_register("large", ES);
    for(int c = 0; c < 4; c++) symb[c] = nd_byte();
    sim_skip();
    mk_ready(CONNECTED);
    for(int t = 0; t < TASKS; t++) sim[t].co = sym_co_new(big, t);
    run_all();
    PROP(no_left(), "all data sent is received");
    REACHED("end");
}

// ------------------------------------------------------------ received stream
// sequence of commands and data sent to process 0 by process 1, received in
// pieces: same effects for all pieces
#ifndef ITEMS
#define ITEMS 3
#endif
#ifndef CLOSE
#define CLOSE 0
#endif
#ifndef CUTS
#define CUTS 2
#endif
static char strm[256];
static int strl;
static void add(const char* s) { while(*s) strm[strl++] = *s++; }
void h_stream(void)
{
    setup();
    mk_ready(true);
    Proc* p = &P[0];
    cur = 0;
    instance = &p->inst;
    InstData* d = p->id;
    int fd = d->peer[1].fd;
    // receiving S elements (or idle), in given mapping
    int expect = (int) CONC(nd_bool()) ? S : 0;
    for(int c = 0; c < S; c++) own0[c] = 1;
    p->p0 = build(p, own0);
    p->d = laik_new_data(&p->sp, typ);
    laik_switchto_partitioning(p->d, p->p0, LAIK_DF_None, LAIK_RO_None);
    ET old[S], now[S];
    for(int c = 0; c < S; c++) old[c] = now[c] = *at(p, p->p0, c) = (ET) (uint64_t) nd_in(INT64_MIN, INT64_MAX);
    Peer* pe = &d->peer[1];
    redop = CONC(nd_bool()) ? LAIK_RO_Sum : LAIK_RO_None;
    if (expect) {
        pe->rcount = expect;
        pe->roff = 0;
        pe->relemsize = sizeof(ET);
        pe->rmap = &p->d->activeMappings->map[0];
        pe->rcv_range = &p->sp.range;
        pe->rcv_idx = p->sp.range.from;
        pe->rro = redop;
    }
    // the stream
    bool allowed = false;
    int got = 0;
    for(int i = 0; i < ITEMS; i++) {
        int what = (int) CONC(nd_int(0, 4));
        if (what == 0) { add("allowsend 12 4\n"); allowed = true; }
        if (what == 1) {
            // comment with any content, line end as sent by telnet
            add("#");
            char c = (char) nd_byte();
            ASSUME(c != '\n' && c != 4);
            strm[strl++] = c;
            add("B\r\n");
        }
        if (what == 2) add("\n");
        if (what >= 3) {
            // binary: up to 2 elements, text: 1 element
            int n = (what == 4) ? 1 : 2;
            if (expect && n > expect - got) n = expect - got;
            if (n == 0) continue;
            if (what == 3) {
                add("B");
                strm[strl++] = (char) (n * sizeof(ET));
                strm[strl++] = 0;
            }
            else {
                ASSUME(expect);
                char t[40];
                sprintf(t, "data %d (%d:%d)", (int) sizeof(ET), got, B0 + got);
                add(t);
            }
            for(int e = 0; e < n; e++) {
                ET v = (ET) (uint64_t) (what == 3 ? nd_in(INT64_MIN, INT64_MAX) : nd_in(0, 255));
                for(unsigned k = 0; k < sizeof(ET); k++) {
                    unsigned char c = (unsigned char) (v >> (8 * k));
                    if (what == 3) strm[strl++] = (char) c;
                    else { char t[8]; sprintf(t, " %02x", c); add(t); }
                }
                if (expect) { now[got] = (redop == LAIK_RO_Sum) ? now[got] + v : v; got++; }
            }
            if (what == 4) add("\n");
        }
    }
    // end of connection: closed by other process (maybe without line end), or on request
    int end = CLOSE ? (int) CONC(nd_int(1, 7)) : 0;
    if (end == 1 || end == 5) add("quit\n");
    if (end == 2 || end == 6) { add("#"); strm[strl++] = 4; }
    if (end == 3) add("quit");
    if (end == 4) add("# last");
    if (end == 5 || end == 6) add("allow");
    // received in pieces
    Queue* q = &conn[fdt[0][fd].conn].q[fdt[0][fd].side];
    int cut = 0;
    bool single = CONC(nd_bool());
    d->exit = 0;
    for(int i = 0; i < strl; i++) q->b[i] = strm[i];
    for(int i = 0; i <= CUTS || (single && cut < strl); i++) {
        int to = strl;
        if (single) to = cut + 1;
        else if (i < CUTS) to = (int) CONC(nd_int(cut, strl));
        if (to > strl) to = strl;
        q->tail = cut = to;
        check_loop(d);
        if (end && fdt[0][fd].kind == 0) break;
    }
    if (end == 3 || end == 4 || end == 7) { q->closed = true; check_loop(d); }
    if (end) {
        PROP(fdt[0][fd].kind == 0 && d->fds[fd].cb == 0 && !FD_ISSET(fd, &d->rset), "connection closed");
        PROP(pe->fd == -1, "peer not connected");
        check_loop(d);
    }
    else PROP(q->head == q->tail && d->fds[fd].rbuf_used == 0 && d->fds[fd].outstanding_bin == 0, "all received is processed");
    PROP(pe->scount == (allowed ? 12 : 0) && (!allowed || pe->selemsize == 4), "right to send");
    if (expect) PROP(pe->roff == got, "number of elements received");
    PROP((d->exit != 0) == (allowed || (expect && got == expect)), "event loop ended if something to wait for happened");
    for(int c = 0; c < S; c++) PROP(*at(p, p->p0, c) == now[c], "data received");
    if (!end) PROP(pe->fd == fd && fdt[0][fd].kind == 3, "connection open");
    REACHED("end");
}

void h_switch(void)
{
    setup();
    redop = RED ? CONC(nd_bool()) ? LAIK_RO_Sum : LAIK_RO_Or : LAIK_RO_None;
    for(int c = 0; c < CELLS; c++) {
        own0[c] = (int) CONC(RED ? nd_int(1, (1 << TASKS) - 1) : nd_int(0, TASKS - 1));
        if (!RED) own0[c] = 1 << own0[c];   // exactly one owner
        own1[c] = (int) CONC(nd_int(0, (1 << TASKS) - 1));
        for(int t = 0; t < TASKS; t++) for(int i = 0; i < ITER; i++)
            if ((own0[c] >> t) & 1) val[i][t][c] = (ET) (uint64_t) nd_in(INT64_MIN, INT64_MAX);
    }
    sim_skip();
    mk_ready(CONNECTED);
    for(int t = 0; t < TASKS; t++) sim[t].co = sym_co_new(process, t);
    run_all();
    PROP(no_left(), "all data sent is received");
    REACHED("end");
}

// ------------------------------------------------------------ key-value store
#ifndef NK
#define NK 2
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif
#ifndef KPAD
#define KPAD 0          // additional characters in keys
#endif
#ifndef VPAD
#define VPAD 0          // additional characters in values
#endif
#ifndef VBIN
#define VBIN 0          // values: any bytes instead of texts
#endif
static int klen[ROUNDS][NK];
static char kname[NK][KPAD + 4];
static char kval[ROUNDS][NK][VPAD + 4];
static int kop[ROUNDS][NK], kwho[ROUNDS][NK];   // operation: 0 nothing, 1 set, 2 remove, 3 set twice, 4 set and remove
static void kvs(int t)
{
    Proc* p = &P[t];
    instance = &p->inst;
    sbuf_used = 3;
    sbuf_toLID = -1;
    p->kvs = laik_kvs_new("store", &p->inst);
    Laik_KVStore* other = laik_kvs_new("other", &p->inst);
    int cur[NK];
    for(int k = 0; k < NK; k++) cur[k] = -1;
    for(int r = 0; r < ROUNDS; r++) {
        for(int k = 0; k < NK; k++) {
            int op = kop[r][k];
            if (kwho[r][k] == t) {
                if (op == 3) laik_kvs_sets(p->kvs, kname[k], "tmp");
                if (op == 1 || op == 3 || op == 4) {
                    if (VBIN) laik_kvs_set(p->kvs, kname[k], klen[r][k], kval[r][k]);
                    else laik_kvs_sets(p->kvs, kname[k], kval[r][k]);
                }
                if (op == 2 || op == 4) laik_kvs_remove(p->kvs, kname[k]);
            }
            if (op == 1 || op == 3) cur[k] = r;
            if (op == 2 || op == 4) cur[k] = -1;
        }
        if (r == 0 && t == 0) laik_kvs_sets(other, "x", "other store");
        laik_kvs_sync(p->kvs);
        if (r == 0) laik_kvs_sync(other);
        for(int k = 0; k < NK; k++) {
            unsigned n;
            char* v = laik_kvs_get(p->kvs, kname[k], &n);
            if (cur[k] < 0) { PROP(v == 0, "removed or never set key has no value in any process"); continue; }
            PROP(v != 0, "value set is known in all processes");
            char* w = kval[cur[k]][k];
            PROP((int) n == klen[cur[k]][k] && memcmp(v, w, n) == 0, "value set is the same in all processes");
        }
        unsigned n;
        char* v = laik_kvs_get(other, "x", &n);
        PROP(v != 0 && n == 12 && strcmp(v, "other store") == 0, "content of other store");
    }
    sim[t].done = true;
    progress++;
}
void h_kvs(void)
{
    setup();
    for(int k = 0; k < NK; k++) {
        for(int i = 0; i < KPAD; i++) kname[k][i] = 'a' + i % 26;
        kname[k][KPAD] = "kak"[k];
        kname[k][KPAD + 1] = k == 2 ? '2' : 0;
        for(int r = 0; r < ROUNDS; r++) {
            kop[r][k] = (int) CONC(nd_int(0, OPMAX));
            kwho[r][k] = kop[r][k] ? (int) CONC(nd_int(0, TASKS - 1)) : 0;
            int n = (int) CONC(nd_int(VPAD ? 2 : 1, 2));
            char* v = kval[r][k];
            for(int i = 0; i < VPAD; i++) v[i] = 'A' + i % 26;
            for(int i = 0; i < n; i++) {
                char c = (char) nd_in(LEAD || i > 0 || VPAD ? 32 : 33, 126);
                v[VPAD + i] = c;
            }
            v[VPAD + n] = 0;
            klen[r][k] = VPAD + n + 1;
            if (VBIN) {
                klen[r][k] = n;
                for(int i = 0; i < n; i++) v[i] = (char) nd_in(0, 255);
                continue;
            }
            ASSUME(strcmp(v, "tmp") != 0);
        }
    }
    sim_skip();
    mk_ready(CONNECTED);
    for(int t = 0; t < TASKS; t++) sim[t].co = sym_co_new(kvs, t);
    run_all();
    PROP(no_left(), "all data sent is received");
    REACHED("end");
}

// ------------------------------------------------------------ startup, processes joining and leaving
#ifndef ROUNDS_M
#define ROUNDS_M 2
#endif
#ifndef REMOVE
#define REMOVE 1
#endif
typedef struct { int size, myid, epoch, phase, locs; int lid[PROCS]; bool in; } View;
static View view[ROUNDS_M + 1][PROCS];      // [0]: start
static int joined[PROCS];                   // round of first view
static int remWhen, remLid;
static int lastRound;
static bool member[PROCS];
void laik_log_init(Laik_Instance* i) { (void) i; }
void laik_log_append_info(void) {}
static void record(Laik_Instance* inst, int t, int r)
{
    Laik_Group* w = inst->world;
    View* v = &view[r][t];
    v->in = true;
    v->size = w->size;
    v->myid = w->myid;
    v->epoch = inst->epoch;
    v->phase = inst->phase;
    v->locs = inst->locations;
    PROP(w->size >= 1 && w->size <= PROCS && w->myid < w->size, "valid group");
    for(int i = 0; i < w->size; i++) {
        v->lid[i] = w->locationid[i];
        PROP(v->lid[i] >= 0 && v->lid[i] < inst->locations, "valid location ids");
        if (i > 0) PROP(v->lid[i] > v->lid[i-1], "location ids unique, ordered");
    }
    if (w->myid >= 0) PROP(w->locationid[w->myid] == inst->mylocationid, "own location id");
    else for(int i = 0; i < w->size; i++) PROP(w->locationid[i] != inst->mylocationid, "removed process not in group");
}
static void check_parent(Laik_Group* w, int t)
{
    Laik_Group* p = w->parent;
    int both = 0;
    for(int i = 0; i < w->size; i++) {
        int j = w->toParent[i];
        PROP(j >= -1 && j < p->size, "parent of process");
        if (j >= 0) { both++; PROP(p->locationid[j] == w->locationid[i] && w->fromParent[j] == i, "relation of process in group and parent"); }
    }
    for(int j = 0; j < p->size; j++) {
        int i = w->fromParent[j];
        PROP(i >= -1 && i < w->size, "child of process");
        if (i >= 0) { both--; PROP(w->toParent[i] == j, "relation of process in parent and group"); }
    }
    PROP(both == 0, "same processes in both directions");
    if (p->myid >= 0) PROP(w->myid == w->fromParent[p->myid], "own id in group and parent");
}
static void sync_all(Laik_Instance* inst, int t)
{
    laik_sync_location(inst);
    Laik_Group* w = inst->world;
    for(int i = 0; i < w->size; i++) {
        char* l = laik_group_location(w, i);
        PROP(l != 0, "location of all processes known");
        int o = -1;
        for(int q = 0; q < PROCS; q++) if (P[q].save_inst && q != t && P[q].save_inst->mylocationid == w->locationid[i]) o = q;
        char* x = (w->myid == i) ? inst->mylocation : o >= 0 ? P[o].save_inst->mylocation : 0;
        PROP(x && strcmp(l, x) == 0, "location of other processes");
    }
}
// all processes of the world exchange values
static ET xval[PROCS];
static void exchange(Laik_Instance* inst, int t)
{
    Proc* p = &P[t];
    Laik_Group* w = inst->world;
    mk_space_s(&p->sp, 1, S);
    p->sp.inst = inst;
    p->g = w;
    int o0[S], o1[S];
    for(int c = 0; c < S; c++) { o0[c] = 1 << (c % w->size); o1[c] = (1 << w->size) - 1; }
    Laik_Partitioning* p0 = build(p, o0);
    Laik_Partitioning* p1 = build(p, o1);
    p->d = laik_new_data(&p->sp, typ);
    laik_switchto_partitioning(p->d, p0, LAIK_DF_None, LAIK_RO_None);
    for(int c = 0; c < S; c++) if (c % w->size == w->myid) *at(p, p0, c) = xval[inst->mylocationid];
    laik_switchto_partitioning(p->d, p1, LAIK_DF_Preserve, LAIK_RO_None);
    for(int c = 0; c < S; c++) PROP(*at(p, p1, c) == xval[w->locationid[c % w->size]], "values exchanged in world");
}
static void after(Laik_Instance* inst, int t)
{
    if (inst->world->myid < 0) return;
    if (SYNC) sync_all(inst, t);
    if (DATA) exchange(inst, t);
}
static void life(int t)
{
    int argc = 1;
    char* argv0[] = { "prog", 0 };
    char** argv = argv0;
    instance = 0;
    sbuf_used = 3;
    sbuf_toLID = -1;
    if (t >= TASKS) {
        // join later: started when there is a master
        while(!P[0].save_inst) { progress++; sched_yield_(); }
    }
    Laik_Instance* inst = laik_init_tcp2(&argc, &argv);
    P[t].save_inst = inst;
    int r = inst->phase;
    joined[t] = r;
    record(inst, t, r);
    PROP((inst->world->parent != 0) == (t >= TASKS), "parent group if joining");
    if (t >= TASKS) check_parent(inst->world, t);
    member[t] = true;
    after(inst, t);
    if (t >= TASKS && FINISH) {
        laik_finish_world_resize(inst);
        after(inst, t);
    }
    while(r < ROUNDS_M && inst->world->myid >= 0) {
        if (inst->mylocationid == 0 && remWhen == r && remLid > 0) {
            Conn* c = newconn(7777);
            char txt[20];
            sprintf(txt, "cutoff L%d:\n", remLid);
            for(int i = 0; txt[i]; i++) c->q[1].b[c->q[1].tail++] = txt[i];
            if (CONC(nd_bool())) c->q[1].closed = true;
        }
        r++;
        // requests to join received before resize
        int asked = 0, known = inst->locations;
        if (inst->mylocationid == 0) for(int i = 0; i < FDS; i++) {
            FDState* f = &(((InstData*) inst->backend_data)->fds[i]);
            if (f->cmd && f->lid < 0 && (f->state == PS_RegReceived || f->state == PS_RegReceived2)) asked++;
        }
        Laik_Group* g = laik_allow_world_resize(inst, r);
        PROP(g == inst->world, "current world returned");
        if (inst->mylocationid == 0) {
            int in = 0;
            for(int i = 0; i < g->size; i++) in += g->locationid[i] >= known;
            PROP(in >= asked, "requests to join get accepted");
            if (asked) REACHED("asked");
        }
        if (inst->mylocationid == 0) lastRound = r;
        record(inst, t, r);
        if (g->parent) check_parent(g, t);
        if (g->myid < 0) member[t] = false;
        after(inst, t);
        if (FINISH) { laik_finish_world_resize(inst); after(inst, t); }
    }
    // removed processes end
    if (inst->world->myid < 0 && CONC(nd_bool()))
        for(int i = FD0; i < FDS; i++) if (fdt[t][i].kind == 3) sim_close(i);
    sim[t].done = true;
    progress++;
}
void h_member(void)
{
    setup();
    for(int t = 0; t < PROCS; t++) { sim[t].co = sym_co_new(life, t); P[t].sb_used = 3; P[t].sb_to = -1; }
    remWhen = REMOVE ? (int) CONC(nd_int(-1, ROUNDS_M - 1)) : -1;
    remLid = remWhen >= 0 ? (int) CONC(nd_int(1, PROCS - 1)) : 0;
    for(int t = 0; t < PROCS; t++) xval[t] = (ET) (uint64_t) nd_in(INT64_MIN, INT64_MAX);
    sim_skip();
    // joining processes may stay without permission
    while(1) {
        bool all = true;
        int before = progress;
        while(schedLeft > 0) {
            schedLeft--;
            int t = (int) CONC(nd_int(0, PROCS - 1));
            if (sim[t].done) break;
            run_one(t);
        }
        for(int t = 0; t < PROCS; t++) {
            if (sim[t].done) continue;
            run_one(t);
            all &= sim[t].done || (t >= TASKS && !member[t]);
        }
        if (all) break;
        PROP(progress > before, "no deadlock");
    }
    // all processes: same view
    for(int r = 0; r <= ROUNDS_M; r++) {
        View* m = 0;
        int members = 0;
        for(int t = 0; t < PROCS; t++) if (view[r][t].in && view[r][t].myid >= 0) { members++; m = &view[r][t]; }
        PROP(m != 0 && members == m->size, "all members of world in this phase");
        for(int t = 0; t < PROCS; t++) {
            View* v = &view[r][t];
            if (!v->in) continue;
            PROP(v->size == m->size && v->epoch == m->epoch && v->phase == r && v->locs == m->locs, "size of world, epoch, phase, locations same in all processes");
            for(int i = 0; i < m->size; i++) PROP(v->lid[i] == m->lid[i], "same location ids in all processes");
        }
        // changes
        if (r == 0) { PROP(m->size == TASKS && m->epoch == 0, "start with number of processes requested"); continue; }
        View* o = 0;
        for(int t = 0; t < PROCS; t++) if (view[r-1][t].in && view[r-1][t].myid >= 0) o = &view[r-1][t];
        bool same = (o->size == m->size);
        for(int i = 0; same && i < m->size; i++) same &= o->lid[i] == m->lid[i];
        PROP(m->epoch == o->epoch + !same, "epoch changes with world");
        for(int i = 0; i < o->size; i++) {
            bool there = false;
            for(int k = 0; k < m->size; k++) there |= m->lid[k] == o->lid[i];
            bool removed = (remWhen >= 0 && remWhen < r && o->lid[i] == remLid && remWhen == r - 1);
            if (removed) PROP(!there, "process requested to be removed is not in world any more");
            else PROP(there, "process not requested to be removed stays in world");
        }
        for(int k = 0; k < m->size; k++) {
            bool there = false;
            for(int i = 0; i < o->size; i++) there |= m->lid[k] == o->lid[i];
            PROP(there || m->lid[k] >= TASKS, "only new processes added");
        }
    }
    for(int t = TASKS; t < PROCS; t++) if (member[t]) { REACHED("joined"); break; }
    REACHED("end");
}
