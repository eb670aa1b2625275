// Simulation of MPI for a parallel run where all processes execute the real
// library code as coroutines. The MPI functions are stand-ins with the
// semantics of the MPI standard (no buffering of blocking sends: rendezvous);
// the communication of the simulated processes is checked.
#ifndef VERIF_MPISIM_H
#define VERIF_MPISIM_H
#include "mk.h"
#include <mpi.h>

// element type in reductions
#ifndef SIM_CT
#define SIM_CT uint32_t
#define SIM_MT MPI_INT32_T
#define SIM_LT laik_Int32
#endif

static int cur;             // running process
static int progress;        // count of things happening

// process-specific part of static variables: provided by harness
static void sim_save(int t);
static void sim_restore(int t);
static MPI_Comm sim_comm(int t, MPI_Comm c);    // communicator expected, may be c if free

static struct {
    int co;                 // coroutine
    bool done;
    uint64_t sends, sendBytes, recvs, recvBytes, reds;
} sim[TASKS];

static void sched_yield_(void)
{
    sim_save(cur);
    sym_co_switch(0);
    sim_restore(cur);
}
static void run_all(void)
{
    while(1) {
        bool all = true;
        int before = progress;
        for(int t = 0; t < TASKS; t++) {
            if (sim[t].done) continue;
            cur = t;
            sym_co_switch(sim[t].co);
            all &= sim[t].done;
        }
        if (all) break;
        PROP(progress > before, "no deadlock");
    }
}

// ------------------------------------------------------------ MPI
// communicators: 0 is the one with all processes (used for unknown handles)
#define COMMS 4
typedef struct { int n; int world[TASKS]; int splits[TASKS]; int id, color, parent; } Comm;
static Comm comms[COMMS];
static int commn;
static Comm* simcomm(MPI_Comm c)
{
    if (!commn) {
        commn = 1;
        comms[0].n = TASKS;
        for(int i = 0; i < TASKS; i++) comms[0].world[i] = i;
    }
    for(int i = 1; i < commn; i++) if ((void*) c == (void*) &comms[i]) return &comms[i];
    return &comms[0];
}
static int commrank(Comm* c, int w)
{
    for(int i = 0; i < c->n; i++) if (c->world[i] == w) return i;
    PROP(0, "process is member of communicator used");
    return -1;
}
#define MSGS 64
typedef struct {
    int bytes;              // send: length, recv: maximum
    const void* type;
    char* buf;
    char* data;             // copy of message
    bool isRecv, nonblock, waited, poisoned;
    Comm* comm;
} Msg;
static Msg msg[2][TASKS][TASKS][MSGS];      // [isRecv][src][dst]
static int msgs[2][TASKS][TASKS];

static int dsize(MPI_Datatype t)
{
    if (t == MPI_DOUBLE || t == MPI_INT64_T || t == MPI_UINT64_T) return 8;
    if (t == MPI_FLOAT || t == MPI_INT32_T || t == MPI_UINT32_T || t == MPI_INTEGER) return 4;
    return 1;
}
static Msg* post(bool isRecv, int peer, void* buf, int count, MPI_Datatype type, int tag, MPI_Comm comm, bool nonblock)
{
    Comm* sc = simcomm(comm);
    (void) commrank(sc, cur);
    PROP(peer >= 0 && peer < sc->n, "rank of message within communicator");
    int src = isRecv ? sc->world[peer] : cur, dst = isRecv ? cur : sc->world[peer];
    PROP(src != dst, "no message to itself");
    PROP(count > 0, "messages have content");
    PROP(comm == sim_comm(cur, comm), "communicator of group");
    (void) tag;
    int n = msgs[isRecv][src][dst]++;
    PROP(n < MSGS, "limit of messages in harness");
    Msg* m = &msg[isRecv][src][dst][n];
    m->bytes = count * dsize(type);
    m->type = type;
    m->buf = (char*) buf;
    m->nonblock = nonblock;
    m->isRecv = isRecv;
    m->data = 0;
    m->comm = sc;
    if (!isRecv) {
        m->data = malloc(m->bytes);
        memcpy(m->data, buf, m->bytes);
        sim[cur].sends++;
        sim[cur].sendBytes += m->bytes;
    }
    else {
        sim[cur].recvs++;
    }
    // both sides there: message may arrive any time from now on until the
    // receive is completed; the buffer has no defined content in between
    if (msgs[!isRecv][src][dst] > n) {
        Msg* s = &msg[0][src][dst][n];
        Msg* r = &msg[1][src][dst][n];
        PROP(s->comm == r->comm, "same communicator in sender and receiver");
        PROP(s->type == r->type, "same element type in sender and receiver");
        PROP(s->bytes <= r->bytes, "received message fits into buffer");
        for(int i = 0; i < s->bytes && r->nonblock; i++) r->buf[i] = (char) (0xa5 + i);
        r->poisoned = r->nonblock;
    }
    progress++;
    return m;
}
static bool matched(Msg* m, int src, int dst, int n) { (void) m; return msgs[!m->isRecv][src][dst] > n; }
static Msg* complete(Msg* m)
{
    // find position
    int src = -1, dst = -1, n = -1;
    for(int s = 0; s < TASKS; s++) for(int d = 0; d < TASKS; d++) {
        Msg* b = msg[m->isRecv][s][d];
        if (m >= b && m < b + MSGS) { src = s; dst = d; n = (int) (m - b); }
    }
    while(!matched(m, src, dst, n)) sched_yield_();
    Msg* o = &msg[!m->isRecv][src][dst][n];
    if (m->isRecv) {
        for(int i = 0; i < o->bytes && m->poisoned; i++)
            PROP(m->buf[i] == (char) (0xa5 + i), "receive buffer not touched before completion");
        // message may be transferred as late as now
        if (!o->waited)
            PROP(memcmp(o->buf, o->data, o->bytes) == 0, "send buffer not changed before message is received");
        memcpy(m->buf, o->data, o->bytes);
        m->bytes = o->bytes;
        sim[cur].recvBytes += o->bytes;
    }
    m->waited = true;
    progress++;
    return o;
}
int MPI_Send(const void* buf, int count, MPI_Datatype type, int dst, int tag, MPI_Comm comm)
{
    complete(post(false, dst, (void*) buf, count, type, tag, comm, false));
    return MPI_SUCCESS;
}
int MPI_Recv(void* buf, int count, MPI_Datatype type, int src, int tag, MPI_Comm comm, MPI_Status* st)
{
    Msg* m = post(true, src, buf, count, type, tag, comm, false);
    complete(m);
    st->_ucount = m->bytes;
    return MPI_SUCCESS;
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype type, int* count)
{
    *count = (int) (st->_ucount / dsize(type));
    return MPI_SUCCESS;
}
int MPI_Isend(const void* buf, int count, MPI_Datatype type, int dst, int tag, MPI_Comm comm, MPI_Request* r)
{
    *r = (MPI_Request) post(false, dst, (void*) buf, count, type, tag, comm, true);
    return MPI_SUCCESS;
}
int MPI_Irecv(void* buf, int count, MPI_Datatype type, int src, int tag, MPI_Comm comm, MPI_Request* r)
{
    *r = (MPI_Request) post(true, src, buf, count, type, tag, comm, true);
    return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request* r, MPI_Status* st)
{
    Msg* m = (Msg*) *r;
    PROP(m != 0, "wait for valid request");
    PROP(!m->waited, "wait only once");
    complete(m);
    st->_ucount = m->bytes;
    *r = 0;
    return MPI_SUCCESS;
}
// collectives: n-th call of a process in a communicator belongs to n-th call of the others
typedef struct { int count, root, arrived; MPI_Datatype type; MPI_Op op; const char* in[TASKS]; char* result; } Coll;
#define COLLS 16
static Coll coll[COMMS][COLLS];
static int colls[COMMS][TASKS];
static int reduce(const void* from, void* to, int count, MPI_Datatype type, MPI_Op op, int root, MPI_Comm comm)
{
    PROP(comm == sim_comm(cur, comm), "communicator of group");
    PROP(count > 0, "reductions have content");
    Comm* sc = simcomm(comm);
    int id = sc->id;
    int rank = commrank(sc, cur);
    PROP(root < sc->n, "rank of root within communicator");
    PROP(colls[id][rank] < COLLS, "limit of reductions in harness");
    Coll* c = &coll[id][colls[id][rank]++];
    bool first = (c->arrived == 0);
    if (first) { c->count = count; c->root = root; c->type = type; c->op = op; }
    PROP(c->count == count && c->root == root && c->type == type && c->op == op, "all processes do the same collective operation");
    int bytes = count * dsize(type);
    sim[cur].reds++;
    char* in = malloc(bytes);
    memcpy(in, (from == MPI_IN_PLACE) ? to : from, bytes);
    if (from != MPI_IN_PLACE && (root < 0 || root == rank))
        PROP((const char*) from + bytes <= (char*) to || (char*) to + bytes <= (const char*) from, "no aliasing of reduction buffers");
    c->in[rank] = in;
    c->arrived++;
    progress++;
    while(c->arrived < sc->n) sched_yield_();
    if (!c->result) {
        PROP(type == SIM_MT, "element type of container");
        SIM_CT* res = malloc(bytes);
        for(int i = 0; i < count; i++) {
            SIM_CT v = ((SIM_CT*) c->in[0])[i];
            for(int t = 1; t < sc->n; t++) {
                SIM_CT w = ((SIM_CT*) c->in[t])[i];
                if (op == MPI_SUM) v = v + w;
                else if (op == MPI_PROD) v = v * w;
                else if (op == MPI_MIN) v = (v < w) ? v : w;
                else if (op == MPI_MAX) v = (v > w) ? v : w;
#ifndef SIM_FP
                else if (op == MPI_BAND) v = v & w;
                else if (op == MPI_BOR) v = v | w;
#endif
                else PROP(0, "operation requested");
            }
            res[i] = v;
        }
        c->result = (char*) res;
    }
    if (root < 0 || root == rank) memcpy(to, c->result, bytes);
    progress++;
    return MPI_SUCCESS;
}
// split of communicators
#define SPLITS 4
typedef struct { int arrived, color[TASKS], key[TASKS]; } Split;
static Split split[COMMS][SPLITS];
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm* newcomm)
{
    Comm* sc = simcomm(comm);
    int rank = commrank(sc, cur);
    int n = sc->splits[rank]++;
    PROP(n < SPLITS, "limit of splits in harness");
    Split* s = &split[sc->id][n];
    s->color[rank] = color;
    s->key[rank] = key;
    s->arrived++;
    progress++;
    while(s->arrived < sc->n) sched_yield_();
    progress++;
    if (color == MPI_UNDEFINED) { *newcomm = MPI_COMM_NULL; return MPI_SUCCESS; }
    // already created by other process?
    for(int i = 1; i < commn; i++)
        if (comms[i].parent == sc->id * SPLITS + n && comms[i].color == color) { *newcomm = (MPI_Comm) &comms[i]; return MPI_SUCCESS; }
    PROP(commn < COMMS, "limit of communicators in harness");
    Comm* c = &comms[commn];
    c->id = commn++;
    c->parent = sc->id * SPLITS + n;
    c->color = color;
    int keys[TASKS];
    for(int i = 0; i < sc->n; i++) {
        if (s->color[i] != color) continue;
        int p = c->n++;
        while(p > 0 && keys[p-1] > s->key[i]) { keys[p] = keys[p-1]; c->world[p] = c->world[p-1]; p--; }
        keys[p] = s->key[i];
        c->world[p] = sc->world[i];
    }
    *newcomm = (MPI_Comm) c;
    return MPI_SUCCESS;
}
int MPI_Allreduce(const void* from, void* to, int count, MPI_Datatype type, MPI_Op op, MPI_Comm comm)
{
    return reduce(from, to, count, type, op, -1, comm);
}
int MPI_Reduce(const void* from, void* to, int count, MPI_Datatype type, MPI_Op op, int root, MPI_Comm comm)
{
    return reduce(from, to, count, type, op, root, comm);
}
static void no_left(void)
{
    bool ok = true;
    for(int s = 0; s < TASKS; s++) for(int d = 0; d < TASKS; d++) {
        ok &= (msgs[0][s][d] == msgs[1][s][d]);
        for(int k = 0; k < 2; k++) for(int n = 0; n < msgs[k][s][d]; n++) ok &= msg[k][s][d][n].waited;
    }
    PROP(ok, "all messages received, all requests completed");
    for(int i = 0; i < COMMS; i++)
        for(int t = 0; t < comms[i].n; t++) PROP(colls[i][t] == colls[i][0], "same number of collective operations");
}
#endif
