// Simulation of TCP for a parallel run where all processes execute the real
// library code as coroutines. Socket functions are stand-ins: connections are
// byte streams without limit; order of processes, order of events, borders of
// reads and writes are inputs (the first ones, then fixed).
// To be included before backend-tcp2.c
#ifndef VERIF_TCPSIM_H
#define VERIF_TCPSIM_H
#include "mk.h"
#include <assert.h>
#include <errno.h>
#include <netinet/in.h>
#include <signal.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <netdb.h>
#include <regex.h>

#ifndef NSCHED
#define NSCHED 0        // free choices: process to run next
#endif
#ifndef NEVENT
#define NEVENT 0        // free choices: order of events with more than one
#endif
#ifndef NREAD
#define NREAD 0         // free choices: size of reads
#endif
#ifndef NWRITE
#define NWRITE 0        // free choices: size of writes
#endif
#ifndef PROCS
#define PROCS TASKS
#endif
#ifndef QLEN
#define QLEN 4096
#endif
#ifndef SKIP
#define SKIP 0          // at most so many events/reads/writes before the first free choice
#endif
#define CONNS 16
#define FDS 24
#define FD0 3

#undef htons
#undef ntohs
#undef htonl
#undef ntohl
#define htons(v) ((uint16_t) (((v) & 255) << 8 | (((v) >> 8) & 255)))
#define ntohs(v) htons(v)
#define htonl(v) __builtin_bswap32(v)
#define ntohl(v) __builtin_bswap32(v)

static int cur, progress;
static int schedLeft = NSCHED, eventLeft = NEVENT, readLeft = NREAD, writeLeft = NWRITE;
static void sim_save(int t);
static void sim_restore(int t);
static int skip[3];
static void sim_skip(void)
{
    if (SKIP == 0) return;
    if (NEVENT) skip[0] = (int) CONC(nd_int(0, SKIP));
    if (NREAD) skip[1] = (int) CONC(nd_int(0, SKIP));
    if (NWRITE) skip[2] = (int) CONC(nd_int(0, SKIP));
}
static bool free_choice(int what, int* left)
{
    if (*left == 0) return false;
    if (skip[what] > 0) { skip[what]--; return false; }
    (*left)--;
    return true;
}
static struct { int co; bool done, blocked; } sim[PROCS];

typedef struct { char* b; int head, tail; bool closed; } Queue;
typedef struct { Queue q[2]; bool accepted; int port; } Conn;   // q[s]: data to side s
static Conn conn[CONNS];
static int conns;
typedef struct { int kind; int conn, side, port; } Fd;      // kind 0: free, 1: socket, 2: listening, 3: connected
static Fd fdt[PROCS][FDS];
static struct { int port, proc, fd; } lst[PROCS];
static int lsts, nextport = 30000;

static void sched_yield_(void)
{
    sim_save(cur);
    sym_co_switch(0);
    sim_restore(cur);
}
static void run_one(int t)
{
    cur = t;
    sym_co_switch(sim[t].co);
}
static void run_all(void)
{
    while(1) {
        bool all = true;
        int before = progress;
        while(schedLeft > 0) {
            schedLeft--;
            int t = (int) CONC(nd_int(0, PROCS - 1));
            if (sim[t].done) break;
            run_one(t);
        }
        for(int t = 0; t < PROCS; t++) {
            if (sim[t].done) continue;
            run_one(t);
            all &= sim[t].done;
        }
        if (all) break;
        PROP(progress > before, "no deadlock");
    }
}
static Fd* getfd(int fd, int kind)
{
    PROP(fd >= FD0 && fd < FDS, "valid file descriptor");
    PROP(fdt[cur][fd].kind == kind, "kind of file descriptor");
    return &fdt[cur][fd];
}
static int newfd(int kind)
{
    for(int i = FD0; i < FDS; i++)
        if (fdt[cur][i].kind == 0) { fdt[cur][i].kind = kind; return i; }
    PROP(0, "limit of file descriptors in harness");
    return -1;
}
static Conn* newconn(int port)
{
    PROP(conns < CONNS, "limit of connections in harness");
    Conn* c = &conn[conns++];
    c->port = port;
    c->q[0].b = malloc(QLEN);
    c->q[1].b = malloc(QLEN);
    return c;
}
// already connected file descriptors in two processes
static void sim_pair(int a, int* fda, int b, int* fdb)
{
    int old = cur;
    Conn* c = newconn(0);
    c->accepted = true;
    cur = a; *fda = newfd(3); fdt[a][*fda].conn = (int) (c - conn); fdt[a][*fda].side = 0;
    cur = b; *fdb = newfd(3); fdt[b][*fdb].conn = (int) (c - conn); fdt[b][*fdb].side = 1;
    cur = old;
}
static int read_size(int n)
{
#ifdef RSIZES           // only near the ends
    int k = (int) CONC(nd_int(1, 2 * RSIZES));
    if (n > 2 * RSIZES) return k <= RSIZES ? k : n + RSIZES - k;
#endif
    return (int) CONC(nd_int(1, n));
}
static ssize_t sim_read(int fd, void* buf, size_t len)
{
    Fd* f = getfd(fd, 3);
    Queue* q = &conn[f->conn].q[f->side];
    int n = q->tail - q->head;
    if (n == 0) { PROP(q->closed, "no blocking read"); progress++; return 0; }
    if ((size_t) n > len) n = (int) len;
    PROP(n > 0, "buffer for data to read");
    if (n > 1 && free_choice(1, &readLeft)) n = read_size(n);
    memcpy(buf, q->b + q->head, n);
    q->head += n;
    progress++;
    return n;
}
static ssize_t sim_write(int fd, const void* buf, size_t len)
{
    Fd* f = getfd(fd, 3);
    Queue* q = &conn[f->conn].q[!f->side];
    int n = (int) len;
    if (n == 0) return 0;
    if (free_choice(2, &writeLeft)) n = (int) CONC(nd_int(n > 1 ? 1 : 0, n));
    if (q->tail == q->head) q->head = q->tail = 0;
    PROP(q->tail + n <= QLEN, "limit of data in flight in harness");
    memcpy(q->b + q->tail, buf, n);
    q->tail += n;
    progress++;
    return n;
}
static bool fd_ready(int fd)
{
    Fd* f = &fdt[cur][fd];
    if (f->kind == 2) {
        for(int i = 0; i < conns; i++) if (!conn[i].accepted && conn[i].port == f->port) return true;
        return false;
    }
    PROP(f->kind == 3, "waiting for valid file descriptors");
    Queue* q = &conn[f->conn].q[f->side];
    return q->tail > q->head || q->closed;
}
static int sim_select(int n, fd_set* r, struct timeval* tv)
{
    int list[FDS], cnt;
    bool late = false;
    while(1) {
        cnt = 0;
        for(int i = 0; i < n; i++) {
            if (!FD_ISSET(i, r)) continue;
            PROP(i >= FD0 && i < FDS, "valid file descriptor");
            if (fd_ready(i)) list[cnt++] = i;
        }
        if (cnt > 0 || (tv && late)) break;
        if (tv) {
            // data may arrive before or after
            late = true;
            if (free_choice(0, &eventLeft) && CONC(nd_bool())) break;
            progress++;
        }
        sched_yield_();
    }
    int only = cnt;
    if (cnt > 1 && free_choice(0, &eventLeft)) only = (int) CONC(nd_int(0, cnt));
    FD_ZERO(r);
    for(int i = 0; i < cnt; i++) if (only == cnt || only == i) FD_SET(list[i], r);
    return only == cnt ? cnt : 1;
}
static int sim_close(int fd)
{
    PROP(fd >= FD0 && fd < FDS && fdt[cur][fd].kind > 0, "closing valid file descriptor");
    Fd* f = &fdt[cur][fd];
    if (f->kind == 3) conn[f->conn].q[!f->side].closed = true;
    f->kind = 0;
    progress++;
    return 0;
}
static int sim_socket(void) { return newfd(1); }
static int sim_bind(int fd, const struct sockaddr* a)
{
    Fd* f = getfd(fd, 1);
    int port = ntohs(((const struct sockaddr_in*) a)->sin_port);
    if (port == 0) port = nextport++;
    for(int i = 0; i < lsts; i++) if (lst[i].port == port) return -1;
    f->port = port;
    return 0;
}
static int sim_listen(int fd)
{
    Fd* f = getfd(fd, 1);
    if (f->port == 0) f->port = nextport++;
    for(int i = 0; i < lsts; i++) if (lst[i].port == f->port) return -1;
    PROP(lsts < PROCS, "one listening socket per process");
    lst[lsts].port = f->port;
    lst[lsts].proc = cur;
    lst[lsts++].fd = fd;
    f->kind = 2;
    progress++;
    return 0;
}
static int sim_connect(int fd, const struct sockaddr* a)
{
    Fd* f = getfd(fd, 1);
    int port = ntohs(((const struct sockaddr_in*) a)->sin_port);
    bool found = false;
    for(int i = 0; i < lsts; i++) found |= (lst[i].port == port && lst[i].proc != cur);
    PROP(found, "connecting to a process listening");
    Conn* c = newconn(port);
    f->kind = 3;
    f->conn = (int) (c - conn);
    f->side = 0;
    progress++;
    return 0;
}
static int sim_accept(int fd, struct sockaddr* a)
{
    Fd* f = getfd(fd, 2);
    for(int i = 0; i < conns; i++) {
        if (conn[i].accepted || conn[i].port != f->port) continue;
        conn[i].accepted = true;
        int n = newfd(3);
        fdt[cur][n].conn = i;
        fdt[cur][n].side = 1;
        a->sa_family = AF_INET;
        progress++;
        return n;
    }
    PROP(0, "no blocking accept");
    return -1;
}
static int sim_getsockname(int fd, struct sockaddr* a)
{
    ((struct sockaddr_in*) a)->sin_port = htons((uint16_t) getfd(fd, 2)->port);
    return 0;
}
static struct sockaddr_in ai_sin[PROCS];
static struct addrinfo ai_res[PROCS];
static int sim_getaddrinfo(const char* port, struct addrinfo** res)
{
    memset(&ai_sin[cur], 0, sizeof(ai_sin[cur]));
    memset(&ai_res[cur], 0, sizeof(ai_res[cur]));
    ai_sin[cur].sin_family = AF_INET;
    ai_sin[cur].sin_port = htons((uint16_t) (port ? atoi(port) : 0));
    ai_res[cur].ai_family = AF_INET;
    ai_res[cur].ai_socktype = SOCK_STREAM;
    ai_res[cur].ai_addr = (struct sockaddr*) &ai_sin[cur];
    ai_res[cur].ai_addrlen = sizeof(ai_sin[cur]);
    *res = &ai_res[cur];
    return 0;
}
static char* sim_getenv(const char* name);
static int sim_regexec(const char* s);
static char re_pat[44];
static int sim_regcomp(const char* p) { strncpy(re_pat, p, 43); return 0; }

#define read(f, b, n) sim_read(f, b, n)
#define write(f, b, n) sim_write(f, b, n)
#define close(f) sim_close(f)
#define select(n, r, w, e, t) sim_select(n, r, t)
#define socket(a, b, c) sim_socket()
#define bind(f, a, n) sim_bind(f, a)
#define listen(f, n) sim_listen(f)
#define connect(f, a, n) sim_connect(f, a)
#define accept(f, a, n) sim_accept(f, a)
#define getsockname(f, a, n) sim_getsockname(f, a)
#define setsockopt(...) (0)
#define getaddrinfo(h, p, i, r) sim_getaddrinfo(p, r)
#define gai_strerror(r) ""
#define inet_ntop(...) ((void) 0)
#define gethostname(h, n) (strcpy(h, "host"), 0)
#define getpid() (cur + 100)
#define signal(a, b) ((void) 0)
#define getenv(n) sim_getenv(n)
#define regcomp(r, p, f) sim_regcomp(p)
#define regexec(r, s, a, b, c) sim_regexec(s)
#define regfree(r) ((void) 0)
#define exit(n) sim_exit(n)
static void sim_exit(int n) { (void) n; PROP(0, "process does not exit"); STOP(); }
#endif
