// Runtime for harnesses: inputs, and stand-ins for logging (formatting of log
// messages is not the subject) and libc parts without a body in CBMC.
#include "h.h"
#include <laik-internal.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>

int verif_panic_ok = 0;

#ifdef CBMC
int64_t verif_nd;
int verif_off = 0;
int64_t nd(void)
{
    int64_t v = nondet_i64();
    verif_nd = v;
    return v;
}
#elif !defined(SYMEX)
static FILE* vf = 0;
int64_t nd(void)
{
    if (!vf) {
        const char* n = getenv("VERIF_VALUES");
        vf = n ? fopen(n, "r") : 0;
        if (!vf) { fprintf(stderr, "REPLAY: no values\n"); _Exit(78); }
    }
    long long v = 0;
    if (fscanf(vf, "%lld", &v) != 1) {
        // inputs not constrained by the counterexample
        v = 0;
    }
    return (int64_t) v;
}
void verif_assume(bool c, const char* s)
{
    if (c) return;
    fprintf(stderr, "REPLAY: assumption does not hold: %s\n", s);
    _Exit(77);
}
void verif_prop(bool c, const char* s)
{
    if (c) return;
    fprintf(stderr, "REPLAY: PROP violated: %s\n", s);
    _Exit(42);
}
void verif_reached(const char* s)
{
    fprintf(stderr, "REPLAY: reached: %s\n", s);
}
void verif_stop(void)
{
    fprintf(stderr, "REPLAY: stopped\n");
    _Exit(0);
}
#endif

#if !defined(CBMC) && !defined(SYMEX)
#include <ucontext.h>
#include <sys/mman.h>
#define CO_MAX 32
#define CO_STACK (16 << 20)
static ucontext_t co_ctx[CO_MAX];
static void (*co_fn[CO_MAX])(int);
static int co_arg[CO_MAX], co_cnt = 1, co_cur = 0;
static void co_start(int id)
{
    co_fn[id](co_arg[id]);
    co_cur = 0;     // back via uc_link
}
int sym_co_new(void (*fn)(int), int arg)
{
    int id = co_cnt++;
    if (id >= CO_MAX) abort();
    co_fn[id] = fn;
    co_arg[id] = arg;
    getcontext(&co_ctx[id]);
    co_ctx[id].uc_stack.ss_sp = mmap(0, CO_STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    co_ctx[id].uc_stack.ss_size = CO_STACK;
    co_ctx[id].uc_link = &co_ctx[0];
    makecontext(&co_ctx[id], (void (*)(void)) co_start, 1, id);
    return id;
}
void sym_co_switch(int id)
{
    int old = co_cur;
    if (old == id) return;
    co_cur = id;
    swapcontext(&co_ctx[old], &co_ctx[id]);
}
#endif

#ifdef STUB_LOG
// --- logging stand-ins: nothing is shown; a panic ends the program
bool laik_log_begin(int l) { (void) l; return false; }
void laik_log_append(const char* m, ...) { (void) m; }
void laik_log_flush(const char* m, ...) { (void) m; }
bool laik_log_shown(int l) { (void) l; return false; }
void laik_log_inc(void) {}
static void panicked(const char* m)
{
    (void) m;
#if !defined(CBMC) && !defined(SYMEX)
    if (!verif_panic_ok) fprintf(stderr, "REPLAY: panic: %s\n", m);
#endif
    PROP(verif_panic_ok, "no panic on valid input");
    STOP();
}
void laik_log(int l, const char* m, ...)
{
    if (l == LAIK_LL_Panic) panicked(m);
}
void laik_panic(const char* m) { panicked(m); }
#endif


// Element types of the arrays used in the sources under test (by size), given
// by -DTYPES=<file with T(type) lines>: lets the solver see arrays of structs
// instead of arrays of bytes. Any other size is handled as bytes.
#ifdef CBMC
#undef malloc
// typed allocation: one object per possible (small) size
void* verif_malloc(size_t n)
{
#ifdef SPLIT_INT
    for(size_t k = 1; k <= SPLIT_INT; k++)
        if (n == k * sizeof(int)) return malloc(sizeof(int) * k);
#endif
#ifdef TYPES
#ifndef SPLIT
#define SPLIT 4
#endif
#define T(t) for(size_t k = 1; k <= SPLIT; k++) \
        if (n == k * sizeof(t)) return malloc(sizeof(t) * k);
#include TYPES
#undef T
#endif
    return malloc(n);
}
#endif

#if defined(CBMC) && defined(STUB_REALLOC)
// realloc: new object, content copied, old object freed
void* realloc(void* p, size_t n)
{
    size_t old = p ? __CPROVER_OBJECT_SIZE(p) : 0;
#ifdef TYPES
#define T(t) if ((n % sizeof(t) == 0) && (old % sizeof(t) == 0)) { \
        size_t cnt = n / sizeof(t), ocnt = old / sizeof(t); \
        t* q = (t*) malloc(sizeof(t) * cnt); \
        for(size_t i = 0; (i < ocnt) && (i < cnt); i++) q[i] = ((t*) p)[i]; \
        if (p) free(p); \
        return q; }
#include TYPES
#undef T
#endif
    char* q = (char*) malloc(n);
    for(size_t i = 0; (i < old) && (i < n); i++) q[i] = ((char*) p)[i];
    if (p) free(p);
    return q;
}
#endif

#if defined(STUB_QSORT) && !defined(SYMEX)
#ifndef VERIF_SORT_MAX
#define VERIF_SORT_MAX 256
#endif
// stable bubble sort with compare/exchange at fixed positions, calling the
// comparison function of the real code
void qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*))
{
#ifdef TYPES
#define T(t) if (sz == sizeof(t)) { \
        t* b = (t*) base; \
        for(size_t i = 0; i + 1 < n; i++) \
            for(size_t j = n - 1; j > i; j--) { \
                t x = b[j-1], y = b[j]; \
                if (cmp(&x, &y) > 0) { b[j-1] = y; b[j] = x; } \
            } \
        return; }
#include TYPES
#undef T
#endif
    char* b = (char*) base;
    char tmp[VERIF_SORT_MAX];
    PROP(sz <= sizeof(tmp), "element size within stand-in limit");
    for(size_t i = 0; i + 1 < n; i++)
        for(size_t j = n - 1; j > i; j--) {
            if (cmp(b + (j-1)*sz, b + j*sz) <= 0) continue;
            memcpy(tmp, b + (j-1)*sz, sz);
            memcpy(b + (j-1)*sz, b + j*sz, sz);
            memcpy(b + j*sz, tmp, sz);
        }
}
#endif
