// Common harness interface.
//  - under CBMC (-DCBMC): inputs are solver variables, PROP() is an assertion
//  - under symex (-DSYMEX): nd()/sym_nd() create solver variables, the verif_*
//    functions are implemented by the engine
//  - native replay: inputs are read from the file named by $VERIF_VALUES (one
//    decimal number per line), PROP() terminates with exit code 42
#ifndef VERIF_H
#define VERIF_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>

#ifdef CBMC
int64_t nondet_i64(void);
extern int64_t verif_nd;          // every input value passes through here (trace)
extern int verif_off;
int64_t nd(void);
#define ASSUME(c)   __CPROVER_assume(c)
#define PROP(c,m)   __CPROVER_assert((c), "PROP " m)
// reachability witness: must come back violated, else the harness is vacuous
#define REACHED(m)  __CPROVER_assert(verif_off, "WITNESS " m)
#define STOP()      __CPROVER_assume(0)
#else
int64_t nd(void);
void verif_assume(bool c, const char* s);
void verif_prop(bool c, const char* s);
void verif_reached(const char* s);
void verif_stop(void);
#define ASSUME(c)   verif_assume((c), #c)
#define PROP(c,m)   verif_prop((c), m)
#define REACHED(m)  verif_reached(m)
#define STOP()      verif_stop()
#endif

// input in [lo,hi]. The input is masked to the number of bits needed, so that
// the upper bits are constants for the solver (cheap arithmetic); all values
// in [lo,hi] stay possible
#define ND_MASK(w) ((w) <= 1 ? 1 : (w) <= 3 ? 3 : (w) <= 7 ? 7 : (w) <= 15 ? 15 : \
    (w) <= 31 ? 31 : (w) <= 63 ? 63 : (w) <= 127 ? 127 : (w) <= 255 ? 255 : \
    (w) <= 1023 ? 1023 : (w) <= 65535 ? 65535 : (w) <= 0xfffffffULL ? 0xfffffff : -1LL)
#ifdef SYMEX
int64_t sym_nd(int64_t lo, int64_t hi);
int64_t sym_concretize(int64_t v);
static inline int64_t nd_in(int64_t lo, int64_t hi) { return sym_nd(lo, hi); }
#define CONC(v) sym_concretize(v)   // split into one path per value
#else
#define CONC(v) (v)
static inline int64_t nd_in(int64_t lo, int64_t hi)
{
    if (lo == hi) return lo;
    if (lo > hi) { ASSUME(false); }
    uint64_t w = (uint64_t) hi - (uint64_t) lo;
    int64_t v = (int64_t) ((uint64_t) lo + (uint64_t) (nd() & ND_MASK(w)));
    ASSUME((v >= lo) && (v <= hi));
    return v;
}
#endif
static inline int nd_int(int lo, int hi) { return (int) nd_in(lo, hi); }
static inline bool nd_bool(void) { return nd_in(0,1) != 0; }
static inline unsigned char nd_byte(void) { return (unsigned char) nd_in(0,255); }

// coroutines (processes of a simulated parallel run): 0 is the harness itself;
// a coroutine whose function returns continues with 0
#ifndef CBMC
int sym_co_new(void (*fn)(int), int arg);
void sym_co_switch(int id);
#endif

// set by a harness if the code under test is allowed to end with a panic
// message from here on (documented rejection of bad input); default: a panic
// is a violation
extern int verif_panic_ok;
#endif
