// element types: reductions and neutral elements
#include "mk.h"
#include <float.h>
#ifndef CT
#define CT int32_t
#define LT laik_Int32
#endif
#ifndef FP
#define FP 0
#endif
#define N 2
// any value of the type
static CT any(void)
{
#ifdef SMALL
    return (CT) CONC(nd_in(-6, 6)) / 4;
#endif
#ifdef SYMEX
    int64_t v = sym_nd(INT64_MIN, INT64_MAX);
#else
    int64_t v = nd();
#endif
    CT r;
    memcpy(&r, &v, sizeof(CT));
#if FP
    ASSUME(r == r);      // no NaN
    if (sizeof(CT) == 8) ASSUME((r >= (CT) -DBL_MAX) && (r <= (CT) DBL_MAX));
    else ASSUME((r >= (CT) -FLT_MAX) && (r <= (CT) FLT_MAX));
#endif
    return r;
}
static bool same(CT a, CT b) { return (a == b) || ((a != a) && (b != b)); }
#if FP
static const Laik_ReductionOperation ops[4] = { LAIK_RO_Sum, LAIK_RO_Prod, LAIK_RO_Min, LAIK_RO_Max };
#define NOPS 4
#else
static const Laik_ReductionOperation ops[6] = { LAIK_RO_Sum, LAIK_RO_Prod, LAIK_RO_Min, LAIK_RO_Max, LAIK_RO_And, LAIK_RO_Or };
#define NOPS 6
#endif
#ifndef OP
#define OP 0
#endif
static CT spec(CT a, CT b)
{
    switch(ops[OP]) {
    case LAIK_RO_Sum:  return (CT) (a + b);
    case LAIK_RO_Prod: return (CT) (a * b);
    case LAIK_RO_Min:  return a < b ? a : b;
    case LAIK_RO_Max:  return a > b ? a : b;
#if !FP
    case LAIK_RO_And:  return (CT) (a & b);
    case LAIK_RO_Or:   return (CT) (a | b);
#endif
    default: return 0;
    }
}
void h_type(void)
{
    laik_type_init();
    Laik_Type* t = LT;
    PROP(t->size == sizeof(CT), "element size");
    CT a[N], b[N], c[N + 1], n[N + 1];
    for(int i = 0; i < N; i++) { a[i] = any(); b[i] = any(); }
    c[N] = n[N] = 5;
    Laik_ReductionOperation o = ops[OP];
    CT a0[N], b0[N];
    for(int i = 0; i < N; i++) { a0[i] = a[i]; b0[i] = b[i]; }
    (t->reduce)(c, a, b, N, o);
    for(int i = 0; i < N; i++) {
        PROP(same(c[i], spec(a0[i], b0[i])), "reduction of each element");
        PROP(same(a[i], a0[i]) && same(b[i], b0[i]), "inputs unchanged");
    }
    PROP(c[N] == 5, "nothing else written");
    // one or no input
    (t->reduce)(c, a, 0, N, o);
    for(int i = 0; i < N; i++) PROP(same(c[i], a0[i]), "only first input");
    (t->reduce)(c, 0, b, N, o);
    for(int i = 0; i < N; i++) PROP(same(c[i], b0[i]), "only second input");
    (t->init)(n, N, o);
    (t->reduce)(c, 0, 0, N, o);
    for(int i = 0; i < N; i++) PROP(same(c[i], n[i]), "no input: neutral element");
    PROP(c[N] == 5 && n[N] == 5, "nothing else written");
    // neutral element
    (t->reduce)(c, n, a, N, o);
    for(int i = 0; i < N; i++) PROP(same(c[i], a0[i]), "neutral element keeps values");
    // output may be one of the inputs
    (t->reduce)(a, a, b, N, o);
    for(int i = 0; i < N; i++) PROP(same(a[i], spec(a0[i], b0[i])), "in-place reduction");
    REACHED("end");
}
