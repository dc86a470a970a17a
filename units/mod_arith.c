/* modules/arithmetic: OP_<NAME>_tx(a, b) for all a and b of type T.
 * A call that reports an error does not return: picotm_recover_from_error() starts the recovery phase of the
 * transaction. Its stand-in checks that the error was due, and ends the path. */
#include "vp.h"
#include <float.h>
#include <math.h>
/* C's division: the quotient of the magnitudes with the sign; undefined for a divisor of zero and an unrepresentable quotient */
#define VP_DIV(name, R, T, U, MIN) static R name(T a, T b) { \
    VP_ASSERT(b != 0 && !(a == MIN && b == -1), "divisions are defined"); \
    U ua = a < 0 ? -(U)a : (U)a, ub = b < 0 ? -(U)b : (U)b, q = ua / ub; \
    R r; r.quot = (a < 0) != (b < 0) ? (T)-q : (T)q; r.rem = (a < 0) ? (T)-(ua % ub) : (T)(ua % ub); return r; }
VP_DIV(vp_div, div_t, int, unsigned, INT_MIN)
VP_DIV(vp_ldiv, ldiv_t, long, unsigned long, LONG_MIN)
VP_DIV(vp_lldiv, lldiv_t, long long, unsigned long long, LLONG_MIN)
#define div vp_div
#define ldiv vp_ldiv
#define lldiv vp_lldiv
#include "picotm/picotm-arithmetic.h"
#include "picotm/picotm-arithmetic-ctypes.h"
#include "src/picotm-error.c"
#include "arithmetic.c"
#define CAT_(a, b, c) a ## b ## c
#define CAT(a, b, c) CAT_(a, b, c)
#define FN(op) CAT(op ## _, NAME, _tx)

static int due; /* the error that the operation has to report, or 0 */
void picotm_recover_from_error(const struct picotm_error* e)
{
    VP_ASSERT(due, "a representable result is not reported as an error");
    VP_ASSERT(e->status == PICOTM_ERRNO && e->value.errno_hint == due && !e->is_non_recoverable, "the error is ERANGE, or EDOM for a division by zero");
#ifndef NOERR
    VP_REACH("error");
#endif
#ifdef VP_CBMC
    __CPROVER_assume(0);
#else
    printf("VP_DONE\n"); exit(0);
#endif
}
#ifndef IS_F
typedef __int128 W;
static T in(void)
{
    return (T)vp_nd();
}
static void check(W exact, T r)
{
    VP_ASSERT(!due, "a result that is not representable is reported");
    VP_ASSERT((W)r == exact, "the result is exact");
    VP_REACH("result");
}
#define RANGE(w) ((w) < (W)(TMIN) || (w) > (W)(TMAX) ? ERANGE : 0)
void h_add(void) { T a = in(), b = in(); W w = (W)a + (W)b; due = RANGE(w); check(w, FN(add)(a, b)); }
void h_sub(void) { T a = in(), b = in(); W w = (W)a - (W)b; due = RANGE(w); check(w, FN(sub)(a, b)); }
void h_div(void)
{
    T a = in(), b = in();
    if (!b) { due = EDOM; FN(div)(a, b); VP_ASSERT(0, "a division by zero is reported"); return; }
#ifdef MINUS1
    VP_ASSUME(b == (T)-1); /* the only divisor with results out of range */
    W w = -(W)a;
#else
    VP_ASSUME(!((T)-1 < 0) || b != (T)-1);
    D_T ua = a < 0 ? -(D_T)a : (D_T)a, ub = b < 0 ? -(D_T)b : (D_T)b, q = ua / ub;
    W w = (a < 0) != (b < 0) ? -(W)q : (W)q;
#endif
    due = RANGE(w); check(w, FN(div)(a, b));
}
#ifdef DIVLEMMA
/* Products are specified by magnitude: |a| * |b| > limit if and only if |a| > limit / |b| (lemma A01.lemma_mul, over the
 * mathematical integers), and a product within the range is the product modulo 2^n. */
void h_mul(void)
{
    T a = in(), b = in();
    U_T ua = a < 0 ? -(U_T)a : (U_T)a, ub = b < 0 ? -(U_T)b : (U_T)b;
    bool over = ub && ((a < 0) != (b < 0) && TMIN != 0 ? ua > (U_T)-(U_T)(TMIN) / ub : ua > (U_T)(TMAX) / ub);
    due = over ? ERANGE : 0;
    T r = FN(mul)(a, b);
    VP_ASSERT(!due, "a result that is not representable is reported");
    VP_ASSERT(r == (T)((U_T)a * (U_T)b), "the result is exact");
    VP_REACH("result");
}
#else
void h_mul(void)
{
    T a = in(), b = in();
    int64_t w = (int64_t)a * (int64_t)b; /* products of T fit */
    due = w < (int64_t)(TMIN) || w > (int64_t)(TMAX) ? ERANGE : 0;
    check(w, FN(mul)(a, b));
}
#endif
#else /* floating point: finite operands */
static T in(void)
{
    T v;
#if defined VP_CBMC
    T nondet_vp_t(void);
    v = nondet_vp_t();
    vp_input = 0;
    if (sizeof v <= 8) { uint64_t u = 0; memcpy(&u, &v, sizeof v <= 8 ? sizeof v : 8); vp_input = u; }
#else
    v = 0;
    uint64_t u = vp_nd();
    if (sizeof v <= 8) memcpy(&v, &u, sizeof v);
#endif
    VP_ASSUME(v >= TMIN && v <= TMAX);
    return v;
}
static void check(T exact, T r)
{
    VP_ASSERT(!due, "a result that is not representable is reported");
    VP_ASSERT(r == exact, "the result is the correctly rounded one");
    VP_REACH("result");
}
#define RANGE(w) ((w) >= TMIN && (w) <= TMAX ? 0 : ERANGE)
#ifdef FEW /* too wide for the solver: sample operands */
static const T few[] = { 1, 0, 0.5L, -0.5L, -1, 2, -2, 3, 1e-30L, -1e30L, 1e30L, TMAX, TMIN, TMAX / 2, TMAX / 3, -TMAX / 4 };
#endif
static void add(T a, T b) { T w = a + b; due = RANGE(w); check(w, FN(add)(a, b)); }
static void sub(T a, T b) { T w = a - b; due = RANGE(w); check(w, FN(sub)(a, b)); }
static void mul(T a, T b) { T w = a * b; due = RANGE(w); check(w, FN(mul)(a, b)); }
static void quo(T a, T b)
{
    if (b == 0) { due = EDOM; FN(div)(a, b); VP_ASSERT(0, "a division by zero is reported"); return; }
    T w = a / b; due = RANGE(w); check(w, FN(div)(a, b));
}
#ifdef FEW
#define ALL(f) uint64_t sel = vp_nd(); for (unsigned k = 0; k < 256; ++k) if (sel == k) f(few[k / 16], few[k % 16]);
#else
#define ALL(f) f(in(), in());
#endif
void h_add(void) { ALL(add) }
void h_sub(void) { ALL(sub) }
void h_mul(void) { ALL(mul) }
void h_div(void) { ALL(quo) }
#endif
