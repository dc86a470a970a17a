/* modules/cast: cast_<SNAME>_to_<type>_tx(v) for all v of type S and every target type */
#include "vp.h"
#include <float.h>
#include "picotm/picotm-cast.h"
#include "picotm/picotm-cast-ctypes.h"
#include "src/picotm-error.c"
#include "cast.c"
#define CAT_(a, b, c, d) a ## b ## c ## d
#define CAT(a, b, c, d) CAT_(a, b, c, d)
#define FN(d) CAT(cast_, SNAME, _to_, d ## _tx)
typedef __int128 W;
static bool due; /* the value is out of the target type's range */
void picotm_recover_from_error(const struct picotm_error* e)
{
    VP_ASSERT(due, "a representable value is not reported as an error");
    VP_ASSERT(e->status == PICOTM_ERRNO && e->value.errno_hint == ERANGE && !e->is_non_recoverable, "the error is ERANGE");
#ifdef VP_CBMC
    __CPROVER_assume(0);
#else
    printf("VP_DONE\n"); exit(0);
#endif
}
#define TO_INT(k, n, t, lo, hi) case k: { due = w < (W)(lo) || w > (W)(hi); t r = FN(n)(v); \
    VP_ASSERT(!due, "a value out of the target type's range is reported"); VP_ASSERT((W)r == w, "the value stays the same"); break; }
#define TO_FLOAT(k, n, t) case k: { due = false; t r = FN(n)(v); VP_ASSERT(r == (t)v, "the value is converted, rounded if necessary"); break; }
#define FP_TO(k, n, t, lo, hi) case k: { due = v < (lo) || v > (hi); t r = FN(n)(v); \
    VP_ASSERT(!due, "a value out of the target type's range is reported"); VP_ASSERT(r == (t)v, "the value is converted, rounded if necessary"); break; }
#ifdef FP
void h_cast(void)
{
    S v;
#ifdef VP_CBMC
    S nondet_vp_t(void);
    v = nondet_vp_t(); vp_input = 0;
    if (sizeof v <= 8) { uint64_t u = 0; memcpy(&u, &v, sizeof v <= 8 ? sizeof v : 8); vp_input = u; }
#else
    uint64_t u = vp_nd(); v = 0;
    if (sizeof v <= 8) memcpy(&v, &u, sizeof v);
#endif
    VP_ASSUME(v >= -LDBL_MAX && v <= LDBL_MAX && v - v == 0);
    switch (vp_below(3)) {
#ifndef S_float
    FP_TO(0, float, float, -FLT_MAX, FLT_MAX)
#endif
#ifndef S_double
    FP_TO(1, double, double, -DBL_MAX, DBL_MAX)
#endif
#ifndef S_ldouble
    FP_TO(2, ldouble, long double, -LDBL_MAX, LDBL_MAX)
#endif
    }
    VP_REACH("cast");
}
#else
void h_cast(void)
{
    S v = (S)vp_nd();
    W w = v;
    switch (vp_below(15)) {
#ifndef S__Bool
    TO_INT(0, _Bool, _Bool, 0, 1)
#endif
#ifndef S_char
    TO_INT(1, char, char, CHAR_MIN, CHAR_MAX)
#endif
#ifndef S_schar
    TO_INT(2, schar, signed char, SCHAR_MIN, SCHAR_MAX)
#endif
#ifndef S_uchar
    TO_INT(3, uchar, unsigned char, 0, UCHAR_MAX)
#endif
#ifndef S_short
    TO_INT(4, short, short, SHRT_MIN, SHRT_MAX)
#endif
#ifndef S_ushort
    TO_INT(5, ushort, unsigned short, 0, USHRT_MAX)
#endif
#ifndef S_int
    TO_INT(6, int, int, INT_MIN, INT_MAX)
#endif
#ifndef S_uint
    TO_INT(7, uint, unsigned int, 0, UINT_MAX)
#endif
#ifndef S_long
    TO_INT(8, long, long, LONG_MIN, LONG_MAX)
#endif
#ifndef S_ulong
    TO_INT(9, ulong, unsigned long, 0, ULONG_MAX)
#endif
#ifndef S_llong
    TO_INT(10, llong, long long, LLONG_MIN, LLONG_MAX)
#endif
#ifndef S_ullong
    TO_INT(11, ullong, unsigned long long, 0, ULLONG_MAX)
#endif
    TO_FLOAT(12, float, float)
    TO_FLOAT(13, double, double)
    TO_FLOAT(14, ldouble, long double)
    }
    VP_REACH("cast");
}
#endif
