/* Lemmas over the mathematical integers, which the specifications of machine arithmetic rest on. */
#include "vp.h"
#ifdef VP_CBMC
typedef __CPROVER_integer Z;
Z nondet_z(void);
void h_mul_magnitude(void)
{
    const Z zero = (Z)0, one = (Z)1;
    Z a = nondet_z(), b = nondet_z(), m = nondet_z(), q = nondet_z();
    VP_ASSUME(a >= zero && b >= one && m >= zero);
    VP_ASSUME(q * b <= m && m < (q + one) * b); /* q is the quotient of m and b */
    VP_ASSERT((a > q) == (a * b > m), "a factor exceeds the quotient exactly if the product exceeds the limit");
    VP_REACH("lemma");
}
#else
void h_mul_magnitude(void) {}
#endif
