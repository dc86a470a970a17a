/* modules/libm/include/picotm/config/picotm-libm-config.h.  Generated from picotm-libm-config.h.in by configure.  */
/*
 * picotm - A system-level transaction manager
 * Copyright (c) 2017   Thomas Zimmermann <contact@tzimmermann.org>
 *
 * This program is free software: you can redistribute it and/or modify
 * it under the terms of the GNU Lesser General Public License as published by
 * the Free Software Foundation, either version 3 of the License, or
 * (at your option) any later version.
 *
 * This program is distributed in the hope that it will be useful,
 * but WITHOUT ANY WARRANTY; without even the implied warranty of
 * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
 * GNU General Public License for more details.
 *
 * You should have received a copy of the GNU Lesser General Public License
 * along with this program.  If not, see <https://www.gnu.org/licenses/>.
 *
 * SPDX-License-Identifier: LGPL-3.0-or-later
 */

#pragma once

/*
 * Types
 */

#ifndef PICOTM_LIBM_HAVE_TYPE_DOUBLE__COMPLEX
#define PICOTM_LIBM_HAVE_TYPE_DOUBLE__COMPLEX 1
#endif

#ifndef PICOTM_LIBM_HAVE_TYPE_DOUBLE_T
#define PICOTM_LIBM_HAVE_TYPE_DOUBLE_T 1
#endif

#ifndef PICOTM_LIBM_HAVE_TYPE_FLOAT__COMPLEX
#define PICOTM_LIBM_HAVE_TYPE_FLOAT__COMPLEX 1
#endif

#ifndef PICOTM_LIBM_HAVE_TYPE_FLOAT_T
#define PICOTM_LIBM_HAVE_TYPE_FLOAT_T 1
#endif

#ifndef PICOTM_LIBM_HAVE_TYPE_LONG_DOUBLE__COMPLEX
#define PICOTM_LIBM_HAVE_TYPE_LONG_DOUBLE__COMPLEX 1
#endif

/*
 * Public interfaces
 */

#ifndef PICOTM_LIBM_HAVE_ACOS
#define PICOTM_LIBM_HAVE_ACOS 1
#endif

#ifndef PICOTM_LIBM_HAVE_ACOSF
#define PICOTM_LIBM_HAVE_ACOSF 1
#endif

#ifndef PICOTM_LIBM_HAVE_ACOSH
#define PICOTM_LIBM_HAVE_ACOSH 1
#endif

#ifndef PICOTM_LIBM_HAVE_ACOSHF
#define PICOTM_LIBM_HAVE_ACOSHF 1
#endif

#ifndef PICOTM_LIBM_HAVE_ACOSHL
#define PICOTM_LIBM_HAVE_ACOSHL 1
#endif

#ifndef PICOTM_LIBM_HAVE_ACOSL
#define PICOTM_LIBM_HAVE_ACOSL 1
#endif

#ifndef PICOTM_LIBM_HAVE_ASIN
#define PICOTM_LIBM_HAVE_ASIN 1
#endif

#ifndef PICOTM_LIBM_HAVE_ASINF
#define PICOTM_LIBM_HAVE_ASINF 1
#endif

#ifndef PICOTM_LIBM_HAVE_ASINH
#define PICOTM_LIBM_HAVE_ASINH 1
#endif

#ifndef PICOTM_LIBM_HAVE_ASINHF
#define PICOTM_LIBM_HAVE_ASINHF 1
#endif

#ifndef PICOTM_LIBM_HAVE_ASINHL
#define PICOTM_LIBM_HAVE_ASINHL 1
#endif

#ifndef PICOTM_LIBM_HAVE_ASINH
#define PICOTM_LIBM_HAVE_ASINH 1
#endif

#ifndef PICOTM_LIBM_HAVE_ATAN
#define PICOTM_LIBM_HAVE_ATAN 1
#endif

#ifndef PICOTM_LIBM_HAVE_ATAN2
#define PICOTM_LIBM_HAVE_ATAN2 1
#endif

#ifndef PICOTM_LIBM_HAVE_ATAN2F
#define PICOTM_LIBM_HAVE_ATAN2F 1
#endif

#ifndef PICOTM_LIBM_HAVE_ATAN2L
#define PICOTM_LIBM_HAVE_ATAN2L 1
#endif

#ifndef PICOTM_LIBM_HAVE_ATANF
#define PICOTM_LIBM_HAVE_ATANF 1
#endif

#ifndef PICOTM_LIBM_HAVE_ATANH
#define PICOTM_LIBM_HAVE_ATANH 1
#endif

#ifndef PICOTM_LIBM_HAVE_ATANHF
#define PICOTM_LIBM_HAVE_ATANHF 1
#endif

#ifndef PICOTM_LIBM_HAVE_ATANHL
#define PICOTM_LIBM_HAVE_ATANHL 1
#endif

#ifndef PICOTM_LIBM_HAVE_ATANL
#define PICOTM_LIBM_HAVE_ATANL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CABS
#define PICOTM_LIBM_HAVE_CABS 1
#endif

#ifndef PICOTM_LIBM_HAVE_CABSF
#define PICOTM_LIBM_HAVE_CABSF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CABSL
#define PICOTM_LIBM_HAVE_CABSL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CACOS
#define PICOTM_LIBM_HAVE_CACOS 1
#endif

#ifndef PICOTM_LIBM_HAVE_CACOSF
#define PICOTM_LIBM_HAVE_CACOSF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CACOSL
#define PICOTM_LIBM_HAVE_CACOSL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CACOSH
#define PICOTM_LIBM_HAVE_CACOSH 1
#endif

#ifndef PICOTM_LIBM_HAVE_CACOSF
#define PICOTM_LIBM_HAVE_CACOSF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CACOSH
#define PICOTM_LIBM_HAVE_CACOSH 1
#endif

#ifndef PICOTM_LIBM_HAVE_CACOSHF
#define PICOTM_LIBM_HAVE_CACOSHF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CACOSHL
#define PICOTM_LIBM_HAVE_CACOSHL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CACOSL
#define PICOTM_LIBM_HAVE_CACOSL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CARG
#define PICOTM_LIBM_HAVE_CARG 1
#endif

#ifndef PICOTM_LIBM_HAVE_CARGF
#define PICOTM_LIBM_HAVE_CARGF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CARGL
#define PICOTM_LIBM_HAVE_CARGL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CASIN
#define PICOTM_LIBM_HAVE_CASIN 1
#endif

#ifndef PICOTM_LIBM_HAVE_CASINF
#define PICOTM_LIBM_HAVE_CASINF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CASINH
#define PICOTM_LIBM_HAVE_CASINH 1
#endif

#ifndef PICOTM_LIBM_HAVE_CASINHF
#define PICOTM_LIBM_HAVE_CASINHF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CASINHL
#define PICOTM_LIBM_HAVE_CASINHL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CASINL
#define PICOTM_LIBM_HAVE_CASINL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CATAN
#define PICOTM_LIBM_HAVE_CATAN 1
#endif

#ifndef PICOTM_LIBM_HAVE_CATANF
#define PICOTM_LIBM_HAVE_CATANF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CATANH
#define PICOTM_LIBM_HAVE_CATANH 1
#endif

#ifndef PICOTM_LIBM_HAVE_CATANHF
#define PICOTM_LIBM_HAVE_CATANHF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CATANHL
#define PICOTM_LIBM_HAVE_CATANHL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CATANL
#define PICOTM_LIBM_HAVE_CATANL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CBRT
#define PICOTM_LIBM_HAVE_CBRT 1
#endif

#ifndef PICOTM_LIBM_HAVE_CBRTF
#define PICOTM_LIBM_HAVE_CBRTF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CBRTL
#define PICOTM_LIBM_HAVE_CBRTL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CCOS
#define PICOTM_LIBM_HAVE_CCOS 1
#endif

#ifndef PICOTM_LIBM_HAVE_CCOSF
#define PICOTM_LIBM_HAVE_CCOSF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CCOSH
#define PICOTM_LIBM_HAVE_CCOSH 1
#endif

#ifndef PICOTM_LIBM_HAVE_CCOSHF
#define PICOTM_LIBM_HAVE_CCOSHF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CCOSHL
#define PICOTM_LIBM_HAVE_CCOSHL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CCOSL
#define PICOTM_LIBM_HAVE_CCOSL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CEIL
#define PICOTM_LIBM_HAVE_CEIL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CEILF
#define PICOTM_LIBM_HAVE_CEILF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CEILL
#define PICOTM_LIBM_HAVE_CEILL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CEXP
#define PICOTM_LIBM_HAVE_CEXP 1
#endif

#ifndef PICOTM_LIBM_HAVE_CEXPF
#define PICOTM_LIBM_HAVE_CEXPF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CEXPL
#define PICOTM_LIBM_HAVE_CEXPL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CIMAG
#define PICOTM_LIBM_HAVE_CIMAG 1
#endif

#ifndef PICOTM_LIBM_HAVE_CIMAGF
#define PICOTM_LIBM_HAVE_CIMAGF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CIMAGL
#define PICOTM_LIBM_HAVE_CIMAGL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CLOG
#define PICOTM_LIBM_HAVE_CLOG 1
#endif

#ifndef PICOTM_LIBM_HAVE_CLOGF
#define PICOTM_LIBM_HAVE_CLOGF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CLOGL
#define PICOTM_LIBM_HAVE_CLOGL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CONJ
#define PICOTM_LIBM_HAVE_CONJ 1
#endif

#ifndef PICOTM_LIBM_HAVE_CONJF
#define PICOTM_LIBM_HAVE_CONJF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CONJL
#define PICOTM_LIBM_HAVE_CONJL 1
#endif

#ifndef PICOTM_LIBM_HAVE_COPYSIGN
#define PICOTM_LIBM_HAVE_COPYSIGN 1
#endif

#ifndef PICOTM_LIBM_HAVE_COPYSIGNF
#define PICOTM_LIBM_HAVE_COPYSIGNF 1
#endif

#ifndef PICOTM_LIBM_HAVE_COPYSIGNL
#define PICOTM_LIBM_HAVE_COPYSIGNL 1
#endif

#ifndef PICOTM_LIBM_HAVE_COS
#define PICOTM_LIBM_HAVE_COS 1
#endif

#ifndef PICOTM_LIBM_HAVE_COSF
#define PICOTM_LIBM_HAVE_COSF 1
#endif

#ifndef PICOTM_LIBM_HAVE_COSH
#define PICOTM_LIBM_HAVE_COSH 1
#endif

#ifndef PICOTM_LIBM_HAVE_COSHF
#define PICOTM_LIBM_HAVE_COSHF 1
#endif

#ifndef PICOTM_LIBM_HAVE_COSHL
#define PICOTM_LIBM_HAVE_COSHL 1
#endif

#ifndef PICOTM_LIBM_HAVE_COSL
#define PICOTM_LIBM_HAVE_COSL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CPOW
#define PICOTM_LIBM_HAVE_CPOW 1
#endif

#ifndef PICOTM_LIBM_HAVE_CPOWF
#define PICOTM_LIBM_HAVE_CPOWF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CPOWL
#define PICOTM_LIBM_HAVE_CPOWL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CPROJ
#define PICOTM_LIBM_HAVE_CPROJ 1
#endif

#ifndef PICOTM_LIBM_HAVE_CPROJF
#define PICOTM_LIBM_HAVE_CPROJF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CPROJL
#define PICOTM_LIBM_HAVE_CPROJL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CREAL
#define PICOTM_LIBM_HAVE_CREAL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CREALF
#define PICOTM_LIBM_HAVE_CREALF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CREALL
#define PICOTM_LIBM_HAVE_CREALL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CSIN
#define PICOTM_LIBM_HAVE_CSIN 1
#endif

#ifndef PICOTM_LIBM_HAVE_CSINF
#define PICOTM_LIBM_HAVE_CSINF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CSINL
#define PICOTM_LIBM_HAVE_CSINL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CSINH
#define PICOTM_LIBM_HAVE_CSINH 1
#endif

#ifndef PICOTM_LIBM_HAVE_CSINHF
#define PICOTM_LIBM_HAVE_CSINHF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CSINHL
#define PICOTM_LIBM_HAVE_CSINHL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CSINL
#define PICOTM_LIBM_HAVE_CSINL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CSQRT
#define PICOTM_LIBM_HAVE_CSQRT 1
#endif

#ifndef PICOTM_LIBM_HAVE_CSQRTF
#define PICOTM_LIBM_HAVE_CSQRTF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CSQRTL
#define PICOTM_LIBM_HAVE_CSQRTL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CTAN
#define PICOTM_LIBM_HAVE_CTAN 1
#endif

#ifndef PICOTM_LIBM_HAVE_CTANF
#define PICOTM_LIBM_HAVE_CTANF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CTANH
#define PICOTM_LIBM_HAVE_CTANH 1
#endif

#ifndef PICOTM_LIBM_HAVE_CTANHF
#define PICOTM_LIBM_HAVE_CTANHF 1
#endif

#ifndef PICOTM_LIBM_HAVE_CTANHL
#define PICOTM_LIBM_HAVE_CTANHL 1
#endif

#ifndef PICOTM_LIBM_HAVE_CTANL
#define PICOTM_LIBM_HAVE_CTANL 1
#endif
#ifndef PICOTM_LIBM_HAVE_ERF
#define PICOTM_LIBM_HAVE_ERF 1
#endif

#ifndef PICOTM_LIBM_HAVE_ERFC
#define PICOTM_LIBM_HAVE_ERFC 1
#endif

#ifndef PICOTM_LIBM_HAVE_ERFCF
#define PICOTM_LIBM_HAVE_ERFCF 1
#endif

#ifndef PICOTM_LIBM_HAVE_ERFCL
#define PICOTM_LIBM_HAVE_ERFCL 1
#endif

#ifndef PICOTM_LIBM_HAVE_ERFF
#define PICOTM_LIBM_HAVE_ERFF 1
#endif

#ifndef PICOTM_LIBM_HAVE_ERFL
#define PICOTM_LIBM_HAVE_ERFL 1
#endif

#ifndef PICOTM_LIBM_HAVE_EXP
#define PICOTM_LIBM_HAVE_EXP 1
#endif

#ifndef PICOTM_LIBM_HAVE_EXP2
#define PICOTM_LIBM_HAVE_EXP2 1
#endif

#ifndef PICOTM_LIBM_HAVE_EXP2F
#define PICOTM_LIBM_HAVE_EXP2F 1
#endif

#ifndef PICOTM_LIBM_HAVE_EXP2L
#define PICOTM_LIBM_HAVE_EXP2L 1
#endif

#ifndef PICOTM_LIBM_HAVE_EXPF
#define PICOTM_LIBM_HAVE_EXPF 1
#endif

#ifndef PICOTM_LIBM_HAVE_EXPL
#define PICOTM_LIBM_HAVE_EXPL 1
#endif

#ifndef PICOTM_LIBM_HAVE_EXPM1
#define PICOTM_LIBM_HAVE_EXPM1 1
#endif

#ifndef PICOTM_LIBM_HAVE_EXPM1F
#define PICOTM_LIBM_HAVE_EXPM1F 1
#endif

#ifndef PICOTM_LIBM_HAVE_EXPM1L
#define PICOTM_LIBM_HAVE_EXPM1L 1
#endif

#ifndef PICOTM_LIBM_HAVE_FABS
#define PICOTM_LIBM_HAVE_FABS 1
#endif

#ifndef PICOTM_LIBM_HAVE_FABSF
#define PICOTM_LIBM_HAVE_FABSF 1
#endif

#ifndef PICOTM_LIBM_HAVE_FABSL
#define PICOTM_LIBM_HAVE_FABSL 1
#endif

#ifndef PICOTM_LIBM_HAVE_FDIM
#define PICOTM_LIBM_HAVE_FDIM 1
#endif

#ifndef PICOTM_LIBM_HAVE_FDIMF
#define PICOTM_LIBM_HAVE_FDIMF 1
#endif

#ifndef PICOTM_LIBM_HAVE_FDIML
#define PICOTM_LIBM_HAVE_FDIML 1
#endif

#ifndef PICOTM_LIBM_HAVE_FLOOR
#define PICOTM_LIBM_HAVE_FLOOR 1
#endif

#ifndef PICOTM_LIBM_HAVE_FLOORF
#define PICOTM_LIBM_HAVE_FLOORF 1
#endif

#ifndef PICOTM_LIBM_HAVE_FLOORL
#define PICOTM_LIBM_HAVE_FLOORL 1
#endif

#ifndef PICOTM_LIBM_HAVE_FMA
#define PICOTM_LIBM_HAVE_FMA 1
#endif

#ifndef PICOTM_LIBM_HAVE_FMAF
#define PICOTM_LIBM_HAVE_FMAF 1
#endif

#ifndef PICOTM_LIBM_HAVE_FMAL
#define PICOTM_LIBM_HAVE_FMAL 1
#endif

#ifndef PICOTM_LIBM_HAVE_FMAX
#define PICOTM_LIBM_HAVE_FMAX 1
#endif

#ifndef PICOTM_LIBM_HAVE_FMAXF
#define PICOTM_LIBM_HAVE_FMAXF 1
#endif

#ifndef PICOTM_LIBM_HAVE_FMAXL
#define PICOTM_LIBM_HAVE_FMAXL 1
#endif

#ifndef PICOTM_LIBM_HAVE_FMIN
#define PICOTM_LIBM_HAVE_FMIN 1
#endif

#ifndef PICOTM_LIBM_HAVE_FMINF
#define PICOTM_LIBM_HAVE_FMINF 1
#endif

#ifndef PICOTM_LIBM_HAVE_FMINL
#define PICOTM_LIBM_HAVE_FMINL 1
#endif

#ifndef PICOTM_LIBM_HAVE_FMOD
#define PICOTM_LIBM_HAVE_FMOD 1
#endif

#ifndef PICOTM_LIBM_HAVE_FMODF
#define PICOTM_LIBM_HAVE_FMODF 1
#endif

#ifndef PICOTM_LIBM_HAVE_FMODL
#define PICOTM_LIBM_HAVE_FMODL 1
#endif

#ifndef PICOTM_LIBM_HAVE_FREXP
#define PICOTM_LIBM_HAVE_FREXP 1
#endif

#ifndef PICOTM_LIBM_HAVE_FREXPF
#define PICOTM_LIBM_HAVE_FREXPF 1
#endif

#ifndef PICOTM_LIBM_HAVE_FREXPL
#define PICOTM_LIBM_HAVE_FREXPL 1
#endif

#ifndef PICOTM_LIBM_HAVE_HYPOT
#define PICOTM_LIBM_HAVE_HYPOT 1
#endif

#ifndef PICOTM_LIBM_HAVE_HYPOTF
#define PICOTM_LIBM_HAVE_HYPOTF 1
#endif

#ifndef PICOTM_LIBM_HAVE_HYPOTL
#define PICOTM_LIBM_HAVE_HYPOTL 1
#endif

#ifndef PICOTM_LIBM_HAVE_ILOGB
#define PICOTM_LIBM_HAVE_ILOGB 1
#endif

#ifndef PICOTM_LIBM_HAVE_ILOGBF
#define PICOTM_LIBM_HAVE_ILOGBF 1
#endif

#ifndef PICOTM_LIBM_HAVE_ILOGBL
#define PICOTM_LIBM_HAVE_ILOGBL 1
#endif

#ifndef PICOTM_LIBM_HAVE_J0
#define PICOTM_LIBM_HAVE_J0 1
#endif

#ifndef PICOTM_LIBM_HAVE_J1
#define PICOTM_LIBM_HAVE_J1 1
#endif

#ifndef PICOTM_LIBM_HAVE_JN
#define PICOTM_LIBM_HAVE_JN 1
#endif

#ifndef PICOTM_LIBM_HAVE_LDEXP
#define PICOTM_LIBM_HAVE_LDEXP 1
#endif

#ifndef PICOTM_LIBM_HAVE_LDEXPF
#define PICOTM_LIBM_HAVE_LDEXPF 1
#endif

#ifndef PICOTM_LIBM_HAVE_LDEXPL
#define PICOTM_LIBM_HAVE_LDEXPL 1
#endif

#ifndef PICOTM_LIBM_HAVE_LGAMMA
#define PICOTM_LIBM_HAVE_LGAMMA 1
#endif

#ifndef PICOTM_LIBM_HAVE_LGAMMAF
#define PICOTM_LIBM_HAVE_LGAMMAF 1
#endif

#ifndef PICOTM_LIBM_HAVE_LGAMMAL
#define PICOTM_LIBM_HAVE_LGAMMAL 1
#endif

#ifndef PICOTM_LIBM_HAVE_LLRINT
#define PICOTM_LIBM_HAVE_LLRINT 1
#endif

#ifndef PICOTM_LIBM_HAVE_LLRINTF
#define PICOTM_LIBM_HAVE_LLRINTF 1
#endif

#ifndef PICOTM_LIBM_HAVE_LLRINTL
#define PICOTM_LIBM_HAVE_LLRINTL 1
#endif

#ifndef PICOTM_LIBM_HAVE_LLROUND
#define PICOTM_LIBM_HAVE_LLROUND 1
#endif

#ifndef PICOTM_LIBM_HAVE_LLROUNDF
#define PICOTM_LIBM_HAVE_LLROUNDF 1
#endif

#ifndef PICOTM_LIBM_HAVE_LLROUNDL
#define PICOTM_LIBM_HAVE_LLROUNDL 1
#endif

#ifndef PICOTM_LIBM_HAVE_LOG
#define PICOTM_LIBM_HAVE_LOG 1
#endif

#ifndef PICOTM_LIBM_HAVE_LOG10
#define PICOTM_LIBM_HAVE_LOG10 1
#endif

#ifndef PICOTM_LIBM_HAVE_LOG10F
#define PICOTM_LIBM_HAVE_LOG10F 1
#endif

#ifndef PICOTM_LIBM_HAVE_LOG10L
#define PICOTM_LIBM_HAVE_LOG10L 1
#endif

#ifndef PICOTM_LIBM_HAVE_LOG1P
#define PICOTM_LIBM_HAVE_LOG1P 1
#endif

#ifndef PICOTM_LIBM_HAVE_LOG1PF
#define PICOTM_LIBM_HAVE_LOG1PF 1
#endif

#ifndef PICOTM_LIBM_HAVE_LOG1PL
#define PICOTM_LIBM_HAVE_LOG1PL 1
#endif

#ifndef PICOTM_LIBM_HAVE_LOG2
#define PICOTM_LIBM_HAVE_LOG2 1
#endif

#ifndef PICOTM_LIBM_HAVE_LOG2F
#define PICOTM_LIBM_HAVE_LOG2F 1
#endif

#ifndef PICOTM_LIBM_HAVE_LOG2L
#define PICOTM_LIBM_HAVE_LOG2L 1
#endif

#ifndef PICOTM_LIBM_HAVE_LOGB
#define PICOTM_LIBM_HAVE_LOGB 1
#endif

#ifndef PICOTM_LIBM_HAVE_LOGBF
#define PICOTM_LIBM_HAVE_LOGBF 1
#endif

#ifndef PICOTM_LIBM_HAVE_LOGBL
#define PICOTM_LIBM_HAVE_LOGBL 1
#endif

#ifndef PICOTM_LIBM_HAVE_LOGF
#define PICOTM_LIBM_HAVE_LOGF 1
#endif

#ifndef PICOTM_LIBM_HAVE_LOGL
#define PICOTM_LIBM_HAVE_LOGL 1
#endif

#ifndef PICOTM_LIBM_HAVE_LRINT
#define PICOTM_LIBM_HAVE_LRINT 1
#endif

#ifndef PICOTM_LIBM_HAVE_LRINTF
#define PICOTM_LIBM_HAVE_LRINTF 1
#endif

#ifndef PICOTM_LIBM_HAVE_LRINTL
#define PICOTM_LIBM_HAVE_LRINTL 1
#endif

#ifndef PICOTM_LIBM_HAVE_LROUND
#define PICOTM_LIBM_HAVE_LROUND 1
#endif

#ifndef PICOTM_LIBM_HAVE_LROUNDF
#define PICOTM_LIBM_HAVE_LROUNDF 1
#endif

#ifndef PICOTM_LIBM_HAVE_LROUNDL
#define PICOTM_LIBM_HAVE_LROUNDL 1
#endif

#ifndef PICOTM_LIBM_HAVE_MODF
#define PICOTM_LIBM_HAVE_MODF 1
#endif

#ifndef PICOTM_LIBM_HAVE_MODFF
#define PICOTM_LIBM_HAVE_MODFF 1
#endif

#ifndef PICOTM_LIBM_HAVE_MODFL
#define PICOTM_LIBM_HAVE_MODFL 1
#endif

#ifndef PICOTM_LIBM_HAVE_NAN
#define PICOTM_LIBM_HAVE_NAN 1
#endif

#ifndef PICOTM_LIBM_HAVE_NANF
#define PICOTM_LIBM_HAVE_NANF 1
#endif

#ifndef PICOTM_LIBM_HAVE_NANL
#define PICOTM_LIBM_HAVE_NANL 1
#endif

#ifndef PICOTM_LIBM_HAVE_NEARBYINT
#define PICOTM_LIBM_HAVE_NEARBYINT 1
#endif

#ifndef PICOTM_LIBM_HAVE_NEARBYINTF
#define PICOTM_LIBM_HAVE_NEARBYINTF 1
#endif

#ifndef PICOTM_LIBM_HAVE_NEARBYINTL
#define PICOTM_LIBM_HAVE_NEARBYINTL 1
#endif

#ifndef PICOTM_LIBM_HAVE_NEXTAFTER
#define PICOTM_LIBM_HAVE_NEXTAFTER 1
#endif

#ifndef PICOTM_LIBM_HAVE_NEXTAFTERF
#define PICOTM_LIBM_HAVE_NEXTAFTERF 1
#endif

#ifndef PICOTM_LIBM_HAVE_NEXTAFTERL
#define PICOTM_LIBM_HAVE_NEXTAFTERL 1
#endif

#ifndef PICOTM_LIBM_HAVE_NEXTTOWARD
#define PICOTM_LIBM_HAVE_NEXTTOWARD 1
#endif

#ifndef PICOTM_LIBM_HAVE_NEXTTOWARDF
#define PICOTM_LIBM_HAVE_NEXTTOWARDF 1
#endif

#ifndef PICOTM_LIBM_HAVE_NEXTOWARDL
#define PICOTM_LIBM_HAVE_NEXTTOWARDL 1
#endif

#ifndef PICOTM_LIBM_HAVE_POW
#define PICOTM_LIBM_HAVE_POW 1
#endif

#ifndef PICOTM_LIBM_HAVE_POWF
#define PICOTM_LIBM_HAVE_POWF 1
#endif

#ifndef PICOTM_LIBM_HAVE_POWL
#define PICOTM_LIBM_HAVE_POWL 1
#endif

#ifndef PICOTM_LIBM_HAVE_REMAINDER
#define PICOTM_LIBM_HAVE_REMAINDER 1
#endif

#ifndef PICOTM_LIBM_HAVE_REMAINDERF
#define PICOTM_LIBM_HAVE_REMAINDERF 1
#endif

#ifndef PICOTM_LIBM_HAVE_REMAINDERL
#define PICOTM_LIBM_HAVE_REMAINDERL 1
#endif

#ifndef PICOTM_LIBM_HAVE_REMQUO
#define PICOTM_LIBM_HAVE_REMQUO 1
#endif

#ifndef PICOTM_LIBM_HAVE_REMQUOF
#define PICOTM_LIBM_HAVE_REMQUOF 1
#endif

#ifndef PICOTM_LIBM_HAVE_REMQUOL
#define PICOTM_LIBM_HAVE_REMQUOL 1
#endif

#ifndef PICOTM_LIBM_HAVE_RINT
#define PICOTM_LIBM_HAVE_RINT 1
#endif

#ifndef PICOTM_LIBM_HAVE_RINTF
#define PICOTM_LIBM_HAVE_RINTF 1
#endif

#ifndef PICOTM_LIBM_HAVE_RINTL
#define PICOTM_LIBM_HAVE_RINTL 1
#endif

#ifndef PICOTM_LIBM_HAVE_ROUND
#define PICOTM_LIBM_HAVE_ROUND 1
#endif

#ifndef PICOTM_LIBM_HAVE_ROUNDF
#define PICOTM_LIBM_HAVE_ROUNDF 1
#endif

#ifndef PICOTM_LIBM_HAVE_ROUNDL
#define PICOTM_LIBM_HAVE_ROUNDL 1
#endif

#ifndef PICOTM_LIBM_HAVE_SCALBLN
#define PICOTM_LIBM_HAVE_SCALBLN 1
#endif

#ifndef PICOTM_LIBM_HAVE_SCALBLNF
#define PICOTM_LIBM_HAVE_SCALBLNF 1
#endif

#ifndef PICOTM_LIBM_HAVE_SCALBLNL
#define PICOTM_LIBM_HAVE_SCALBLNL 1
#endif

#ifndef PICOTM_LIBM_HAVE_SCALBN
#define PICOTM_LIBM_HAVE_SCALBN 1
#endif

#ifndef PICOTM_LIBM_HAVE_SCALBNF
#define PICOTM_LIBM_HAVE_SCALBNF 1
#endif

#ifndef PICOTM_LIBM_HAVE_SCALBNL
#define PICOTM_LIBM_HAVE_SCALBNL 1
#endif

#ifndef PICOTM_LIBM_HAVE_SIN
#define PICOTM_LIBM_HAVE_SIN 1
#endif

#ifndef PICOTM_LIBM_HAVE_SINF
#define PICOTM_LIBM_HAVE_SINF 1
#endif

#ifndef PICOTM_LIBM_HAVE_SINH
#define PICOTM_LIBM_HAVE_SINH 1
#endif

#ifndef PICOTM_LIBM_HAVE_SINHF
#define PICOTM_LIBM_HAVE_SINHF 1
#endif

#ifndef PICOTM_LIBM_HAVE_SINHL
#define PICOTM_LIBM_HAVE_SINHL 1
#endif

#ifndef PICOTM_LIBM_HAVE_SINL
#define PICOTM_LIBM_HAVE_SINL 1
#endif

#ifndef PICOTM_LIBM_HAVE_SQRT
#define PICOTM_LIBM_HAVE_SQRT 1
#endif

#ifndef PICOTM_LIBM_HAVE_SQRTF
#define PICOTM_LIBM_HAVE_SQRTF 1
#endif

#ifndef PICOTM_LIBM_HAVE_SQRTL
#define PICOTM_LIBM_HAVE_SQRTL 1
#endif

#ifndef PICOTM_LIBM_HAVE_TAN
#define PICOTM_LIBM_HAVE_TAN 1
#endif

#ifndef PICOTM_LIBM_HAVE_TANF
#define PICOTM_LIBM_HAVE_TANF 1
#endif

#ifndef PICOTM_LIBM_HAVE_TANH
#define PICOTM_LIBM_HAVE_TANH 1
#endif

#ifndef PICOTM_LIBM_HAVE_TANHF
#define PICOTM_LIBM_HAVE_TANHF 1
#endif

#ifndef PICOTM_LIBM_HAVE_TANHL
#define PICOTM_LIBM_HAVE_TANHL 1
#endif

#ifndef PICOTM_LIBM_HAVE_TANL
#define PICOTM_LIBM_HAVE_TANL 1
#endif

#ifndef PICOTM_LIBM_HAVE_TGAMMA
#define PICOTM_LIBM_HAVE_TGAMMA 1
#endif

#ifndef PICOTM_LIBM_HAVE_TGAMMAF
#define PICOTM_LIBM_HAVE_TGAMMAF 1
#endif

#ifndef PICOTM_LIBM_HAVE_TGAMMAL
#define PICOTM_LIBM_HAVE_TGAMMAL 1
#endif

#ifndef PICOTM_LIBM_HAVE_TRUNC
#define PICOTM_LIBM_HAVE_TRUNC 1
#endif

#ifndef PICOTM_LIBM_HAVE_TRUNCF
#define PICOTM_LIBM_HAVE_TRUNCF 1
#endif

#ifndef PICOTM_LIBM_HAVE_TRUNCL
#define PICOTM_LIBM_HAVE_TRUNCL 1
#endif

#ifndef PICOTM_LIBM_HAVE_Y0
#define PICOTM_LIBM_HAVE_Y0 1
#endif

#ifndef PICOTM_LIBM_HAVE_Y1
#define PICOTM_LIBM_HAVE_Y1 1
#endif

#ifndef PICOTM_LIBM_HAVE_YN
#define PICOTM_LIBM_HAVE_YN 1
#endif
