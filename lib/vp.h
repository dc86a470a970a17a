/* Shared vocabulary of the contract harnesses.
 *
 * A harness includes the real source files of /repo textually. It is read
 *  - by goto-cc (VP_CBMC defined): contracts become CBMC code contracts that
 *    goto-instrument --dfcc enforces; VP_ND* are unconstrained inputs;
 *  - by gcc (VP_NATIVE defined): the same harness, contracts expand to
 *    nothing, inputs come from the replay file of a verifier counterexample.
 *
 * VP_ASSERT carries the obligation (postcondition, invariant, lemma),
 * VP_ASSUME a precondition or an assumed contract of a callee stub.
 */
#ifndef VP_H
#define VP_H

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "config.h" /* as the build does: -include config.h */
#include <assert.h>
#include <errno.h>
#include <limits.h>
#include <signal.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>

#ifdef VP_CBMC

uint64_t nondet_vp_u64(void);
static uint64_t vp_input;
static inline uint64_t vp_nd(void)
{
    uint64_t v = nondet_vp_u64();
    vp_input = v;
    return v;
}
#define VP_ASSUME(c)        __CPROVER_assume(c)
#define VP_ASSERT(c, msg)   __CPROVER_assert((c), "VP: " msg)
#define VP_REACH(tag)       __CPROVER_assert(0, "VP_REACH " tag)
#define VP_REQUIRES(c)      __CPROVER_requires(c)
#define VP_ENSURES(c)       __CPROVER_ensures(c)
#define VP_ASSIGNS(...)     __CPROVER_assigns(__VA_ARGS__)
#define VP_UPTO(p, n)       __CPROVER_object_upto(p, n)
#define VP_WHOLE(p)         __CPROVER_object_whole(p)
#define VP_COND(c, ...)     c: __VA_ARGS__
#define VP_MAIN(name)       void name(void)

#else /* native replay */

#include <stdio.h>
static uint64_t* vp_inputs; static size_t vp_ninputs, vp_ipos;
static inline uint64_t vp_nd(void)
{
    if (!vp_inputs) {
        size_t cap = 1 << 20;
        vp_inputs = malloc(cap * sizeof(*vp_inputs));
        const char* path = getenv("VP_REPLAY");
        FILE* f = path ? fopen(path, "r") : NULL;
        unsigned long long v;
        while (f && vp_ninputs < cap && fscanf(f, "%llu", &v) == 1)
            vp_inputs[vp_ninputs++] = v;
        if (f) fclose(f);
    }
    return vp_ipos < vp_ninputs ? vp_inputs[vp_ipos++] : 0;
}
static inline void vp_assume(int c, const char* s, int line)
{
    if (!c) { printf("VP_DIVERGED %d: %s\n", line, s); fflush(stdout); _Exit(77); }
}
static inline void vp_assert(int c, const char* s, const char* msg)
{
    if (!c) { printf("VP_FAILED %s [%s]\n", msg, s); fflush(stdout); _Exit(66); }
}
#define VP_ASSUME(c)        vp_assume(!!(c), #c, __LINE__)
#define VP_ASSERT(c, msg)   vp_assert(!!(c), #c, msg)
#define VP_REACH(tag)       do { printf("VP_REACHED %s\n", tag); } while (0)
#define VP_REQUIRES(c)
#define VP_ENSURES(c)
#define VP_ASSIGNS(...)
#define VP_MAIN(name)       void name(void)
#ifdef VP_ENTRY
void VP_ENTRY(void);
int main(void) { setvbuf(stdout, NULL, _IONBF, 0); VP_ENTRY(); printf("VP_DONE\n"); return 0; }
#endif
#define __CPROVER_assume(c) VP_ASSUME(c)
#endif

static inline uint8_t  vp_u8(void)   { return (uint8_t)vp_nd(); }
static inline uint16_t vp_u16(void)  { return (uint16_t)vp_nd(); }
static inline uint32_t vp_u32(void)  { return (uint32_t)vp_nd(); }
static inline uint64_t vp_u64(void)  { return vp_nd(); }
static inline int      vp_int(void)  { return (int)vp_nd(); }
static inline long     vp_long(void) { return (long)vp_nd(); }
static inline size_t   vp_size(void) { return (size_t)vp_nd(); }
static inline bool     vp_bool(void) { return vp_nd() & 1; }
/* a value in [0, n) */
static inline uint64_t vp_below(uint64_t n)
{
    uint64_t v = vp_nd();
    VP_ASSUME(v < n);
    return v;
}
static inline void vp_fill(void* p, size_t n)
{
    for (size_t i = 0; i < n; ++i) ((uint8_t*)p)[i] = vp_u8();
}
/* logical implication, for readability */
#define VP_IMPLIES(a, b) (!(a) || (b))

#endif
