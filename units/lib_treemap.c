/* picotm-lib-treemap.c, picotm-lib-shared-treemap.c. Keys at the borders of every tree level; every allocation and every value
 * construction can be the one that fails; for the shared map another thread looks a key up between any two steps. */
#include "vp.h"
#include <stdatomic.h>
#include <alloca.h>
#include "src/picotm-error.c"
/* The sources' integers that hold pointers are pointers here, which the verifier tracks exactly. */
typedef char* vp_ptr_t;
#define uintptr_t vp_ptr_t
#define atomic_uintptr_t vp_ptr_t
enum { NDIR = 64, NVAL = 12 };
#ifndef RSTEP
#define RSTEP 2
#endif
#ifndef RI
#define RI 0
#endif
#ifndef BITS
#define BITS 4
#endif
#define ENT (1 << BITS)
#define D(n) static uintptr_t d##n##0[ENT], d##n##1[ENT], d##n##2[ENT], d##n##3[ENT], d##n##4[ENT], d##n##5[ENT], d##n##6[ENT], d##n##7[ENT];
D(0) D(1) D(2) D(3) D(4) D(5) D(6) D(7)
#define E(n) d##n##0, d##n##1, d##n##2, d##n##3, d##n##4, d##n##5, d##n##6, d##n##7,
static uintptr_t* const pool[NDIR] = { E(0) E(1) E(2) E(3) E(4) E(5) E(6) E(7) };
#undef E
#undef D
static unsigned ndir, ndirfree, g_alloc;
static int fail_alloc, fail_val;
static void* vp_malloc(size_t n)
{
    VP_ASSERT(n == sizeof(d00), "a node has room for all its entries");
    if ((int)g_alloc++ == fail_alloc) { errno = ENOMEM; return NULL; }
    VP_ASSERT(ndir < NDIR, "no more nodes than necessary");
    return pool[ndir++];
}
static bool freed[NDIR];
static void vp_free(void* p)
{
    if (!p) return;
    unsigned i = NDIR;
    for (unsigned k = 0; k < ndir; ++k) if (p == pool[k]) i = k;
    VP_ASSERT(i < NDIR && !freed[i], "each node is released once");
    freed[i] = true;
    ndirfree++;
}
static struct picotm_error err;
/* the iteration's stack: typed memory for up to one frame per level, plus one */
static struct vp_frame { unsigned long long a; uintptr_t b; unsigned long c, d; } g_stack[64 / BITS + 2];
static void* vp_alloca(size_t n)
{
    VP_ASSERT(n <= sizeof(g_stack), "no more frames than levels");
    return g_stack;
}
#undef alloca
#define alloca vp_alloca
#define malloc vp_malloc
#define free vp_free
#ifdef SHARED
#define MAP picotm_shared_treemap
static uintptr_t vp_load(void* p);
static bool vp_cas(void* p, uintptr_t* e, uintptr_t d);
#undef atomic_init
#undef atomic_load_explicit
#undef atomic_load
#undef atomic_compare_exchange_strong_explicit
#undef atomic_compare_exchange_strong
#undef atomic_compare_exchange_weak_explicit
#undef atomic_exchange_explicit
#undef atomic_store_explicit
#define atomic_init(p, v) ((void)(*(uintptr_t*)(void*)(p) = (v)))
#define atomic_load_explicit(p, o) vp_load((void*)(p))
#define atomic_load(p) vp_load((void*)(p))
#define atomic_compare_exchange_strong_explicit(p, e, d, s, f) vp_cas((void*)(p), e, d)
#define atomic_compare_exchange_weak_explicit(p, e, d, s, f) vp_cas((void*)(p), e, d)
#define atomic_compare_exchange_strong(p, e, d) vp_cas((void*)(p), e, d)
#define atomic_exchange_explicit(p, v, o) vp_swap((void*)(p), v)
#define atomic_store_explicit(p, v, o) ((void)vp_swap((void*)(p), v))
static uintptr_t vp_swap(void* p, uintptr_t v);
#include "src/picotm-lib-shared-treemap.c"
#else
#define MAP picotm_treemap
static void* vp_set(void* p, int c, size_t n)
{
    VP_ASSERT(c == 0 && n == sizeof(d00), "a new node is empty");
    for (unsigned i = 0; i < ENT; ++i) ((uintptr_t*)p)[i] = 0;
    return p;
}
#define memset vp_set
#include "src/picotm-lib-treemap.c"
#endif
#undef malloc
#undef free
#undef memset
static struct MAP map;
/* values, their keys and fates */
static char vals[NVAL];
#define NUM(v) ((unsigned)((v) - vals))
static bool isval(uintptr_t v) { for (unsigned i = 0; i < NVAL; ++i) if (v == vals + i) return true; return false; }
static unsigned nval;
static unsigned long long vkey[NVAL];
static unsigned destroyed[NVAL];
static uintptr_t create(unsigned long long key, struct MAP* m, struct picotm_error* e)
{
    VP_ASSERT(m == &map, "the map is passed on");
    if ((int)nval == fail_val) { fail_val = -1; picotm_error_set_errno(e, ENOMEM); return 0; }
    VP_ASSERT(nval < NVAL, "values");
    vkey[nval] = key; destroyed[nval] = 0;
    return vals + nval++;
}
static void destroy(uintptr_t v, struct MAP* m)
{
    VP_ASSERT(m == &map && isval(v) && NUM(v) < nval, "only values of the map are destroyed");
    VP_ASSERT(!destroyed[NUM(v)], "each value is destroyed once");
    destroyed[NUM(v)]++;
}
#ifdef SHARED
static struct picotm_error err2;
static int env_at, env_n; /* other threads run before this atomic step */
static unsigned long long env_key;
static uintptr_t env_val;
static bool env_in;
static void others(void)
{
    if (env_in || env_n++ != env_at) return;
    env_in = true;
    int f = fail_alloc; fail_alloc = -1;
    env_val = picotm_shared_treemap_find_value(&map, env_key, create, destroy, &err2);
    fail_alloc = f;
    VP_ASSERT(!picotm_error_is_set(&err2), "the other thread succeeds");
    env_in = false;
}
static uintptr_t vp_load(void* p) { others(); return *(uintptr_t*)p; }
static bool vp_cas(void* p, uintptr_t* e, uintptr_t d)
{
    others();
    if (*(uintptr_t*)p != *e) { *e = *(uintptr_t*)p; return false; }
    *(uintptr_t*)p = d;
    return true;
}
static uintptr_t vp_swap(void* p, uintptr_t v) { others(); uintptr_t o = *(uintptr_t*)p; *(uintptr_t*)p = v; return o; }
static uintptr_t find(unsigned long long k, bool c) { return picotm_shared_treemap_find_value(&map, k, c ? create : NULL, c ? destroy : NULL, &err); }
static void init(void)
{
    err2 = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
    env_at = -1; env_n = 0; env_in = false; env_val = 0;
    picotm_shared_treemap_init(&map, KEYBITS, BITS);
}
#else
#ifndef KEYBITS
#define KEYBITS 64
#endif
static uintptr_t find(unsigned long long k, bool c) { return picotm_treemap_find_value(&map, k, c ? create : NULL, &err); }
static void init(void) { picotm_treemap_init(&map, BITS); }
#endif
static void mk(void)
{
    err = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
    for (unsigned i = 0; i < ndir; ++i) freed[i] = false;
    ndir = ndirfree = g_alloc = 0; nval = 0; fail_alloc = fail_val = -1;
    init();
}
static void finish(void)
{
#ifdef SHARED
    picotm_shared_treemap_uninit(&map, destroy);
#else
    picotm_treemap_uninit(&map, destroy);
#endif
    for (unsigned i = 0; i < nval; ++i) VP_ASSERT(destroyed[i] == 1, "each value is destroyed exactly once");
    VP_ASSERT(ndirfree == ndir, "each node is released exactly once");
}
#define TOP(n) (1ull << ((n) - 1))
static const unsigned long long keys[] = {
    0, ENT - 1, ENT,
#ifdef SHARED
    1, TOP(KEYBITS) >> 1,
#endif
    TOP(KEYBITS), TOP(KEYBITS) + (TOP(KEYBITS) - 1) };
enum { NK = sizeof(keys) / sizeof(*keys) };
/* all ordered pairs of keys, then all keys */
void h_pairs(void)
{
    for (unsigned i = 0; i < NK; ++i)
        for (unsigned j = 0; j < NK; ++j) {
            mk();
            VP_ASSERT(find(keys[j], false) == 0 && nval == 0, "a look-up alone creates no value");
            uintptr_t a = find(keys[i], true);
            VP_ASSERT(a == vals && vkey[0] == keys[i], "a value is created for the key");
            VP_ASSERT(find(keys[j], false) == (i == j ? a : 0), "a value is found for its own key only");
            uintptr_t b = find(keys[j], true);
            VP_ASSERT(b == (i == j ? a : vals + 1) && nval == 1 + (i != j) && vkey[NUM(b)] == keys[j], "distinct keys have distinct values and each key has one");
            VP_ASSERT(find(keys[i], true) == a && find(keys[i], false) == a && find(keys[j], true) == b, "a key's value stays the same");
            VP_ASSERT(!picotm_error_is_set(&err) && nval == 1 + (i != j), "no value is created twice");
            finish();
        }
    VP_REACH("pairs");
}
/* every allocation failing */
void h_fail(void)
{
    for (unsigned i = 0; i < NK; i += 3)
        for (unsigned j = NK - 1; j < NK; j += 3)
            for (int f = 0; f < NFAIL; ++f) {
                mk();
                uintptr_t a = find(keys[i], true);
                unsigned n0 = g_alloc;
                fail_alloc = f < NFAIL - 1 ? (int)n0 + f : -1;
                if (f == NFAIL - 1) fail_val = nval;
                uintptr_t b = find(keys[j], true);
                if (picotm_error_is_set(&err)) {
                    VP_ASSERT(b == 0 && nval == 1, "a failed look-up returns nothing");
                    picotm_error_clear(&err);
                }
                VP_ASSERT(find(keys[i], true) == a && nval == 1 + (b && i != j), "a failure leaves all values reachable");
                uintptr_t c = find(keys[j], true);
                VP_ASSERT(c == (i == j ? a : vals + 1) && (!b || b == c), "the look-up succeeds later");
                finish();
            }
    VP_REACH("fail");
}
#ifndef SHARED
static unsigned visits[NVAL], nvisit, stop_at;
static void call(uintptr_t v, unsigned long long key, struct MAP* m, void* data, struct picotm_error* e)
{
    VP_ASSERT(m == &map && data == &nvisit && isval(v) && NUM(v) < nval, "only values are visited");
    VP_ASSERT(vkey[NUM(v)] == key, "values are visited with their key");
    visits[NUM(v)]++;
    if (nvisit++ == stop_at) picotm_error_set_errno(e, EINTR);
}
void h_iter(void)
{
    static const unsigned short sets[] = { 0, 1, 3, 0x14, 0x16 };
    for (unsigned z = 0; z < 5; ++z) {
        unsigned s = sets[z];
        for (stop_at = 0; stop_at < 4; stop_at += 1 + 2 * (z < 3)) {
            mk();
            for (unsigned i = 0; i < NK; ++i) if (s >> i & 1) find(keys[i], true);
                    for (unsigned i = 0; i < NVAL; ++i) visits[i] = 0;
            nvisit = 0;
            picotm_treemap_for_each_value(&map, &nvisit, call, &err);
            if (stop_at < nval) VP_ASSERT(picotm_error_is_set(&err) && nvisit == stop_at + 1, "iteration stops at an error");
            else VP_ASSERT(!picotm_error_is_set(&err) && nvisit == nval, "iteration visits all values");
            for (unsigned i = 0; i < nval; ++i) VP_ASSERT(visits[i] <= 1, "each value is visited once");
            picotm_error_clear(&err);
            finish();
        }
    }
    VP_REACH("iter");
}
#else
void h_race(void)
{
    for (unsigned i = RI; i < RI + 1; ++i)
        for (unsigned j = 0; j < NK; j += RSTEP)
            for (int at = 0; at < NRACE; ++at)
                for (unsigned w = 0; w < 2; ++w) {
                    mk();
                    if (w) find(keys[1], true);
                    unsigned n0 = nval;
                    env_key = keys[j]; env_at = at; env_n = 0;
                    uintptr_t a = find(keys[i], true);
                    bool ran = env_n > env_at;
                    env_at = -1;
                    VP_ASSERT(!picotm_error_is_set(&err) && isval(a) && vkey[NUM(a)] == keys[i] && !destroyed[NUM(a)], "a live value of the key is returned");
                    VP_ASSERT(find(keys[i], true) == a, "the value stays the same");
                    if (ran) {
                        VP_ASSERT(isval(env_val) && vkey[NUM(env_val)] == keys[j] && !destroyed[NUM(env_val)], "the other thread has a live value of its key");
                        VP_ASSERT((env_val == a) == (i == j), "both threads have the same value exactly for the same key");
                        VP_ASSERT(find(keys[j], true) == env_val, "the other thread's value stays the same");
                    }
                    VP_ASSERT(at < NRACE - 1 || !ran, "every step is covered");
                    for (unsigned v = 0; v < nval; ++v) VP_ASSERT(destroyed[v] <= 1 && (!destroyed[v] || (v >= n0 && i == j)), "only a value that lost the race is destroyed");
                    finish();
                }
    VP_REACH("race");
}
#endif
