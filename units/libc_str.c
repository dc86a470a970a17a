/* libc string, memory and allocation functions over privatized memory.
 *
 * View of byte i of the transaction: priv[i] ? raw[i] : val[i]. A byte's raw content is wrong (val ^ 0x55) until the
 * transaction privatized it. obj[i] marks the bytes the C function may access for these arguments. */
#include "vp.h"
#include <strings.h>
#include <locale.h>
#include <malloc.h>
#ifdef VP_CBMC
#undef errno
int vp_errno;
#define errno vp_errno
#endif
#ifndef N
#define N 16
#endif
#define A 1
#ifndef B
#define B 9
#endif
#ifndef CAP
#define CAP 5
#endif
typedef uint8_t* vp_ptr_t;
static uint8_t raw[N], val[N], ex[N], priv[N], obj[N];
static bool strict;
static uint8_t blk[64]; static size_t blk_n; static bool blk_have; static size_t blk_set; static int blk_fill = -1;
static char* sv_view; static bool sv_priv; static char* sv;
static void* mp; static bool mp_priv;
#ifdef VP_CBMC
#define IN(p, o) __CPROVER_same_object(p, o)
#else
#define IN(p, o) ((const uint8_t*)(p) >= (const uint8_t*)(o) && (const uint8_t*)(p) <= (const uint8_t*)(o) + sizeof(o))
#endif
static void chk(const void* p, int f)
{
    if (IN(p, raw)) {
        size_t i = (const uint8_t*)p - raw;
        VP_ASSERT(i < N && obj[i], "only the objects' bytes are accessed");
        VP_ASSERT(priv[i] & f, "accessed bytes are privatized for the access");
    } else if (IN(p, blk))
        VP_ASSERT((size_t)((const uint8_t*)p - blk) < blk_n, "only the new block's bytes are accessed");
}
static uint8_t rd(const void* p) { chk(p, 1); return *(const uint8_t*)p; }
static void wr(void* p, uint8_t v) { chk(p, 2); *(uint8_t*)p = v; }

/* --- the C functions ------------------------------------------------------------------------------------- */
static size_t v_strlen(const char* s) { size_t n = 0; while (rd(s + n)) ++n; return n; }
static size_t v_strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && rd(s + n)) ++n; return n; }
static void* v_memcpy(void* d, const void* s, size_t n) { for (size_t i = 0; i < n; ++i) wr((uint8_t*)d + i, rd((const uint8_t*)s + i)); return d; }
static void* v_memmove(void* d, const void* s, size_t n)
{
    uint8_t t[N];
    for (size_t i = 0; i < n; ++i) t[i] = rd((const uint8_t*)s + i);
    for (size_t i = 0; i < n; ++i) wr((uint8_t*)d + i, t[i]);
    return d;
}
static void* v_memset(void* d, int c, size_t n)
{
    if (IN(d, blk)) {
        VP_ASSERT(n <= blk_n, "only the new block's bytes are accessed");
        blk_set = n;
        blk_fill = (uint8_t)c;
        return d;
    }
    for (size_t i = 0; i < n; ++i) wr((uint8_t*)d + i, c);
    return d;
}
static void* v_memccpy(void* d, const void* s, int c, size_t n)
{
    for (size_t i = 0; i < n; ++i) {
        uint8_t b = rd((const uint8_t*)s + i);
        wr((uint8_t*)d + i, b);
        if (b == (uint8_t)c) return (uint8_t*)d + i + 1;
    }
    return NULL;
}
static void* v_memchr(const void* s, int c, size_t n) { for (size_t i = 0; i < n; ++i) if (rd((const uint8_t*)s + i) == (uint8_t)c) return (uint8_t*)s + i; return NULL; }
static void* v_memrchr(const void* s, int c, size_t n) { for (size_t i = n; i > 0; --i) if (rd((const uint8_t*)s + i - 1) == (uint8_t)c) return (uint8_t*)s + i - 1; return NULL; }
static void* v_rawmemchr(const void* s, int c) { const uint8_t* p = s; while (rd(p) != (uint8_t)c) ++p; return (void*)p; }
static int v_memcmp(const void* s, const void* t, size_t n)
{
    for (size_t i = 0; i < n; ++i) { int x = rd((const uint8_t*)s + i), y = rd((const uint8_t*)t + i); if (x != y) return x < y ? -1 : 1; }
    return 0;
}
static int v_strncmp(const char* s, const char* t, size_t n)
{
    for (size_t i = 0; i < n; ++i) { int x = rd(s + i), y = rd(t + i); if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
    return 0;
}
static int v_strcmp(const char* s, const char* t) { return v_strncmp(s, t, N); }
static int v_strcoll_l(const char* s, const char* t, locale_t l) { return v_strncmp(s, t, N); }
static char* v_stpcpy(char* d, const char* s) { size_t i = 0; for (;; ++i) { uint8_t c = rd(s + i); wr(d + i, c); if (!c) return d + i; } }
static char* v_strcpy(char* d, const char* s) { v_stpcpy(d, s); return d; }
static char* v_stpncpy(char* d, const char* s, size_t n)
{
    size_t i = 0, e;
    for (; i < n; ++i) { uint8_t c = rd(s + i); if (!c) break; wr(d + i, c); }
    for (e = i; i < n; ++i) wr(d + i, 0);
    return d + e;
}
static char* v_strncpy(char* d, const char* s, size_t n) { v_stpncpy(d, s, n); return d; }
static char* v_strcat(char* d, const char* s) { v_stpcpy(d + v_strlen(d), s); return d; }
static char* v_strncat(char* d, const char* s, size_t n)
{
    size_t l = v_strlen(d), i = 0;
    for (; i < n; ++i) { uint8_t c = rd(s + i); if (!c) break; wr(d + l + i, c); }
    wr(d + l + i, 0);
    return d;
}
static char* v_strchr(const char* s, int c) { for (;; ++s) { uint8_t x = rd(s); if (x == (uint8_t)c) return (char*)s; if (!x) return NULL; } }
static char* v_strrchr(const char* s, int c) { const char* r = NULL; for (;; ++s) { uint8_t x = rd(s); if (x == (uint8_t)c) r = s; if (!x) return (char*)r; } }
static bool in_set(uint8_t c, const char* s) { for (;; ++s) { uint8_t x = rd(s); if (!x) return false; if (x == c) return true; } }
static size_t v_strspn(const char* s, const char* a) { size_t n = 0; for (;; ++n) { uint8_t c = rd(s + n); if (!c || !in_set(c, a)) return n; } }
static size_t v_strcspn(const char* s, const char* a) { size_t n = 0; for (;; ++n) { uint8_t c = rd(s + n); if (!c || in_set(c, a)) return n; } }
static char* v_strpbrk(const char* s, const char* a) { s += v_strcspn(s, a); return rd(s) ? (char*)s : NULL; }
static char* v_strstr(const char* h, const char* n)
{
    size_t l = v_strlen(n), hl = v_strlen(h);
    for (size_t i = 0; i + l <= hl; ++i) if (!v_strncmp(h + i, n, l)) return (char*)h + i;
    return NULL;
}
static char* v_strtok_r(char* s, const char* d, char** p)
{
    if (!s) s = *p;
    if (!s) return NULL;
    s += v_strspn(s, d);
    if (!rd(s)) { *p = s; return NULL; }
    char* e = s + v_strcspn(s, d);
    if (rd(e)) { wr(e, 0); ++e; }
    *p = e;
    return s;
}
static bool q_done;
static void v_qsort(void* b, size_t n, size_t w, int (*c)(const void*, const void*))
{
    for (size_t i = 0; i < n * w; ++i) chk((uint8_t*)b + i, 1), chk((uint8_t*)b + i, 2);
    q_done = true;
}
static int v_rand_r(unsigned int* s) { for (size_t i = 0; i < sizeof(*s); ++i) { chk((uint8_t*)s + i, 1); chk((uint8_t*)s + i, 2); } return ++*s; }

#define uintptr_t vp_ptr_t
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-tm.h"
#include "allocator/module.h"
#include "error/module.h"
#include "fildes/module.h"
#include "picotm/stdlib.h"
#include "picotm/string.h"
#include "picotm/stdlib-tm.h"
#include "picotm/string-tm.h"

#define CW(x) x
#define memccpy v_memccpy
#define memchr v_memchr
#define memcmp v_memcmp
#define memcpy v_memcpy
#define memmove v_memmove
#define memset v_memset
#define memrchr v_memrchr
#define rawmemchr v_rawmemchr
#define stpcpy v_stpcpy
#define stpncpy v_stpncpy
#define strcat v_strcat
#define strchr v_strchr
#define strcmp v_strcmp
#define strcoll_l v_strcoll_l
#define strcpy v_strcpy
#define strcspn v_strcspn
#define strlen v_strlen
#define strncat v_strncat
#define strncmp v_strncmp
#define strncpy v_strncpy
#define strnlen v_strnlen
#define strpbrk v_strpbrk
#define strrchr v_strrchr
#define strspn v_strspn
#define strstr v_strstr
#define strtok_r v_strtok_r
#define qsort v_qsort
#define rand_r v_rand_r
#define malloc_usable_size v_usable
static size_t v_usable(void* p);
static size_t A_n; /* size of the object at A, if it is a heap block */
static size_t v_usable(void* p) { return p ? A_n : 0; }

#include "modules/libc/src/string.c"
#include "modules/libc/src/string-tm.c"
#include "modules/libc/src/stdlib.c"
#include "modules/libc/src/stdlib-tm.c"

/* --- the transactional memory module, by its contract (properties T01 to T03) ------------------------------- */
static uint8_t view(size_t i) { return priv[i] ? raw[i] : val[i]; }
static size_t at(vp_ptr_t a)
{
    VP_ASSERT(IN(a, raw), "transactional accesses stay within the objects");
    size_t i = a - raw;
    VP_ASSERT(i < N && obj[i], "transactional accesses stay within the objects");
    VP_ASSERT(priv[i] != 128, "discarded memory is not accessed");
    return i;
}
void __picotm_tm_load(vp_ptr_t a, void* buf, size_t n)
{
    if (a == (vp_ptr_t)&sv) { VP_ASSERT(n == sizeof(sv), "the pointer is loaded as a whole"); *(char**)buf = sv_view; return; }
    for (size_t i = 0; i < n; ++i) wr((uint8_t*)buf + i, view(at(a + i)));
}
static void put(vp_ptr_t a, uint8_t v) { size_t i = at(a); if (priv[i]) raw[i] = v; else val[i] = v; }
void __picotm_tm_store(vp_ptr_t a, const void* buf, size_t n)
{
    if (a == (vp_ptr_t)&sv) { VP_ASSERT(n == sizeof(sv), "the pointer is stored as a whole"); sv_view = *(char**)buf; return; }
    for (size_t i = 0; i < n; ++i) put(a + i, rd((const uint8_t*)buf + i));
}
void __picotm_tm_loadstore(vp_ptr_t l, vp_ptr_t s, size_t n)
{
    for (size_t i = 0; i < n; ++i) put(s + i, view(at(l + i)));
}
static void privatize1(vp_ptr_t a, unsigned long f)
{
    size_t i = at(a);
    if (!f) { priv[i] = 128; return; }
    if (!priv[i]) raw[i] = val[i];
    priv[i] |= f;
}
void __picotm_tm_privatize(vp_ptr_t a, size_t n, unsigned long f)
{
    if (a == (vp_ptr_t)&mp) { VP_ASSERT(n == sizeof(mp), "the pointer is privatized as a whole"); mp_priv = f & 2; return; }
    for (size_t i = 0; i < n; ++i) privatize1(a + i, f);
}
void __picotm_tm_privatize_c(vp_ptr_t a, int c, unsigned long f)
{
    for (;; ++a) { uint8_t v = view(at(a)); privatize1(a, f); if (v == (uint8_t)c) return; }
}

/* --- picotm and the allocator by contract (M01) ------------------------------------------------------------- */
static bool g_may_fail, g_failed, g_freed; static size_t g_need; static bool g_over; static size_t g_align;
static void stop(void) { __CPROVER_assume(0);
#ifdef VP_NATIVE
    _Exit(0);
#endif
}
void picotm_recover_from_error(const struct picotm_error* e) { VP_ASSERT(g_failed, "only errors are reported"); stop(); }
void picotm_recover_from_errno(int e) { VP_ASSERT(g_over, "only errors are reported"); stop(); }
void picotm_error_set_errno(struct picotm_error* e, int c) { e->status = PICOTM_ERRNO; e->value.errno_hint = c; }
void __picotm_commit(void) { }
void error_module_save_errno(struct picotm_error* e) { if (g_may_fail && vp_bool()) { g_failed = true; e->status = PICOTM_CONFLICTING; } }
static void* get_block(size_t n, struct picotm_error* e)
{
    VP_ASSERT(!g_over, "sizes that cannot be allocated are reported");
    VP_ASSERT(n >= g_need, "the new block is large enough");
    VP_ASSERT(!blk_have, "one block is allocated");
    if (g_may_fail && vp_bool()) { g_failed = true; picotm_error_set_errno(e, ENOMEM); return NULL; }
    blk_have = true;
    blk_n = n;
    return blk;
}
int allocator_module_posix_memalign(void** p, size_t a, size_t n, struct picotm_error* e)
{
    g_align = a;
    void* b = get_block(n, e);
    if (!b) return ENOMEM;
    VP_ASSERT(p != &mp || mp_priv, "accessed bytes are privatized for the access");
    *p = b;
    return 0;
}
void* allocator_module_malloc(size_t n, struct picotm_error* e) { return get_block(n, e); }
void allocator_module_free(void* p, size_t n, struct picotm_error* e)
{
    VP_ASSERT(p == raw + A && !g_freed, "the block is freed once");
    for (size_t i = 0; i < CAP; ++i)
        VP_ASSERT(i >= A_n || priv[A + i], "no buffered store to a freed block is left");
    g_freed = true;
}

/* --- harnesses ----------------------------------------------------------------------------------------------- */
#define a_ ((void*)(raw + A))
#define b_ ((void*)(raw + B))
#define ea ((void*)(ex + A))
#define eb ((void*)(ex + B))
static void start(void)
{
    for (size_t i = 0; i < N; ++i) {
        val[i] = ex[i] = vp_u8();
        raw[i] = val[i] ^ 0x55;
    }
}
static void own(size_t at, size_t n) { for (size_t i = 0; i < CAP; ++i) if (i < n) obj[at + i] = 1; }
/* a string of at most CAP - 1 characters: returns its size with the terminator */
static size_t str(size_t at)
{
    size_t n = 0;
    while (n < CAP && val[at + n]) ++n;
    VP_ASSUME(n < CAP);
    own(at, n + 1);
    return n + 1;
}
/* an array of at least n characters or a string */
static size_t strn(size_t at, size_t n)
{
    size_t k = 0;
    while (k < CAP && k < n && val[at + k]) ++k;
    VP_ASSUME(k < CAP || k == n);
    own(at, k < n ? k + 1 : n);
    return k;
}
static size_t g_n;
static size_t small(void) { return g_n; }
static void finish_(void)
{
    for (size_t i = 0; i < N; ++i)
        VP_ASSERT(view(i) == ex[i], "memory holds what the C function leaves there");
}
static void SAMEP(const void* r, const void* e)
{
    VP_ASSERT(r == NULL ? e == NULL : e != NULL && IN(r, raw) && (const uint8_t*)r == raw + ((const uint8_t*)e - ex), "the result is that of the C function");
}
#define SAME(r, e) VP_ASSERT((r) == (e), "the result is that of the C function")
#define SIGN(r, e) VP_ASSERT((((r) > 0) - ((r) < 0)) == (e), "the result is that of the C function")
#define END finish_(); VP_REACH("done")
/* every size as a constant */
#define P(x) VP_MAIN(h_##x)
#define H(x) static void t_##x(void); VP_MAIN(h_##x) { size_t s_ = vp_below(CAP + 1); for (size_t k_ = 0; k_ <= CAP; ++k_) if (s_ == k_) { g_n = k_; t_##x(); stop(); } } static void t_##x(void)

H(memccpy) { start(); size_t n = small(); own(A, n); own(B, n); int c = vp_int(); void* r = memccpy_tx(b_, a_, c, n); void* e = v_memccpy(eb, ea, c, n); SAMEP(r, e); END; }
H(memchr) { start(); size_t n = small(); own(A, n); int c = vp_int(); void* r = memchr_tx(a_, c, n); SAMEP(r, v_memchr(ea, c, n)); END; }
H(memrchr) { start(); size_t n = small(); own(A, n); int c = vp_int(); void* r = memrchr_tx(a_, c, n); SAMEP(r, v_memrchr(ea, c, n)); END; }
H(rawmemchr) { start(); int c = vp_int(); size_t n = small(); VP_ASSUME(v_memchr(ea, c, n) == (void*)(ex + A + n - 1)); own(A, n); void* r = rawmemchr_tx(a_, c); SAMEP(r, v_rawmemchr(ea, c)); END; }
H(memcmp) { start(); size_t n = small(); own(A, n); own(B, n); int r = memcmp_tx(a_, b_, n); SIGN(r, v_memcmp(ea, eb, n)); END; }
H(memcpy) { start(); size_t n = small(); own(A, n); own(B, n); void* r = memcpy_tx(b_, a_, n); SAMEP(r, v_memcpy(eb, ea, n)); END; }
H(memset) { start(); size_t n = small(); own(A, n); int c = vp_int(); void* r = memset_tx(a_, c, n); SAMEP(r, v_memset(ea, c, n)); END; }
H(memmove)
{
    start(); size_t n = small(), o = vp_below(CAP); bool up = vp_bool();
    size_t s = A, d = A + o; if (up) { s = A + o; d = A; }
    own(s, n); own(d, n);
    void* r = memmove_tx(raw + d, raw + s, n); void* e = v_memmove(ex + d, ex + s, n); SAMEP(r, e); END;
}
P(stpcpy) { start(); own(B, str(A)); char* r = stpcpy_tx(b_, a_); SAMEP(r, v_stpcpy(eb, ea)); END; }
P(strcpy) { start(); own(B, str(A)); char* r = strcpy_tx(b_, a_); SAMEP(r, v_strcpy(eb, ea)); END; }
H(stpncpy) { start(); size_t n = small(); strn(A, n); own(B, n); char* r = stpncpy_tx(b_, a_, n); SAMEP(r, v_stpncpy(eb, ea, n)); END; }
H(strncpy) { start(); size_t n = small(); strn(A, n); own(B, n); char* r = strncpy_tx(b_, a_, n); SAMEP(r, v_strncpy(eb, ea, n)); END; }
P(strcat) { start(); size_t l = str(A), m = str(B); VP_ASSUME(l + m - 1 <= CAP + 1); for (size_t i = 0; i < CAP + 1; ++i) if (i < l + m - 1) obj[B + i] = 1; char* r = strcat_tx(b_, a_); SAMEP(r, v_strcat(eb, ea)); END; }
H(strncat) { start(); size_t n = small(), l = strn(A, n), m = str(B); VP_ASSUME(l + m <= CAP + 1); for (size_t i = 0; i < CAP + 1; ++i) if (i < l + m) obj[B + i] = 1; char* r = strncat_tx(b_, a_, n); SAMEP(r, v_strncat(eb, ea, n)); END; }
P(strchr) { start(); str(A); int c = vp_int(); char* r = strchr_tx(a_, c); SAMEP(r, v_strchr(ea, c)); END; }
P(strrchr) { start(); str(A); int c = vp_int(); char* r = strrchr_tx(a_, c); SAMEP(r, v_strrchr(ea, c)); END; }
P(strcmp) { start(); str(A); str(B); int r = strcmp_tx(a_, b_); SIGN(r, v_strcmp(ea, eb)); END; }
P(strcoll_l) { start(); str(A); str(B); int r = strcoll_l_tx(a_, b_, 0); SIGN(r, v_strcmp(ea, eb)); END; }
H(strncmp) { start(); size_t n = small(); strn(A, n); strn(B, n); int r = strncmp_tx(a_, b_, n); SIGN(r, v_strncmp(ea, eb, n)); END; }
P(strspn) { start(); str(A); str(B); SAME(strspn_tx(a_, b_), v_strspn(ea, eb)); END; }
P(strcspn) { start(); str(A); str(B); SAME(strcspn_tx(a_, b_), v_strcspn(ea, eb)); END; }
P(strpbrk) { start(); str(A); str(B); char* r = strpbrk_tx(a_, b_); SAMEP(r, v_strpbrk(ea, eb)); END; }
P(strstr) { start(); str(A); str(B); char* r = strstr_tx(a_, b_); SAMEP(r, v_strstr(ea, eb)); END; }
P(strlen) { start(); str(A); SAME(strlen_tx(a_), v_strlen(ea)); END; }
H(strnlen) { start(); size_t n = small(); strn(A, n); SAME(strnlen_tx(a_, n), v_strnlen(ea, n)); END; }
P(strtok_r)
{
    start(); str(A); str(B);
    char* es; char* s = a_; char* e = ea;
    bool first = vp_bool();
    if (first) { sv = sv_view = b_; es = NULL; }
    else { sv_view = a_; sv = b_; es = ea; s = NULL; e = NULL; } /* memory still has an old value */
    char* r = strtok_r_tx(s, b_, &sv);
    SAMEP(r, v_strtok_r(e, eb, &es));
    SAMEP(sv_view, es);
    END;
}
/* concrete sizes around the buffer size of chunked copies */
#ifdef BIG
static void big(size_t n, size_t s, size_t d)
{
    for (size_t i = 0; i < n; ++i) obj[s + i] = obj[d + i] = 1;
#if BIG == 1
    void* r = memmove_tx(raw + d, raw + s, n); void* e = v_memmove(ex + d, ex + s, n);
#elif BIG == 2
    const int c = 0x178;
    for (size_t i = 0; i < N; ++i) { val[i] = ex[i] = i == s + BM ? 0x78 : (i * 7) | 0x80; raw[i] = 0; }
    void* r = memccpy_tx(raw + d, raw + s, c, n); void* e = v_memccpy(ex + d, ex + s, c, n);
#else
    int c = vp_int();
    void* r = memset_tx(raw + d, c, n); void* e = v_memset(ex + d, c, n);
#endif
    SAMEP(r, e); finish_();
}
P(big) { start(); big(BN, BS, BD); VP_REACH("done"); }
#endif
/* allocation */
static void want(size_t n) { g_need = n; g_may_fail = true; }
VP_MAIN(h_calloc)
{
    static const size_t M[] = {0, 1, 2, 3, 5, 8, 24, 4096, 65537, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 63, SIZE_MAX / 2, SIZE_MAX};
    size_t k = vp_below(sizeof(M) / sizeof(M[0])), n = vp_size();
    for (size_t i = 0; i < sizeof(M) / sizeof(M[0]); ++i)
        if (i == k) {
            size_t m = M[i];
            unsigned __int128 p = (unsigned __int128)n * m;
            g_over = p > SIZE_MAX;
            want((size_t)p);
            void* r = calloc_tx(n, m);
            VP_ASSERT(r == blk && blk_have, "the new block is returned");
            VP_ASSERT(blk_set >= (size_t)p && blk_fill == 0, "the new block is zero");
            VP_ASSERT(g_align % _Alignof(max_align_t) == 0, "the new block is aligned");
            if (m) VP_REACH("done");
            stop();
        }
}
P(malloc) { size_t n = vp_size(); want(n); void* r = malloc_tx(n); VP_ASSERT(r == blk && blk_have, "the new block is returned"); VP_REACH("done"); }
P(memalign)
{
    size_t n = vp_size(); want(n);
    int r = posix_memalign_tx(&mp, 64, n);
    VP_ASSERT(r == 0 && mp == blk && g_align == 64, "the new block is returned");
    VP_REACH("done");
}
static void same_block(const char* r, size_t n)
{
    VP_ASSERT(r == (char*)blk, "the new block is returned");
    for (size_t i = 0; i < CAP; ++i) VP_ASSERT(i >= n || blk[i] == ex[A + i], "the new block has the content");
}
P(strdup) { start(); size_t n = str(A); want(n); same_block(strdup_tx(a_), n); END; }
H(strndup) { start(); size_t n = small(), k = strn(A, n); want(k + 1); char* r = strndup_tx(a_, n); same_block(r, k); VP_ASSERT(blk[k] == 0, "the new block has the content"); END; }
static void realloc_(bool tm)
{
    start();
    A_n = small(); own(A, A_n);
    VP_ASSUME(A_n > 0);
    size_t n = small();
    bool null = vp_bool();
    if (null) A_n = 0;
    if (tm) for (size_t i = 0; i < CAP; ++i) if (i < A_n) { priv[A + i] = 3; raw[A + i] = val[A + i]; }
    want(n);
    char* r = tm ? realloc_tm(null ? NULL : a_, n) : realloc_tx(null ? NULL : a_, n);
    if (n) same_block(r, null ? 0 : n < A_n ? n : A_n);
    else VP_ASSERT(r == NULL && !blk_have, "no block is returned");
    VP_ASSERT(g_freed == !null, "the old block is freed");
    VP_REACH("done");
}
H(realloc) { realloc_(false); }
H(realloc_tm) { realloc_(true); }
H(free) { start(); A_n = small(); own(A, A_n); free_tx(a_); VP_ASSERT(g_freed, "the block is freed"); VP_REACH("done"); }
P(qsort) { start(); size_t n = vp_below(3), w = vp_below(3); own(A, n * w); qsort_tx(a_, n, w, NULL); VP_ASSERT(q_done, "the array is sorted"); END; }
