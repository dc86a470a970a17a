/* table.c and picotm-lib-tab.c */
#include "vp.h"
#include "src/picotm-error.c"
static void* vp_realloc(void* p, size_t n);
#define realloc vp_realloc
#include "src/table.c"
#undef realloc
#include "src/picotm-lib-tab.c"

#ifndef SIZ
#define SIZ 8
#endif
static struct picotm_error err;

/* ---- resize: realloc by its C contract; one arbitrary byte g_k of the content is tracked ---- */
static unsigned char* g_mem; /* the live block */
static size_t g_cap;
static size_t g_k;
static unsigned g_fails;
static bool g_infail;
static void* vp_realloc(void* p, size_t n)
{
    VP_ASSERT(p == g_mem, "only the table's own block is resized");
    if (n == 0) { g_mem = NULL; g_cap = 0; return NULL; }
    if (vp_bool() || n > PTRDIFF_MAX) { errno = ENOMEM; ++g_fails; return NULL; }
    unsigned char* q = malloc(n);
    VP_ASSUME(q != NULL);
    if (p && g_k < g_cap && g_k < n) q[g_k] = g_mem[g_k];
    g_mem = q; g_cap = n;
    return q;
}
static bool fits(size_t n, size_t cap) { return (unsigned __int128)n * SIZ <= cap; }
void h_resize(void)
{
    err = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
    g_k = vp_u64();
    if (vp_bool()) { /* an earlier request of another table ran out of memory */
        picotm_tabresize(NULL, 0, 1, SIZ, &err);
        g_mem = NULL; g_cap = 0;
        picotm_error_clear(&err);
    }
    size_t n = vp_u64(), m = vp_u64();
    void* t = NULL;
    if (vp_bool()) n = 0;
    else {
        VP_ASSUME(n > 0);
        t = picotm_tabresize(NULL, 0, n, SIZ, &err);
        if (picotm_error_is_set(&err)) {
            VP_ASSERT(!t && !g_mem, "a failed allocation returns nothing");
            VP_REACH("no table");
            return;
        }
    }
    VP_ASSERT(t == g_mem && fits(n, g_cap), "a table has room for all its elements");
    unsigned char b = 0;
    if (g_k < g_cap) { b = vp_u8(); g_mem[g_k] = b; }
    void* old = g_mem; size_t oldcap = g_cap;
    g_fails = 0;
    void* t2 = picotm_tabresize(t, n, m, SIZ, &err);
    if (picotm_error_is_set(&err)) {
        VP_ASSERT(!t2 && g_mem == old && g_cap == oldcap, "a failed resize leaves the table as it was");
        VP_ASSERT(err.status == PICOTM_ERRNO && err.value.errno_hint == ENOMEM, "a failed resize reports out of memory");
        VP_ASSERT(m != 0, "releasing a table does not fail");
        if (g_k < n * SIZ) VP_ASSERT(g_mem[g_k] == b, "a failed resize keeps the elements");
        VP_REACH("failed");
        return;
    }
    VP_ASSERT(t2 == g_mem, "the resized table is returned");
    VP_ASSERT(fits(m, g_cap), "a resized table has room for all its elements");
    if (m && g_k < n * SIZ && g_k < m * SIZ) VP_ASSERT(((unsigned char*)t2)[g_k] == b, "a resized table keeps its elements");
    VP_REACH("ok");
    if (m == n) VP_REACH("same");
}

/* ---- walks: elements are visited in order, each once ---- */
static unsigned char* g_tab;
static size_t g_n, g_pos, g_err_at;
static bool g_bad;
static int d1, d2;
#ifdef REVERSE
#define AT(e) ((unsigned char*)(e) == g_tab + (g_n - g_pos) * SIZ - SIZ)
#else
#define AT(e) ((unsigned char*)(e) == g_tab + g_pos * SIZ)
#endif
static size_t cb(void* e, struct picotm_error* error)
{
    if (g_pos >= g_n || !AT(e)) g_bad = true;
    if (g_pos >= g_err_at) { error->status = PICOTM_ERROR_CODE; return 0; }
    size_t inc = vp_u64();
    VP_ASSUME(inc >= 1 && inc <= g_n - g_pos);
    g_pos += inc;
    return inc;
}
static size_t cb2(void* e, void* a, struct picotm_error* error) { if (a != &d1) g_bad = true; return cb(e, error); }
static size_t cb3(void* e, void* a, void* b, struct picotm_error* error) { if (b != &d2) g_bad = true; return cb2(e, a, error); }
void h_walk(void)
{
    err = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
    g_pos = 0; g_bad = false;
#if defined(VP_BOUNDED) || defined(VP_NATIVE)
    static unsigned char tab[8 + 4 * SIZ];
    g_n = vp_below(5);
    g_tab = tab + 8;
#else
    g_n = vp_u64();
    VP_ASSUME(g_n < (1ul << 40) / SIZ);
    g_tab = malloc(g_n * SIZ);
    VP_ASSUME(g_tab != NULL);
#endif
    g_err_at = vp_u64();
    size_t r = WALK;
    VP_ASSERT(!g_bad, "elements are visited in turn, with their data");
    VP_ASSERT(r == g_pos, "the number of walked elements is returned");
    if (g_err_at < g_n && g_pos < g_n) {
        VP_ASSERT(picotm_error_is_set(&err) && g_pos >= g_err_at, "a walk stops only at an error");
        VP_REACH("stopped");
    } else {
        VP_ASSERT(g_pos == g_n && !picotm_error_is_set(&err), "every element is visited");
        VP_REACH("all");
    }
}
/* an empty table that was never allocated */
void h_walk_none(void)
{
    err = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
    g_tab = NULL; g_n = 0;
    size_t r = picotm_tabwalk_1(NULL, 0, SIZ, cb, &err) + picotm_tabwalk_2(NULL, 0, SIZ, cb2, &d1, &err)
        + picotm_tabwalk_3(NULL, 0, SIZ, cb3, &d1, &d2, &err);
    r += picotm_tabrwalk_1(NULL, 0, SIZ, cb, &err) + picotm_tabrwalk_2(NULL, 0, SIZ, cb2, &d1, &err);
    r += picotm_tabuniq(NULL, 0, SIZ, NULL);
    VP_ASSERT(r == 0 && !g_bad && !picotm_error_is_set(&err), "a walk over no element calls nothing");
    VP_REACH("none");
}
/* ---- unique ---- */
#ifndef NU
#define NU 5
#endif
struct el { unsigned char key, rest[SIZ - 1]; };
static struct el u[NU], o[NU];
static int cmp(const void* a, const void* b) { return ((const struct el*)a)->key - ((const struct el*)b)->key; }
void h_uniq(void)
{
    size_t n = vp_below(NU + 1), r, d = 0;
    for (size_t i = 0; i < NU; ++i) {
        u[i].key = vp_u8();
        u[i].rest[0] = u[i].rest[SIZ - 2] = u[i].key ^ 0x5a; /* the rest of the element goes with its key */
        if (i && i < n) VP_ASSUME(u[i - 1].key <= u[i].key);
        o[i] = u[i];
        if (i < n && (!i || u[i - 1].key != u[i].key)) ++d;
    }
    r = picotm_tabuniq(u, n, SIZ, cmp);
    VP_ASSERT(r == d, "the number of distinct elements is returned");
    for (size_t i = 0; i < NU; ++i) {
        if (i < r) {
            VP_ASSERT(u[i].rest[0] == (u[i].key ^ 0x5a) && u[i].rest[SIZ - 2] == u[i].rest[0], "elements are kept whole");
            if (i) VP_ASSERT(u[i - 1].key < u[i].key, "the result is sorted without duplicates");
        }
        if (i < n) {
            bool f = false;
            for (size_t j = 0; j < NU; ++j) if (j < r && u[j].key == o[i].key) f = true;
            VP_ASSERT(f, "one of each value is kept");
        }
    }
    VP_REACH("end");
}
