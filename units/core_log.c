/* picotm_event.c and picotm_log.c for logs of every length. */
#include "vp.h"
#include "src/picotm-error.c"
#include "src/picotm_event.c"
#include "src/picotm_log.c"

static struct picotm_error err;
static struct picotm_event* g_tab;
static size_t g_n, g_calls, g_err_at;
static bool g_bad;

#ifndef NE
#define NE 4
#endif
/* stands for any handler: the g_err_at-th call fails; checks that it is handed the right event */
static void rec_fwd(struct picotm_event* e, void* data, struct picotm_error* error)
{
    if (e != g_tab + g_calls || data != &g_n || error != &err) g_bad = true;
    if (g_calls == g_err_at) error->status = 1;
    ++g_calls;
}
static void rec_rev(struct picotm_event* e, void* data, struct picotm_error* error)
{
    if (e != g_tab + (g_n - 1 - g_calls) || data != &g_n || error != &err) g_bad = true;
    if (g_calls == g_err_at) error->status = 1;
    ++g_calls;
}
static void mk_events(void)
{
    g_calls = 0; g_bad = false;
    err = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
#if defined(VP_BOUNDED) || defined(VP_NATIVE)
    static struct picotm_event tab[NE];
    g_n = vp_below(NE + 1);
    g_tab = tab;
#else
    g_n = vp_u64();
    VP_ASSUME(g_n < (1ul << 40) / sizeof(struct picotm_event));
    g_tab = malloc(g_n * sizeof(struct picotm_event));
    VP_ASSUME(g_tab != NULL);
#endif
    g_err_at = vp_u64();
}
static void done(void)
{
    VP_ASSERT(!g_bad, "each event is handed on in turn, with its data and error");
    if (g_err_at < g_n) {
        VP_ASSERT(g_calls == g_err_at + 1 && picotm_error_is_set(&err), "processing stops at the first error");
    } else {
        VP_ASSERT(g_calls == g_n && !picotm_error_is_set(&err), "every event is handed on exactly once");
    }
    VP_REACH("done");
}
void h_fwd(void) { mk_events(); picotm_events_foreach1(g_tab, g_tab + g_n, &g_n, rec_fwd, &err); done(); }
void h_rev(void) { mk_events(); picotm_events_rev_foreach1(g_tab, g_tab + g_n, &g_n, rec_rev, &err); done(); }

/* log: one arbitrary earlier event (free index) is tracked */
static struct picotm_log log_;
static size_t g_i, g_old_n, g_old_cap;
static bool g_resized, g_fail;
static struct picotm_event old_i;
void* tabresize(void* restrict base, size_t nelems, size_t newnelems, size_t siz, struct picotm_error* error)
{
    VP_ASSERT(base == log_.eventtab && nelems == g_old_cap && siz == sizeof(struct picotm_event), "the log resizes its own table");
    VP_ASSERT(newnelems > nelems, "the table only grows");
    if (vp_bool()) { g_fail = true; picotm_error_set_errno(error, ENOMEM); return NULL; }
    g_resized = true;
    struct picotm_event* t = malloc(newnelems * siz);
    VP_ASSUME(t != NULL);
    if (g_i < nelems) t[g_i] = ((struct picotm_event*)base)[g_i];
    return t;
}
static unsigned g_freed;
void tabfree(void* restrict base) { VP_ASSERT(base == log_.eventtab, "the log frees its own table"); g_freed++; }
static bool same(const struct picotm_event* a, const struct picotm_event* b)
{
    return a->module == b->module && a->head == b->head && a->tail == b->tail;
}
static void mk_log(void)
{
    err = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
    picotm_log_init(&log_);
    VP_ASSERT(picotm_log_begin(&log_) == picotm_log_end(&log_), "a new log is empty");
    VP_REACH("new");
    g_old_cap = 1 + vp_below(1000000);
    g_old_n = vp_below(1000000);
    VP_ASSUME(g_old_n <= g_old_cap);
    log_.eventtab = malloc(g_old_cap * sizeof(struct picotm_event));
    VP_ASSUME(log_.eventtab != NULL);
    log_.eventtabsiz = g_old_cap; log_.eventtablen = g_old_n;
    g_i = vp_below(1000000);
    if (g_i < g_old_n) {
        old_i = (struct picotm_event){ vp_u16(), vp_u16(), vp_u64() };
        log_.eventtab[g_i] = old_i;
    }
    VP_ASSERT(picotm_log_begin(&log_) == log_.eventtab && picotm_log_end(&log_) == log_.eventtab + g_old_n,
              "begin and end delimit the logged events");
}
void h_append(void)
{
    if (vp_bool()) mk_log();
    else { /* the first event of a new log */
        err = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
        picotm_log_init(&log_);
    }
    struct picotm_event e = { vp_u16(), vp_u16(), vp_u64() };
    picotm_log_append(&log_, &e, &err);
    const struct picotm_event* b = picotm_log_begin(&log_);
    if (g_i < g_old_n) VP_ASSERT(same(b + g_i, &old_i), "appending keeps all earlier events");
    VP_ASSERT(picotm_error_is_set(&err) == g_fail, "appending fails iff the log cannot grow");
    if (g_fail) { VP_ASSERT(picotm_log_end(&log_) == b + g_old_n, "a failed append logs nothing"); VP_REACH("fail"); return; }
    VP_ASSERT(picotm_log_end(&log_) == b + g_old_n + 1 && same(b + g_old_n, &e), "the new event is logged last and unchanged");
    VP_ASSERT(log_.eventtablen <= log_.eventtabsiz, "the log stays within its capacity");
    VP_REACH("ok");
}
void h_clear(void)
{
    mk_log();
    picotm_log_clear(&log_);
    VP_ASSERT(picotm_log_begin(&log_) == picotm_log_end(&log_), "a cleared log is empty");
    VP_ASSERT(log_.eventtabsiz <= g_old_cap, "a cleared log keeps a valid capacity");
    picotm_log_uninit(&log_);
    VP_ASSERT(g_freed == 1, "the log's table is freed exactly once");
    VP_REACH("clear");
}
