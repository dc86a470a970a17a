/* allocator module of libc: malloc, posix_memalign and free with log, commit and abort */
#include "vp.h"
#include <stdatomic.h>
#ifdef VP_CBMC
#undef errno
int vp_errno;
#define errno vp_errno
#endif
#include "picotm/picotm-error.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-lib-tab.h"
#define NB 4
static char blk[NB + 3][8];
static int state[NB + 3]; /* 0 not allocated, 1 live, 2 released */
static size_t g_req, g_al, g_nalloc, g_free;
static bool g_oom;
static void* get(size_t n)
{
    if (n > (size_t)1 << 62 || vp_bool()) { g_oom = true; return NULL; } /* the C library never provides more */
    VP_ASSERT(n >= g_req, "a block is at least as large as requested");
    VP_ASSERT(g_nalloc < NB, "one block per call");
    state[g_nalloc] = 1;
    return blk[g_nalloc++];
}
static void* v_malloc(size_t n) { void* p = get(n); if (!p) errno = ENOMEM; return p; }
static int v_posix_memalign(void** m, size_t a, size_t n)
{
    VP_ASSERT(a == g_al, "the requested alignment is used");
    void* p = get(n);
    if (!p) return vp_bool() ? ENOMEM : EINVAL;
    *m = p;
    return 0;
}
static void v_free(void* p)
{
    ++g_free;
    if (!p) return;
    for (int i = 0; i < NB + 3; ++i)
        if (p == blk[i]) { VP_ASSERT(state[i] == 1, "a block is released only once, and only if it is live"); state[i] = 2; return; }
    VP_ASSERT(0, "only allocated blocks are released");
}
#define malloc v_malloc
#define posix_memalign v_posix_memalign
#define free v_free
#include "modules/libc/src/allocator/allocator_log.c"
#include "modules/libc/src/allocator/allocator_tx.c"
#include "modules/libc/src/allocator/module.c"
#undef malloc
#undef free
void picotm_error_set_errno(struct picotm_error* e, int c) { e->status = PICOTM_ERRNO; e->value.errno_hint = c; }
void picotm_error_set_error_code(struct picotm_error* e, enum picotm_error_code c) { e->status = PICOTM_ERROR_CODE; }

/* the growing table by its contract (C05): old elements are kept; one arbitrary element is tracked */
#define MAX 64
static struct allocator_event tab1[MAX], tab2[MAX]; static bool in2; static size_t g_k;
void* picotm_tabresize(void* base, size_t n, size_t m, size_t siz, struct picotm_error* e)
{
    VP_ASSERT(siz == sizeof(struct allocator_event) && m >= n, "the log does not shrink");
    VP_ASSERT(base == (n ? (in2 ? tab2 : tab1) : NULL), "the log is resized");
    VP_ASSUME(m <= MAX);
    if (vp_bool()) { picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY); g_oom = true; return NULL; }
    if (!n) return in2 ? tab2 : tab1;
    if (vp_bool()) { for (size_t i = 0; i < 4; ++i) (in2 ? tab1 : tab2)[i] = (in2 ? tab2 : tab1)[i]; (in2 ? tab1 : tab2)[g_k] = (in2 ? tab2 : tab1)[g_k]; in2 = !in2; }
    return in2 ? tab2 : tab1;
}
void picotm_tabfree(void* p) { }
static const struct picotm_module_ops* g_ops; static void* g_data; static unsigned g_reg;
unsigned long picotm_register_module(const struct picotm_module_ops* o, void* d, struct picotm_error* e)
{
    if (vp_bool()) { picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY); g_oom = true; return 0; }
    ++g_reg;
    g_ops = o; g_data = d;
    return 7;
}
static struct { unsigned long module; uint16_t head; uintptr_t tail; } ev[8]; static size_t nev;
void picotm_append_event(unsigned long m, uint16_t h, uintptr_t t, struct picotm_error* e)
{
    VP_ASSERT(m == 7, "events belong to the module");
    if (vp_bool()) { picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY); g_oom = true; return; }
    ev[nev].module = m; ev[nev].head = h; ev[nev].tail = t; ++nev;
}

/* a log of any length: one call appends one event with the block, and keeps all others */
static struct allocator_module mod;
static void any_log(void)
{
    allocator_module_init(&mod, 7);
    mod.log.eventtabsiz = vp_below(MAX + 1);
    mod.log.eventtablen = vp_below(MAX + 1);
    VP_ASSUME(mod.log.eventtablen <= mod.log.eventtabsiz);
    mod.log.eventtab = mod.log.eventtabsiz ? tab1 : NULL;
    g_k = vp_below(MAX);
    tab1[g_k].ptr = blk[NB + 1];
}
VP_MAIN(h_exec)
{
    any_log();
    struct picotm_error err = PICOTM_ERROR_INITIALIZER;
    size_t n = mod.log.eventtablen, k = g_k;
    int op = vp_below(3);
    void* p = NULL;
    g_req = vp_size(); g_al = vp_size();
    state[NB] = 1;
    if (op == 0) allocator_tx_exec_free(&mod.tx, p = blk[NB], &err);
    else if (op == 1) p = allocator_tx_exec_malloc(&mod.tx, g_req, &err);
    else { int r = allocator_tx_exec_posix_memalign(&mod.tx, &p, g_al, g_req, &err); VP_ASSERT(err.status || r == 0, "success is reported"); }
    VP_ASSERT((err.status != 0) == g_oom, "failures are reported and nothing else");
    VP_ASSERT(state[NB] == 1, "a freed block stays until commit");
    if (err.status) {
        VP_ASSERT(nev == 0, "a failed call leaves no event");
        for (int i = 0; i < NB; ++i) VP_ASSERT(state[i] != 1, "a failed call leaves nothing allocated");
    } else {
        VP_ASSERT(nev == 1 && ev[0].tail == n && mod.log.eventtablen == n + 1, "the call is logged once");
        VP_ASSERT(mod.log.eventtab[n].ptr == p, "the event names the block");
        VP_ASSERT(op == 0 ? g_nalloc == 0 : g_nalloc == 1 && p == blk[0] && state[0] == 1, "the new block is returned and live");
        VP_REACH("logged");
    }
    if (k < n) VP_ASSERT(mod.log.eventtab[k].ptr == blk[NB + 1], "the other events stay");
    VP_ASSERT(mod.log.eventtablen >= n && mod.log.eventtabsiz >= mod.log.eventtablen, "the log stays valid");
    VP_REACH("done");
}
/* each event of a log of any length is applied or undone exactly */
VP_MAIN(h_event)
{
    any_log();
    struct picotm_error err = PICOTM_ERROR_INITIALIZER;
    VP_ASSUME(g_k < mod.log.eventtablen);
    int op = vp_below(3), undo = vp_bool();
    state[NB + 1] = 1;
    if (undo) undo_event_cb(op, g_k, &mod, &err);
    else apply_event_cb(op, g_k, &mod, &err);
    bool want = undo ? op != ALLOCATOR_OP_FREE : op == ALLOCATOR_OP_FREE;
    VP_ASSERT(!err.status, "no error");
    VP_ASSERT(state[NB + 1] == (want ? 2 : 1) && g_free == (want ? 1 : 0), "exactly the event's block is released, on abort of an allocation or commit of a release");
    finish_cb(&mod, &err);
    VP_ASSERT(mod.log.eventtablen == 0 && g_free == (want ? 1 : 0), "the log is empty after the transaction");
    VP_REACH("done");
}
/* whole transactions through the module's interface */
#ifndef OPS
#define OPS 0
#endif
#ifndef NOPS
#define NOPS 2
#endif
VP_MAIN(h_tx)
{
    bool owned[NB + 3] = {0}, freed[NB + 3] = {0};
    state[NB] = state[NB + 1] = 1; /* allocated before */
    const size_t sel = OPS;
    bool failed = false;
    for (int i = 0; i < NOPS && !failed; ++i) {
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        int op = sel / (i == 0 ? 1 : i == 1 ? 3 : 9) % 3;
        g_req = vp_size(); g_al = 64; g_oom = false;
        size_t na = g_nalloc;
        if (op == 0) {
            int b = vp_below(NB + 2);
            VP_ASSUME(state[b] == 1 && !freed[b]);
            allocator_module_free(blk[b], 8, &err);
            if (!err.status) freed[b] = true;
        } else {
            void* p = NULL;
            if (op == 1) p = allocator_module_malloc(g_req, &err);
            else allocator_module_posix_memalign(&p, 64, g_req, &err);
            if (!err.status) { VP_ASSERT(g_nalloc == na + 1 && p == blk[na] && state[na] == 1, "the new block is returned and live"); owned[na] = true; }
        }
        VP_ASSERT((err.status != 0) == g_oom, "failures are reported and nothing else");
        failed = err.status;
    }
    bool commit = !failed && vp_bool();
    struct picotm_error err = PICOTM_ERROR_INITIALIZER;
    if (g_ops) {
        if (commit) for (size_t i = 0; i < NOPS; ++i) { if (i < nev) g_ops->apply_event(ev[i].head, ev[i].tail, g_data, &err); }
        else for (size_t i = NOPS; i > 0; --i) if (i <= nev) g_ops->undo_event(ev[i - 1].head, ev[i - 1].tail, g_data, &err);
        g_ops->finish(g_data, &err);
    }
    VP_ASSERT(!err.status && g_reg <= 1, "the module is registered once");
    for (int b = 0; b < NB + 2; ++b) {
        bool was = b >= NB, want = commit ? (was || owned[b]) && !freed[b] : was;
        VP_ASSERT((state[b] == 1) == want, "commit keeps what is allocated and not freed, abort keeps what was allocated before");
    }
    if (g_ops) { g_ops->release(g_data); VP_REACH("released"); }
    VP_REACH("done");
}
