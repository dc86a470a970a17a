/* process state changed inside a transaction: errno, floating-point environment, working directory, locale
 *
 * The module sources are included as they are. The system calls they save and restore state with are
 * replaced by their contracts: each may fail, without an effect, at any call. */
#include "vp.h"
#include <stdatomic.h>
#include <fenv.h>
#include <math.h>
#include <locale.h>
#include <unistd.h>
#ifdef VP_CBMC
#undef errno
int vp_errno;
#define errno vp_errno
#endif
#include "picotm/picotm-error.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-lib-tab.h"
#include "picotm/picotm-lib-rwlock.h"
#include "picotm/picotm-lib-shared-ref-obj.h"
#include "picotm/picotm-lib-rwstate.h"
#define ERRNO 1
#define FPU 2
#define CWD 3
#define LOC 4
#ifndef SECT
#define SECT ERRNO
#endif

/* errors, by their contract (property A02 covers what the runtime makes of them) */
void picotm_error_set_errno(struct picotm_error* e, int c) { e->status = PICOTM_ERRNO; e->value.errno_hint = c; }
void picotm_error_set_error_code(struct picotm_error* e, enum picotm_error_code c) { e->status = PICOTM_ERROR_CODE; }
void picotm_error_set_conflicting(struct picotm_error* e, struct picotm_rwlock* l) { e->status = PICOTM_CONFLICTING; }
void picotm_error_mark_as_non_recoverable(struct picotm_error* e) { e->is_non_recoverable = true; }

/* the transaction manager, by its contract */
static const struct picotm_module_ops* g_ops; static void* g_data; static unsigned g_reg;
static bool g_fail;              /* a stub reported a failure in this operation */
static bool g_mayfail = true;
#if SECT <= FPU
static bool fails(void) { if (g_mayfail && vp_bool()) { g_fail = true; return true; } return false; }
#else
/* every failing call, and every failing call after it: the harness enumerates their positions */
#define KMAX (SECT == CWD ? 18 : 24)
#define K2 (SECT == CWD ? 3 : 1)
static int g_k1 = -1, g_k2 = -1, g_calls;
static bool fails(void)
{
    if (!g_mayfail) return false;
    ++g_calls;
    if (g_k1 >= 0) { if (g_k1) { --g_k1; return false; } }
    else if (g_k1 == -2 && g_k2 >= 0) { if (g_k2--) return false; }
    else return false;
    g_k1 = -2;
    g_fail = true;
    return true;
}
#endif
unsigned long picotm_register_module(const struct picotm_module_ops* o, void* d, struct picotm_error* e)
{
    if (fails()) { picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY); return 0; }
    ++g_reg;
    g_ops = o; g_data = d;
    return 7;
}
#define NEV 4
static struct { uint16_t head; uintptr_t tail; } ev[NEV]; static size_t nev;
void picotm_append_event(unsigned long m, uint16_t h, uintptr_t t, struct picotm_error* e)
{
    VP_ASSERT(m == 7, "events belong to the module");
    VP_ASSERT(nev < NEV, "one event per operation");
    if (fails()) { picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY); return; }
    ev[nev].head = h; ev[nev].tail = t; ++nev;
}
/* commit or abort by the contract property C01 checks */
static void tx_end(bool commit, struct picotm_error* e)
{
    if (!g_ops) return;
    if (commit) {
        if (g_ops->apply_event) for (size_t i = 0; i < NEV; ++i) { if (i < nev) g_ops->apply_event(ev[i].head, ev[i].tail, g_data, e); }
        if (g_ops->apply) g_ops->apply(g_data, e);
    } else {
        if (g_ops->undo_event) for (size_t i = NEV; i > 0; --i) { if (i <= nev) g_ops->undo_event(ev[i - 1].head, ev[i - 1].tail, g_data, e); }
        if (g_ops->undo) g_ops->undo(g_data, e);
    }
    nev = 0;
    if (g_ops->finish) g_ops->finish(g_data, e);
}

/* ---------------------------------------------------------------------------------------------------------------- */
#if SECT == ERRNO
#include "modules/libc/src/error/error_tx.c"
#include "modules/libc/src/error/module.c"
/* every operation of a transaction with any past keeps: if errno was saved, the saved value is the one from before the
 * first save of the transaction */
static struct error_module mod;
static int g_pre; /* errno before its first save in the transaction */
static bool inv(void) { return !error_tx_errno_saved(&mod.tx) || mod.tx.saved_errno == g_pre; }
VP_MAIN(h_errno_step)
{
    struct picotm_error err = PICOTM_ERROR_INITIALIZER;
    init_error_module(&mod, &err);
    if (err.status) { VP_ASSERT(g_fail, "failures are reported and nothing else"); return; }
    VP_ASSERT(!error_tx_errno_saved(&mod.tx), "nothing is saved at first");
    mod.tx.flags = vp_bool() ? ERROR_TX_FLAG_ERRNO_SAVED : 0;
    mod.tx.saved_errno = vp_int();
    g_pre = vp_int();
    VP_ASSUME(inv());
    bool saved = error_tx_errno_saved(&mod.tx);
    int now = errno = vp_int(), op = vp_below(5);
    int rec = error_tx_get_error_recovery(&mod.tx);
    if (op == 0) {
        if (!saved) g_pre = now;
        error_tx_save_errno(&mod.tx);
        VP_ASSERT(error_tx_errno_saved(&mod.tx) && inv(), "errno is saved once, before the first change");
        VP_ASSERT(errno == now, "saving keeps errno");
    } else if (op == 1) {
        undo_cb(&mod, &err);
        VP_ASSERT(!err.status, "no error");
        VP_ASSERT(errno == (saved ? g_pre : now), "abort restores a saved errno and leaves an unsaved one");
        finish_cb(&mod, &err);
        VP_ASSERT(!error_tx_errno_saved(&mod.tx) && !err.status, "the next transaction starts afresh");
    } else if (op == 2) {
        if (g_ops->apply) g_ops->apply(&mod, &err);
        finish_cb(&mod, &err);
        VP_ASSERT(!err.status && errno == now, "commit keeps errno");
        VP_ASSERT(!error_tx_errno_saved(&mod.tx), "the next transaction starts afresh");
    } else if (op == 3) {
        error_tx_set_error_recovery(&mod.tx, PICOTM_LIBC_ERROR_RECOVERY_FULL);
        VP_ASSERT(inv() && error_tx_errno_saved(&mod.tx) == saved && errno == now, "the recovery mode is independent of errno");
        VP_ASSERT(error_tx_get_error_recovery(&mod.tx) == PICOTM_LIBC_ERROR_RECOVERY_FULL, "the recovery mode is set");
        rec = PICOTM_LIBC_ERROR_RECOVERY_FULL;
    } else VP_ASSERT(error_tx_errno_saved(&mod.tx) == saved, "queries change nothing");
    VP_ASSERT(error_tx_get_error_recovery(&mod.tx) == rec, "the recovery mode stays as set");
    VP_REACH("done");
}
/* two transactions through the module's interface */
VP_MAIN(h_errno)
{
    for (int t = 0; t < 2; ++t) {
        int before = 0, user = errno = vp_int();
        bool saved = false, failed = false;
        for (int i = 0; i < 3 && !failed; ++i) {
            struct picotm_error err = PICOTM_ERROR_INITIALIZER;
            g_fail = false;
            if (vp_bool()) {
                error_module_save_errno(&err);
                VP_ASSERT((err.status != 0) == g_fail, "failures are reported and nothing else");
                failed = err.status;
                if (!failed && !saved) { saved = true; before = user; }
                VP_ASSERT(errno == user, "saving keeps errno");
            } else user = errno = vp_int();
        }
        bool commit = !failed && vp_bool();
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        tx_end(commit, &err);
        VP_ASSERT(!err.status && g_reg <= 1, "the module is registered once");
        VP_ASSERT(errno == (!commit && saved ? before : user), "abort restores errno as of its first save, commit keeps it");
        if (saved) VP_REACH("saved");
    }
    if (g_ops) g_ops->release(g_data);
    VP_REACH("done");
}

/* ---------------------------------------------------------------------------------------------------------------- */
#elif SECT == FPU
/* the floating-point environment: control modes and exception flags */
static uint16_t f_mode; static uint8_t f_exc;
#define EXC (FE_ALL_EXCEPT)
static int f_get(fenv_t* p) { if (fails()) return -1; p->__control_word = f_mode; p->__status_word = f_exc; return 0; }
static int f_set(const fenv_t* p) { if (fails()) return -1; f_mode = p->__control_word; f_exc = p->__status_word; return 0; }
static int f_getx(fexcept_t* p, int x) { if (fails()) return -1; *p = f_exc & x; return 0; }
static int f_setx(const fexcept_t* p, int x) { if (fails()) return -1; f_exc = (f_exc & ~x) | (*p & x); return 0; }
static int f_clear(int x) { f_exc &= ~x; return 0; }
static int f_test(int x) { return f_exc & x; }
#define fegetenv f_get
#define fesetenv f_set
#define fegetexceptflag f_getx
#define fesetexceptflag f_setx
#define feclearexcept f_clear
#define fetestexcept f_test
#undef math_errhandling
static int g_mh;
#define math_errhandling g_mh
#include "modules/libm/src/fpu_tx.c"
#include "modules/libm/src/module.c"
#include "modules/libm/src/matherr.c"
static unsigned g_saves; static int g_preerrno; static bool g_rec; static int g_recno;
void picotm_libc_save_errno(void) { if (!g_saves++) g_preerrno = errno; }
void picotm_recover_from_error(const struct picotm_error* e) { g_rec = true; VP_ASSERT(g_fail, "only failures are recovered from"); g_mayfail = false; }
void picotm_recover_from_errno(int c) { g_rec = true; g_recno = c; }
static struct fpu_module mod;
static uint16_t p_mode; static uint8_t p_exc; /* before the first save of the modes, and of the flags */
static bool inv(void)
{
    bool e = fpu_tx_fenv_saved(&mod.tx), x = fpu_tx_fexcept_saved(&mod.tx);
    if (e && mod.tx.saved_fenv.__control_word != p_mode) return false;
    if (x && mod.tx.saved_fexcept != p_exc) return false;
    if (e && !x && mod.tx.saved_fenv.__status_word != p_exc) return false;
    return true;
}
/* a transaction with any past: saving keeps what was saved first, abort restores exactly that */
VP_MAIN(h_fpu_step)
{
    struct picotm_error err = PICOTM_ERROR_INITIALIZER;
    f_mode = vp_u16(); f_exc = vp_u8() & EXC;
    g_mayfail = false;
    init_fpu_module(&mod, &err);
    VP_ASSERT(!err.status && !fpu_tx_fenv_saved(&mod.tx) && !fpu_tx_fexcept_saved(&mod.tx), "nothing is saved at first");
    g_mayfail = true;
    mod.tx.flags = vp_below(4);
    mod.tx.saved_fenv.__control_word = vp_u16(); mod.tx.saved_fenv.__status_word = vp_u8() & EXC;
    mod.tx.saved_fexcept = vp_u8() & EXC;
    p_mode = vp_u16(); p_exc = vp_u8() & EXC;
    VP_ASSUME(inv());
    bool e = fpu_tx_fenv_saved(&mod.tx), x = fpu_tx_fexcept_saved(&mod.tx);
    uint16_t m = f_mode = vp_u16(); uint8_t c = f_exc = vp_u8() & EXC;
    int op = vp_below(4);
    if (op == 0) {
        if (!e) p_mode = m;
        if (!e && !x) p_exc = c;
        fpu_tx_save_fenv(&mod.tx, &err);
        VP_ASSERT((err.status != 0) == g_fail && (g_fail || fpu_tx_fenv_saved(&mod.tx)), "the environment is saved or a failure is reported");
        if (!err.status) { VP_ASSERT(inv(), "the environment is saved once, before the first change"); VP_REACH("env"); }
        VP_ASSERT(fpu_tx_fexcept_saved(&mod.tx) == x && f_mode == m && f_exc == c, "saving changes nothing else");
    } else if (op == 1) {
        if (!e && !x) p_exc = c;
        fpu_tx_save_fexcept(&mod.tx, &err);
        VP_ASSERT((err.status != 0) == g_fail, "failures are reported and nothing else");
        if (!err.status) { VP_ASSERT(inv() && (fpu_tx_fexcept_saved(&mod.tx) || fpu_tx_fenv_saved(&mod.tx)), "the exception flags are saved once, before the first change"); VP_REACH("exc"); }
        VP_ASSERT(fpu_tx_fenv_saved(&mod.tx) == e && f_mode == m && f_exc == c, "saving changes nothing else");
    } else if (op == 2) {
        undo_cb(&mod, &err);
        VP_ASSERT((err.status != 0) == g_fail, "failures are reported and nothing else");
        if (!err.status) {
            VP_ASSERT(f_mode == (e ? p_mode : m), "abort restores the modes from before the first change");
            VP_ASSERT(f_exc == (e || x ? p_exc : c), "abort restores the exception flags from before the first change");
            VP_REACH("undone");
        }
        finish_cb(&mod, &err);
        VP_ASSERT(!fpu_tx_fenv_saved(&mod.tx) && !fpu_tx_fexcept_saved(&mod.tx), "the next transaction starts afresh");
    } else {
        if (g_ops->apply) g_ops->apply(&mod, &err);
        finish_cb(&mod, &err);
        VP_ASSERT(!err.status && f_mode == m && f_exc == c, "commit keeps the environment");
        VP_ASSERT(!fpu_tx_fenv_saved(&mod.tx) && !fpu_tx_fexcept_saved(&mod.tx), "the next transaction starts afresh");
    }
    VP_REACH("done");
}
/* transactions through the module's interface */
VP_MAIN(h_fpu)
{
    uint16_t m0 = f_mode = vp_u16(), m = m0, ms = 0;
    uint8_t c0 = f_exc = vp_u8() & EXC, c = c0, cs = 0;
    bool e = false, x = false, failed = false;
    for (int i = 0; i < 5 && !failed; ++i) {
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        int op = vp_below(4);
        g_fail = false;
        if (op == 0) { fpu_module_save_fenv(&err); if (!err.status) { if (!e) ms = m; if (!e && !x) cs = c; e = true; } }
        else if (op == 1) { fpu_module_save_fexcept(&err); if (!err.status) { if (!e && !x) cs = c; x = true; } }
        else if (op == 2) m = f_mode = vp_u16();
        else c = f_exc = vp_u8() & EXC;
        VP_ASSERT((err.status != 0) == g_fail, "failures are reported and nothing else");
        VP_ASSERT(f_mode == m && f_exc == c, "the transaction sees its own settings");
        failed = err.status;
    }
    bool commit = !failed && vp_bool();
    struct picotm_error err = PICOTM_ERROR_INITIALIZER;
    g_mayfail = false;
    tx_end(commit, &err);
    VP_ASSERT(!err.status, "no error");
    if (commit) VP_ASSERT(f_mode == m && f_exc == c, "commit keeps the environment");
    else {
        VP_ASSERT(f_mode == (e ? ms : m), "abort restores the modes");
        VP_ASSERT(f_exc == (e || x ? cs : c), "abort restores the exception flags");
        if (e && x) VP_REACH("both");
    }
    if (g_ops) g_ops->release(g_data);
    VP_REACH("done");
}
/* errors of a maths function: the state before is saved and out of the way; an error is reported exactly if this call made it */
VP_MAIN(h_matherr)
{
    g_mh = vp_below(4);
    VP_ASSUME(MATH_ERRNO == 1 && MATH_ERREXCEPT == 2);
    int en = errno = vp_int(), except = vp_u8() & EXC, raised = vp_u8() & EXC, newno = vp_int();
    uint8_t c = f_exc = vp_u8() & EXC;
    f_mode = vp_u16();
    matherr_save_and_clear(except);
    VP_ASSERT(g_rec == g_fail, "failures are recovered from and nothing else");
    g_rec = false;
    if (g_mh & MATH_ERRNO) VP_ASSERT(g_saves == 1 && g_preerrno == en && errno == 0, "errno is saved and cleared");
    else VP_ASSERT(g_saves == 0 && errno == en, "errno stays");
    if (g_mh & MATH_ERREXCEPT) VP_ASSERT(!(f_exc & except) && (f_exc & ~except) == (c & ~except), "the exception flags of the function are cleared and no others");
    else VP_ASSERT(f_exc == c, "the exception flags stay");
    /* the call */
    f_exc |= raised;
    if (g_mh & MATH_ERRNO) errno = newno;
    matherr_test_and_resolve(except);
    bool failed = (g_mh & MATH_ERRNO && newno) || (g_mh & MATH_ERREXCEPT && raised & except & (FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW));
    VP_ASSERT(g_rec == failed, "an error is reported exactly if the call made one");
    if (failed) VP_REACH("failed");
    struct picotm_error err = PICOTM_ERROR_INITIALIZER;
    g_mayfail = false;
    tx_end(false, &err);
    if (g_mh & MATH_ERREXCEPT) VP_ASSERT(f_exc == c, "abort restores the exception flags");
    VP_REACH("done");
}

/* ---------------------------------------------------------------------------------------------------------------- */
#else
/* locks of the shared state, by the contract property L03 checks */
static int g_held;
static void take(struct picotm_rwstate* s, struct picotm_rwlock* l, int mode, struct picotm_error* e)
{
    VP_ASSERT(l->n == s->status, "a lock state belongs to one lock");
    if (s->status >= mode) return;
    if (fails()) { picotm_error_set_conflicting(e, NULL); return; }
    if (!s->status) ++g_held;
    s->status = l->n = mode;
}
void picotm_rwstate_init(struct picotm_rwstate* s) { s->status = 0; }
void picotm_rwstate_uninit(struct picotm_rwstate* s) { VP_ASSERT(!s->status, "no lock is forgotten"); }
void picotm_rwstate_try_rdlock(struct picotm_rwstate* s, struct picotm_rwlock* l, struct picotm_error* e) { take(s, l, 1, e); }
void picotm_rwstate_try_wrlock(struct picotm_rwstate* s, struct picotm_rwlock* l, struct picotm_error* e) { take(s, l, 2, e); }
void picotm_rwstate_unlock(struct picotm_rwstate* s, struct picotm_rwlock* l)
{
    VP_ASSERT(l->n == s->status, "a lock is released through its own state");
    if (s->status) --g_held;
    s->status = l->n = 0;
}
void picotm_rwlock_init(struct picotm_rwlock* l) { l->n = 0; }
void picotm_rwlock_uninit(struct picotm_rwlock* l) { VP_ASSERT(!l->n, "no lock is forgotten"); }
static int held(struct picotm_rwlock* l) { return l->n; }

/* memory: the C library's contract, from a pool of named blocks */
#define NB 8
#define BSZ 64
static union blk { char s[BSZ]; void* align; } pool[NB];
static int bst[NB], nb; /* 0 unused, 1 live, 2 released */
static void* get(size_t n)
{
    if (fails()) { errno = ENOMEM; return NULL; }
    VP_ASSERT(n <= BSZ && nb < NB, "bounded allocations");
    bst[nb] = 1;
    return pool[nb++].s;
}
static void v_free(void* p)
{
    if (!p) return;
    for (int i = 0; i < NB; ++i)
        if (p == pool[i].s) { VP_ASSERT(bst[i] == 1, "a block is released only once, and only if it is live"); bst[i] = 2; return; }
    VP_ASSERT(0, "only allocated blocks are released");
}
static int blk_of(const void* p) { for (int i = 0; i < NB; ++i) if (p == pool[i].s) return i; return -1; }
static int live(void) { int n = 0; for (int i = 0; i < nb; ++i) n += bst[i] == 1; return n; }

#if SECT == CWD
/* the working directory: names are single characters */
static char g_cwd = '0';
static struct picotm_rwlock* g_lock; /* the lock of the working directory */
static char* dirname_(char* buf, char c)
{
    if (!buf && !(buf = get(2))) return NULL;
    buf[0] = c; buf[1] = 0;
    return buf;
}
static int v_chdir(const char* p)
{
    if (fails()) { errno = ENOENT; return -1; }
    VP_ASSERT(blk_of(p) < 0 || bst[blk_of(p)] == 1, "names are valid");
    VP_ASSERT(held(g_lock) == 2, "the directory changes under the write lock");
    g_cwd = p[0];
    return 0;
}
static char* v_gcdn(void) { VP_ASSERT(held(g_lock) >= 1, "the directory is read under a lock"); if (fails()) { errno = ENOENT; return NULL; } return dirname_(NULL, g_cwd); }
static char* v_getcwd(char* b, size_t n) { VP_ASSERT(held(g_lock) >= 1, "the directory is read under a lock"); if (fails()) { errno = ERANGE; return NULL; } return dirname_(b, g_cwd); }
static char* v_realpath(const char* p, char* b) { VP_ASSERT(held(g_lock) >= 1, "the directory is read under a lock"); if (fails()) { errno = EACCES; return NULL; } return dirname_(b, p[0] + g_cwd); }
#define chdir v_chdir
#define get_current_dir_name v_gcdn
#define getcwd v_getcwd
#define realpath v_realpath
#define free v_free
#include "modules/libc/src/cwd/cwd.c"
#include "modules/libc/src/cwd/cwd_log.c"
#include "modules/libc/src/cwd/cwd_tx.c"
#include "modules/libc/src/cwd/module.c"
#undef free
#define EVT struct cwd_event
#else
/* the members of the event's union apart: each event is read as it was written */
#include "picotm/config/picotm-libc-config.h"
#define union struct
#include "modules/libc/src/locale/locale_event.h"
#undef union
#ifdef VP_CBMC
#undef memcpy
#define memcpy(d, s, n) (VP_ASSERT((n) == sizeof(*(d)), "whole events are copied"), *(d) = *(s))
#endif
#define EVT struct locale_event
#endif

/* the growing table by its contract (C05) */
static EVT tab1[NEV], tab2[NEV]; static bool in2;
void* picotm_tabresize(void* base, size_t n, size_t m, size_t siz, struct picotm_error* e)
{
    VP_ASSERT(siz == sizeof(EVT) && m >= n && m <= NEV, "the log grows by what it needs");
    VP_ASSERT(base == (n ? (in2 ? tab2 : tab1) : NULL), "the log is resized");
    if (fails()) { picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY); return NULL; }
    if (!n) return in2 ? tab2 : tab1;
    EVT* from = in2 ? tab2 : tab1; EVT* to = in2 ? tab1 : tab2;
    for (size_t i = 0; i < NEV; ++i) if (i < n) to[i] = from[i];
    in2 = !in2;
    return to;
}
void picotm_tabfree(void* p) { }
/* the reference count of the shared state by the contract property S04 checks: one user */
void picotm_shared_ref16_obj_up(struct picotm_shared_ref16_obj* self, void* data, picotm_shared_ref16_obj_condition_function cond,
                                picotm_shared_ref16_obj_first_ref_function first, struct picotm_error* e)
{
    if (fails()) { picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY); return; }
    first(self, data, e);
}
void picotm_shared_ref16_obj_down(struct picotm_shared_ref16_obj* self, void* data, picotm_shared_ref16_obj_condition_function cond,
                                  picotm_shared_ref16_obj_final_ref_function final)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    final(self, data, &e);
}

#define ENUMERATE(run) \
    for (int k1 = -1; k1 < KMAX; ++k1) for (int k2 = -1; k2 < (k1 < 0 ? 0 : K2); ++k2) for (int c = 0; c < (k1 < 0 ? 2 : 1); ++c) \
        if (vp_bool()) { g_k1 = k1; g_k2 = k2; run(c); VP_ASSERT(k1 >= 0 || g_calls < KMAX, "every call may fail"); VP_ASSUME(0); }
#if SECT == CWD
#ifndef OPS
#define OPS 0
#endif
#ifndef NOPS
#define NOPS 2
#endif
static void run_cwd(bool commit)
{
    char seen = g_cwd;
    const char before = seen;
    bool mine[NB] = {0}; /* blocks the transaction got */
    bool failed = false, broken = false;
    static char buf[4];
    g_lock = &__PICOTM_GLOBAL_STATE_GET(cwd)()->cwd.rwlock[CWD_FIELD_STRING];
    for (int i = 0; i < NOPS && !failed; ++i) {
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        int op = OPS / (i == 0 ? 1 : i == 1 ? 5 : 25) % 5;
        g_fail = false;
        if (op == 0) {
            char to[2] = { 'a' + i, 0 };
            int r = cwd_module_chdir(to, &err);
            if (!err.status) { VP_ASSERT(r == 0, "success is reported"); seen = to[0]; }
        } else {
            char* b = op & 1 ? buf : NULL;
            char* r = op < 3 ? cwd_module_getcwd(b, sizeof(buf), &err) : cwd_module_realpath("A", b, &err);
            if (!err.status) {
                VP_ASSERT(r && (b ? r == b : blk_of(r) >= 0 && bst[blk_of(r)] == 1), "the name is returned");
                VP_ASSERT(r[0] == (op < 3 ? seen : (char)('A' + seen)), "the transaction sees its own directory");
                if (!b) mine[blk_of(r)] = true;
            }
        }
        VP_ASSERT((err.status != 0) == g_fail, "failures are reported and nothing else");
        failed = err.status; broken = err.is_non_recoverable;
        if (!broken) VP_ASSERT(g_cwd == seen, "a failed call changes nothing");
        if (broken) VP_ASSERT(failed, "only failures are fatal");
    }
    if (broken) return;
    if (failed) commit = false;
    struct picotm_error err = PICOTM_ERROR_INITIALIZER;
    g_fail = false;
    tx_end(commit, &err);
    VP_ASSERT((err.status != 0) == g_fail && (!g_fail || !commit), "failures to restore are reported and nothing else");
    if (!err.status) VP_ASSERT(g_cwd == (commit ? seen : before), "commit keeps the directory, abort restores it");
    for (int i = 0; i < NB; ++i) VP_ASSERT((bst[i] == 1) == (commit && mine[i]), "what the transaction got stays on commit, everything else is released");
    VP_ASSERT(g_held == 0, "all locks are released");
    if (!err.status && !commit) VP_REACH("aborted");
    if (g_ops) { g_ops->release(g_data); VP_REACH("released"); }
    VP_REACH("done");
}
VP_MAIN(h_cwd) { ENUMERATE(run_cwd) }
#endif

/* ---------------------------------------------------------------------------------------------------------------- */
#if SECT == LOC
/* the locale: one character per category; the string that setlocale() returns is overwritten by the next call */
#define NCAT 3
static int ix(int c) { return c == LC_TIME ? 0 : c == LC_COLLATE ? 1 : 2; }
static char g_loc[NCAT]; static char l_buf[NCAT + 1];
static int fld(int c)
{
    switch (c) { case LC_COLLATE: return 0; case LC_CTYPE: return 1; case LC_MESSAGES: return 2; case LC_MONETARY: return 3; case LC_NUMERIC: return 4; case LC_TIME: return 5; default: return -1; }
}
static int lmode(int cat);
static char* v_setlocale(int cat, const char* l)
{
    VP_ASSERT(lmode(cat) >= 1, "the locale is accessed under its locks");
    if (!l) { /* reading cannot fail */
        if (cat == LC_ALL) { for (int i = 0; i < NCAT; ++i) l_buf[i] = g_loc[i]; l_buf[NCAT] = 0; }
        else { l_buf[0] = g_loc[ix(cat)]; l_buf[1] = 0; }
        return l_buf;
    }
    if (fails()) return NULL;
    VP_ASSERT(blk_of(l) < 0 || bst[blk_of(l)] == 1, "names are valid");
    if (cat == LC_ALL) { for (int i = 0; i < NCAT; ++i) { if (lmode(cat) != 2) VP_ASSERT(g_loc[i] == l[i], "the locale changes under its write locks"); g_loc[i] = l[i]; } }
    else { if (lmode(cat) != 2) VP_ASSERT(g_loc[ix(cat)] == l[0], "the locale changes under its write locks"); g_loc[ix(cat)] = l[0]; }
    return v_setlocale(cat, NULL);
}
static char* v_strdup(const char* s)
{
    char* p = get(NCAT + 1);
    if (p) for (int i = 0; i < NCAT + 1; ++i) p[i] = s[i];
    return p;
}
/* the thread's locale object, and the data other threads and this one keep for it */
static char l_obj[3][8], l_glob[8]; static int g_use;
#undef LC_GLOBAL_LOCALE /* a value of its own, whichever */
#define LC_GLOBAL_LOCALE ((locale_t)(void*)l_glob)
#define LOBJ(i) ((locale_t)(void*)l_obj[i])
static locale_t v_uselocale(locale_t l)
{
    if (fails()) { errno = EINVAL; return (locale_t)0; }
    locale_t old = g_use < 0 ? LC_GLOBAL_LOCALE : LOBJ(g_use);
    if (l == LC_GLOBAL_LOCALE) g_use = -1;
    else if (l) { int i = 0; while (i < 2 && l != LOBJ(i)) ++i; VP_ASSERT(l == LOBJ(i), "a valid locale object"); g_use = i; }
    return old;
}
static void* d_shared[3]; static void* d_own[3];
static int obj_of(const void* p) { int i = 0; while (i < 2 && p != (void*)l_obj[i]) ++i; VP_ASSERT(p == (void*)l_obj[i], "a valid locale object"); return i; }
static bool ptr_fails(struct picotm_error* e) { if (fails()) { picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY); return true; } return false; }
bool ptr_test_and_set_shared_data(const void* p, const void* cur, const void* d, struct picotm_error* e)
{
    if (ptr_fails(e)) return false;
    int i = obj_of(p);
    if (d_shared[i] != cur) return false;
    d_shared[i] = (void*)d;
    return true;
}
void* ptr_get_shared_data(const void* p, struct picotm_error* e) { return ptr_fails(e) ? NULL : d_shared[obj_of(p)]; }
void ptr_set_data(const void* p, const void* d, struct picotm_error* e) { if (!ptr_fails(e)) d_own[obj_of(p)] = (void*)d; }
void ptr_clear_data(const void* p, struct picotm_error* e) { if (!ptr_fails(e)) d_own[obj_of(p)] = NULL; }
void* ptr_get_data(const void* p, struct picotm_error* e) { return ptr_fails(e) ? NULL : d_own[obj_of(p)]; }
void picotm_recover_from_error(const struct picotm_error* e) { VP_ASSERT(0, "no failure while finishing"); }
static locale_t v_nolocale(void) { VP_ASSERT(0, "unused"); return (locale_t)0; }
static struct lconv l_conv;
static struct lconv* v_localeconv(void) { for (int c = 0; c < 6; ++c) VP_ASSERT(lmode(c) >= 1, "the locale is read under its locks"); return &l_conv; }
#undef strdup
#define strdup v_strdup
#define setlocale(c, l) v_setlocale(c, l)
#define uselocale(l) v_uselocale(l)
#define localeconv() v_localeconv()
#define duplocale(x) v_nolocale()
#define newlocale(x, y, z) v_nolocale()
#define freelocale(x) v_nolocale()
/* the spin lock excludes other threads; the calling thread must not take it twice */
#include "picotm/picotm-lib-spinlock.h"
static void v_lock(struct picotm_spinlock* l) { VP_ASSERT(!l->is_locked, "a spin lock is taken once"); l->is_locked = 1; }
static void v_unlock(struct picotm_spinlock* l) { VP_ASSERT(l->is_locked, "a held spin lock is released"); l->is_locked = 0; }
#define picotm_spinlock_lock(l) v_lock(l)
#define picotm_spinlock_unlock(l) v_unlock(l)
static void* o_malloc(size_t n);
static void o_free(void* p);
#define malloc(n) o_malloc(n)
#define free(p) o_free(p)
#include "modules/libc/src/locale/locale.c"
#include "modules/libc/src/locale/locale_log.c"
#include "modules/libc/src/locale/locale_tx.c"
#include "modules/libc/src/locale/module.c"
#undef malloc
#undef free
#undef setlocale
#undef strdup
#define NO 3
static struct locale_state o_s[NO]; static struct locale_state_tx o_t[NO]; static int os[NO], ot[NO], ns, nt;
static void* o_malloc(size_t n)
{
    if (fails()) { errno = ENOMEM; return NULL; }
    if (n == sizeof(struct locale_state)) { VP_ASSERT(ns < NO, "one state per locale object"); os[ns] = 1; return &o_s[ns++]; }
    VP_ASSERT(n == sizeof(struct locale_state_tx) && nt < NO, "one state per locale object");
    ot[nt] = 1;
    return &o_t[nt++];
}
static void o_free(void* p)
{
    for (int i = 0; i < NO; ++i) {
        if (p == &o_s[i]) { VP_ASSERT(os[i] == 1, "a state is released only once, and only if it is live"); os[i] = 2; return; }
        if (p == &o_t[i]) { VP_ASSERT(ot[i] == 1, "a state is released only once, and only if it is live"); ot[i] = 2; return; }
    }
    v_free(p);
}
static int lmode(int cat)
{
    struct picotm_rwlock* l = __PICOTM_GLOBAL_STATE_GET(locale)()->locale.rwlock;
    if (fld(cat) >= 0) return held(l + fld(cat));
    int h = 2;
    for (int i = 0; i < 6; ++i) if (held(l + i) < h) h = held(l + i);
    return h;
}
#ifndef OPS
#define OPS 0
#endif
#ifndef NOPS
#define NOPS 2
#endif
/* operations: 0 set one category, 1 set LC_ALL, 2 set a category without a lock of its own, 3 read one category, 4 read LC_ALL,
 * 5 set the thread's locale, 6 set it to the global locale, 7 read it, 8 localeconv() */
#ifndef CATEGORY
#define CATEGORY LC_PAPER
#endif
#ifndef LSEL
#define LSEL 0
#endif
static void run_locale(bool commit)
{
    char seen[NCAT], before[NCAT];
    for (int i = 0; i < NCAT; ++i) seen[i] = before[i] = g_loc[i] = 'A' + i;
    int use = g_use = OPS & 1 ? -1 : 0;
    const int use0 = use;
    bool failed = false, broken = false;
    for (int i = 0; i < NOPS && !failed; ++i) {
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        int op = OPS / (i == 0 ? 1 : i == 1 ? 9 : 81) % 9;
        int cat = op == 0 || op == 3 ? (i && LSEL ? LC_COLLATE : LC_TIME) : op == 2 ? CATEGORY : LC_ALL;
        g_fail = false;
        if (op < 5) {
            char to[NCAT + 1];
            for (int k = 0; k < NCAT; ++k) to[k] = 'a' + 8 * i + k;
            to[NCAT] = 0;
            char* r = locale_module_setlocale(cat, op < 3 ? to : NULL, &err);
            if (!err.status) {
                if (op < 3) { if (cat == LC_ALL) for (int k = 0; k < NCAT; ++k) seen[k] = to[k]; else seen[ix(cat)] = to[0]; }
                VP_ASSERT(r != NULL, "the name is returned");
                if (cat == LC_ALL) for (int k = 0; k < NCAT; ++k) VP_ASSERT(r[k] == seen[k], "the transaction sees its own locale");
                else VP_ASSERT(r[0] == seen[ix(cat)], "the transaction sees its own locale");
            }
        } else if (op < 8) {
            locale_t r = locale_module_uselocale(op == 5 ? LOBJ(i && LSEL ? 2 : 1) : op == 6 ? LC_GLOBAL_LOCALE : (locale_t)0, &err);
            if (!err.status) { VP_ASSERT(r == (use < 0 ? LC_GLOBAL_LOCALE : LOBJ(use)), "the thread's locale is returned"); use = op == 7 ? use : g_use; VP_ASSERT(op == 5 ? use >= 1 : op == 6 ? use < 0 : true, "the thread's locale is set"); }
        } else { void* r = locale_module_localeconv(&err); if (!err.status) VP_ASSERT(r == &l_conv, "the conventions are returned"); }
        VP_ASSERT((err.status != 0) == g_fail, "failures are reported and nothing else");
        failed = err.status; broken = err.is_non_recoverable;
        if (!broken) {
            VP_ASSERT(g_use == use, "a failed call changes nothing");
            for (int k = 0; k < NCAT; ++k) VP_ASSERT(g_loc[k] == seen[k], "a failed call changes nothing");
        }
    }
    if (broken) return;
    if (failed) commit = false;
    else if (g_k1 >= 0) return; /* no call is left to fail */
    struct picotm_error err = PICOTM_ERROR_INITIALIZER;
    g_mayfail = false;
    tx_end(commit, &err);
    VP_ASSERT(!err.status, "no error");
    for (int k = 0; k < NCAT; ++k) VP_ASSERT(g_loc[k] == (commit ? seen : before)[k], "commit keeps the locale, abort restores it");
    VP_ASSERT(g_use == (commit ? use : use0), "commit keeps the thread's locale, abort restores it");
    VP_ASSERT(live() == 0, "no memory is left over");
    for (int i = 0; i < NO; ++i) VP_ASSERT(os[i] != 1 && ot[i] != 1, "no state is left over");
    for (int i = 0; i < 3; ++i) VP_ASSERT(!d_own[i] && !d_shared[i], "no data is left over");
    VP_ASSERT(g_held == 0, "all locks are released");
    if (g_ops) { g_ops->release(g_data); VP_REACH("released"); }
    if (!commit) VP_REACH("aborted");
    VP_REACH("done");
}
VP_MAIN(h_locale) { ENUMERATE(run_locale) }
#endif
#endif
