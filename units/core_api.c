/* picotm.c over the contracts of picotm_tx.c (property C01/C02 units prove these against the real functions).
 * Ghost state: what the transaction is in the middle of, and which restart was requested. */
#include "vp.h"
#include <signal.h>
#define siginfo_t int
#include "picotm/picotm.h"
#undef __picotm_longjmp
static void vp_longjmp(void* env, int val);
#define __picotm_longjmp(env_, val_) vp_longjmp(&(env_), val_)
#include "src/picotm_lock_manager.h"
#include "src/picotm_tx.h"
#include "src/picotm-error.c"
#include "src/picotm-lib-shared-ref-obj.c"
#include "src/picotm.c"

static __picotm_jmp_buf env0, env1;
static struct picotm_tx* g_tx;
static unsigned g_inits, g_releases, g_lms, g_rollbacks, g_begins, g_commits;
static bool g_open, g_irr, g_retry, g_rbfail, g_lmfail, g_initfail;
static __picotm_jmp_buf* g_env;
static unsigned long g_n0;

/* any error, as a callee may report it */
static enum picotm_error_status g_status; /* 0: none */
static struct picotm_error g_err;
static bool fail(struct picotm_error* e, enum picotm_error_status st)
{
    switch (st) {
    case 0: return false;
    case PICOTM_CONFLICTING: picotm_error_set_conflicting(e, (struct picotm_rwlock*)vp_u64()); break;
    case PICOTM_REVOCABLE: picotm_error_set_revocable(e); break;
    case PICOTM_ERROR_CODE: picotm_error_set_error_code(e, vp_below(3)); break;
    case PICOTM_ERRNO: picotm_error_set_errno(e, vp_int()); break;
    default: { siginfo_t si; memset(&si, 0, sizeof(si)); picotm_error_set_siginfo_t(e, &si); break; }
    }
    if (vp_bool()) picotm_error_mark_as_non_recoverable(e);
    g_err = *e;
    return true;
}
static enum picotm_error_status any_status(void)
{
    switch (vp_below(6)) {
    case 0: return 0; case 1: return PICOTM_CONFLICTING; case 2: return PICOTM_REVOCABLE;
    case 3: return PICOTM_ERROR_CODE; case 4: return PICOTM_ERRNO; default: return PICOTM_SIGINFO_T;
    }
}
void picotm_lock_manager_init(struct picotm_lock_manager* lm, struct picotm_error* e)
{
    if (g_lmfail) { picotm_error_set_errno(e, vp_int()); return; }
    VP_ASSERT(g_lms == 0, "the global lock manager is set up once");
    g_lms++;
}
void picotm_lock_manager_uninit(struct picotm_lock_manager* lm)
{
    VP_ASSERT(g_lms == 1 && g_inits == g_releases, "the global lock manager outlives the threads that use it");
    g_lms--;
}
void picotm_tx_init(struct picotm_tx* self, struct picotm_lock_manager* lm, struct picotm_error* e)
{
    VP_ASSERT(g_lms == 1, "a thread is set up with a live lock manager");
    if (g_initfail) { picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY); return; }
    g_inits++; g_tx = self; self->nretries = 0; self->mode = TX_MODE_REVOCABLE; self->env = NULL; self->lm = lm;
}
void picotm_tx_release(struct picotm_tx* self)
{
    VP_ASSERT(self == g_tx && g_inits == g_releases + 1 && g_lms == 1, "a thread is released once, with a live lock manager");
    g_releases++;
}
bool picotm_tx_is_irrevocable(const struct picotm_tx* self) { return self->mode == TX_MODE_IRREVOCABLE; }
static unsigned long g_regs, g_events;
unsigned long picotm_tx_register_module(struct picotm_tx* self, const struct picotm_module_ops* ops, void* data, struct picotm_error* e)
{
    VP_ASSERT(self == g_tx && ops == (void*)&env0 && data == &env1, "modules are registered with the own transaction");
    g_regs++;
    return 17;
}
void picotm_tx_append_event(struct picotm_tx* self, unsigned long module, uint16_t head, uintptr_t tail, struct picotm_error* e)
{
    VP_ASSERT(self == g_tx && module == 17 && head == 0x8001 && tail == 0xfedcba9876543210u, "events reach the own log unchanged");
    g_events++;
}
void picotm_tx_begin(struct picotm_tx* self, enum picotm_tx_mode mode, bool is_retry, __picotm_jmp_buf* env, struct picotm_error* e)
{
    VP_ASSERT(self == g_tx && g_inits == g_releases + 1, "a transaction begins on the own, set-up thread state");
    VP_ASSERT(!g_open && g_begins == 0, "a transaction begins once, and only after the previous attempt has ended");
    VP_ASSERT(!picotm_error_is_set(e) && !e->is_non_recoverable, "an attempt begins without an error");
    g_begins++;
    g_irr = mode == TX_MODE_IRREVOCABLE; g_retry = is_retry; g_env = env;
    if (fail(e, g_status)) return;
    g_open = true;
    self->env = env; self->mode = mode; self->nretries = is_retry ? self->nretries + 1 : 0;
}
void picotm_tx_commit(struct picotm_tx* self, struct picotm_error* e)
{
    VP_ASSERT(self == g_tx && g_open, "the running transaction is committed");
    g_commits++;
    if (!fail(e, g_status)) g_open = false;
}
void picotm_tx_rollback(struct picotm_tx* self, struct picotm_error* e)
{
    VP_ASSERT(self == g_tx && g_open, "only a running attempt is rolled back");
    g_rollbacks++;
    g_open = false;
    if (g_rbfail) { picotm_error_set_errno(e, vp_int()); picotm_error_mark_as_non_recoverable(e); g_err = *e; }
}
/* ---- restarts ---- */
static int g_want;
static bool g_any;
static void chain_rerun(int mode);
static void chain_recovery(int mode);
static bool same_error(void)
{
    if (picotm_error_status() != g_err.status || picotm_error_is_non_recoverable() != g_err.is_non_recoverable) return false;
    switch (g_err.status) {
    case PICOTM_ERROR_CODE: return picotm_error_as_error_code() == g_err.value.error_hint;
    case PICOTM_ERRNO: return picotm_error_as_errno() == g_err.value.errno_hint;
    default: return true;
    }
}
static void vp_longjmp(void* env, int val)
{
    VP_ASSERT(env == (void*)&env0, "a restart goes to where the running transaction began");
    VP_ASSERT(val == g_want, "the restart reason maps to the documented mode");
    if (g_any) VP_ASSERT(same_error(), "the restarted transaction sees the reported error");
#ifdef RESTARTS
    VP_REACH("restarted");
#endif
#if CHAIN == 1
    chain_rerun(val);
#elif CHAIN == 2
    chain_recovery(val);
#endif
#ifdef VP_NATIVE
    printf("VP_DONE\n"); _Exit(0);
#else
    VP_ASSUME(0);
#endif
}
static int mode_of(enum picotm_error_status st)
{
    return st == PICOTM_CONFLICTING ? PICOTM_MODE_RETRY : st == PICOTM_REVOCABLE ? PICOTM_MODE_IRREVOCABLE : PICOTM_MODE_RECOVERY;
}
static void reset(void)
{
    g_inits = g_releases = g_lms = g_rollbacks = g_begins = g_commits = 0;
    g_open = g_irr = g_retry = g_rbfail = g_lmfail = g_initfail = g_any = false;
    g_status = 0; g_regs = g_events = 0;
}
static void running(void) /* a transaction is running */
{
    reset();
    bool ok = __picotm_begin(PICOTM_MODE_START, &env0);
    VP_ASSERT(ok && g_open && g_begins == 1 && !g_irr && !g_retry, "a fresh transaction begins revocably and is no retry");
    g_begins = 0;
    g_tx->nretries = g_n0 = vp_below(1000);
    if (vp_bool()) g_tx->mode = TX_MODE_IRREVOCABLE;
}
void h_start(void)
{
    reset();
    bool again = vp_bool();
    if (again) { running(); __picotm_commit(); VP_ASSERT(!g_open && g_commits == 1, "commit ends the transaction"); }
    unsigned i0 = g_inits;
    g_initfail = vp_bool(); g_lmfail = vp_bool();
    g_status = any_status();
    bool ok = __picotm_begin(PICOTM_MODE_START, &env1);
    if (!again && (g_initfail || g_lmfail)) {
        VP_ASSERT(!ok && g_lms == 0 && g_begins == 0, "a thread that cannot be set up enters recovery and leaves nothing behind");
        VP_REACH("no thread");
        return;
    }
    VP_ASSERT(g_begins == 1 && g_rollbacks == 0 && !g_irr && !g_retry && g_env == &env1 && g_inits == 1, "a fresh transaction begins revocably and is no retry");
    VP_ASSERT(ok == (g_status == 0), "a transaction that cannot begin enters recovery");
    if (!ok) VP_ASSERT(same_error(), "recovery sees the error that prevented the transaction");
    else VP_ASSERT(picotm_error_status() == 0 && !picotm_error_is_non_recoverable(), "a fresh transaction starts without an error");
    VP_REACH("start");
}
/* the restarted transaction, from the restart on */
#if CHAIN == 1
static void chain_rerun(int mode)
{
    bool irr = mode == PICOTM_MODE_IRREVOCABLE;
    g_rbfail = vp_bool(); g_status = any_status();
    bool ok = __picotm_begin(mode, &env1);
    VP_ASSERT(g_rollbacks == 1, "a retried attempt is rolled back exactly once");
    VP_ASSERT(ok == (!g_rbfail && !g_status), "a failing roll-back or begin enters recovery");
    if (g_rbfail) { VP_ASSERT(g_begins == 0 && same_error(), "nothing begins after a failed roll-back; recovery sees its error"); VP_REACH("rb failed"); return; }
    VP_ASSERT(g_begins == 1 && g_irr == irr && g_retry && g_env == &env1, "a retry begins again in the requested mode and counts as a retry");
    if (!ok) { VP_ASSERT(same_error(), "recovery sees the error that prevented the transaction"); VP_REACH("begin failed"); return; }
    VP_ASSERT(picotm_error_status() == 0 && picotm_number_of_restarts() == g_n0 + 1 && picotm_is_irrevocable() == irr, "the retry is visible to the transaction");
    VP_REACH("again");
}
#elif CHAIN == 2
static void chain_recovery(int mode)
{
    struct picotm_error e = g_err;
    g_rbfail = vp_bool();
    bool ok = __picotm_begin(mode, &env1);
    g_err = e;
    VP_ASSERT(!ok && g_begins == 0, "recovery runs the recovery code, no new attempt");
    VP_ASSERT(g_rollbacks == !e.is_non_recoverable, "a recoverable attempt is rolled back before recovery, others are not touched");
    VP_ASSERT(same_error(), "recovery sees the reported error");
    VP_REACH("recovery");
    if (!e.is_non_recoverable) { /* the recovery code restarts */
        g_status = 0;
        bool ok2 = __picotm_begin(PICOTM_MODE_RESTART, &env1);
        VP_ASSERT(ok2 && g_rollbacks == 1 && g_begins == 1 && !g_irr && g_retry, "a restart begins again revocably, without another roll-back, and counts as a retry");
        VP_ASSERT(picotm_error_status() == 0, "a restarted transaction starts without an error");
        VP_REACH("restart");
    }
}
#endif
void h_rerun(void) /* retry and irrevocable retry */
{
    running();
    if (vp_bool()) { g_want = PICOTM_MODE_IRREVOCABLE; picotm_irrevocable(); }
    g_any = true;
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    enum picotm_error_status st = vp_bool() ? PICOTM_CONFLICTING : PICOTM_REVOCABLE;
    fail(&e, st); g_want = mode_of(st);
    picotm_recover_from_error(&e);
    VP_ASSERT(0, "restarting does not return");
}
void h_recovery(void)
{
    running();
    g_any = true;
    enum picotm_error_status st = any_status();
    VP_ASSUME(st != 0 && st != PICOTM_CONFLICTING && st != PICOTM_REVOCABLE);
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    fail(&e, st); g_want = mode_of(st);
    picotm_recover_from_error(&e);
    VP_ASSERT(0, "restarting does not return");
}
void h_commit(void)
{
    running();
    g_status = any_status(); g_any = true; g_want = mode_of(g_status);
    __picotm_commit();
    VP_ASSERT(g_status == 0 && g_commits == 1, "a failed commit does not return");
    VP_ASSERT(!g_open && picotm_error_status() == 0, "commit ends the transaction");
    VP_REACH("committed");
}
void h_report(void)
{
    running();
    g_any = true;
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    int v = vp_int();
    siginfo_t si; memset(&si, 0, sizeof(si));
    switch (vp_below(7)) {
    case 0: g_any = false; g_want = PICOTM_MODE_RESTART; picotm_restart(); break;
    case 1: g_any = false; g_want = PICOTM_MODE_IRREVOCABLE; picotm_irrevocable(); break;
    case 2: g_want = PICOTM_MODE_RETRY; picotm_error_set_conflicting(&e, (struct picotm_rwlock*)&env1); g_err = e;
            picotm_resolve_conflict((struct picotm_rwlock*)&env1); break;
    case 3: g_want = PICOTM_MODE_RECOVERY; picotm_error_set_error_code(&e, v); g_err = e; picotm_recover_from_error_code(v); break;
    case 4: g_want = PICOTM_MODE_RECOVERY; picotm_error_set_errno(&e, v); g_err = e; picotm_recover_from_errno(v); break;
    case 5: g_want = PICOTM_MODE_RECOVERY; picotm_error_set_siginfo_t(&e, &si); g_err = e; picotm_recover_from_siginfo_t(&si); break;
    default: {
        enum picotm_error_status st = any_status();
        VP_ASSUME(st != 0);
        fail(&e, st); g_want = mode_of(st);
        picotm_recover_from_error(&e);
    } }
    VP_ASSERT(0, "restarting does not return");
}
void h_release(void)
{
    running(); __picotm_commit();
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    VP_ASSERT(picotm_register_module((void*)&env0, &env1, &e) == 17 && g_regs == 1, "the module's number is returned");
    picotm_append_event(17, 0x8001, 0xfedcba9876543210u, &e);
    VP_ASSERT(g_events == 1, "an event is logged once");
    VP_ASSERT(picotm_lock_owner_get_thread_local_instance() == &g_tx->lo
              && picotm_lock_owner_get_lock_manager(&g_tx->lo) == g_tx->lm, "the thread's lock owner belongs to its transaction");
    VP_ASSERT(picotm_number_of_restarts() == g_n0, "the number of restarts is reported");
    picotm_release();
    VP_ASSERT(g_releases == 1 && g_lms == 0, "releasing the last thread releases everything");
    VP_ASSERT(picotm_number_of_restarts() == 0, "a released thread has no restarts");
    picotm_release();
    VP_ASSERT(g_releases == 1 && g_lms == 0, "a thread is released once");
    bool ok = __picotm_begin(PICOTM_MODE_START, &env0);
    VP_ASSERT(ok && g_inits == 2 && g_lms == 1, "a released thread can start again");
    VP_REACH("released");
}
