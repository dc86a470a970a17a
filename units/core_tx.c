/* picotm_tx.c with the real picotm_module.c, picotm_event.c, picotm_log.c and table.c; the lock manager and
 * lock owner by their contracts (property L03).
 *
 * The commit protocol as a postcondition over ghost state: done[op][m] says callback op of module m ran. Each
 * call must come once, after every call that precedes it in the protocol, and at the end nothing is left out.
 * A module without any callback stands for an absent one, so NM modules cover every smaller number. One call
 * (g_fop, g_fm) may fail; every choice of it is executed. */
#include "vp.h"
#include "src/picotm_lock_manager.h"
#include "src/picotm-error.c"
static void* vp_realloc(void* p, size_t n);
#define realloc vp_realloc
#include "src/table.c"
#undef realloc
#include "src/picotm_event.c"
#include "src/picotm_log.c"
#include "src/picotm_module.c"
#include "picotm/picotm-module.h"
#include "src/picotm_tx.c"

#ifndef NM
#define NM 3
#endif
#ifndef NEV
#define NEV 3
#endif
static struct picotm_tx tx;
static struct picotm_error err;
static struct picotm_lock_manager lm;
static int lmdata;


/* ---- a callback or environment call that fails: g_fop names it, with every kind of error ---- */
enum { BEGIN = 1, PREP, APPLY, UNDO, APPLYEV, UNDOEV, FINISH, RELEASE, NOP, LOCK, TSTAMP, OWNER, REGOWN };
static unsigned g_fop, g_fm, g_fkind;
static bool g_failed;
static bool fails(unsigned op, unsigned m, struct picotm_error* e)
{
    if (op != g_fop || m != g_fm) return false;
    g_failed = true;
    switch (g_fkind) {
    case 0: picotm_error_set_conflicting(e, NULL); break;
    case 1: picotm_error_set_error_code(e, PICOTM_GENERAL_ERROR); break;
    default: picotm_error_set_errno(e, vp_int()); break;
    }
    return true;
}

/* ---- exclusivity lock: mode held by this transaction ---- */
static unsigned g_held; /* 0 none, 1 shared, 2 exclusive */
void picotm_lock_manager_wait_irrevocable(struct picotm_lock_manager* m, struct picotm_error* e)
{
    VP_ASSERT(m == &lm && g_held == 0, "the exclusivity lock is taken once per attempt");
    if (!fails(LOCK, 0, e)) g_held = 1;
}
void picotm_lock_manager_make_irrevocable(struct picotm_lock_manager* m, struct picotm_lock_owner* lo, struct picotm_error* e)
{
    VP_ASSERT(m == &lm && lo == &tx.lo && g_held == 0, "the exclusivity lock is taken once per attempt");
    if (!fails(LOCK, 0, e)) g_held = 2;
}
void picotm_lock_manager_release_irrevocability(struct picotm_lock_manager* m, struct picotm_lock_owner* lo)
{
    VP_ASSERT(m == &lm && lo == &tx.lo && g_held != 0, "only a held exclusivity lock is released");
    g_held = 0;
}
static unsigned g_lo, g_reg;
static bool g_stamped;
void picotm_lock_owner_init(struct picotm_lock_owner* lo, struct picotm_error* e) { if (!fails(OWNER, 0, e)) g_lo++; }
void picotm_lock_owner_uninit(struct picotm_lock_owner* lo) { VP_ASSERT(g_lo == 1 && !g_reg, "an owner is unregistered before it goes"); g_lo--; }
void picotm_lock_owner_reset_timestamp(struct picotm_lock_owner* lo, struct picotm_error* e)
{
    VP_ASSERT(lo == &tx.lo && g_held, "the own time stamp is reset once the exclusivity lock is held");
    g_stamped = !fails(TSTAMP, 0, e);
}
void picotm_lock_manager_register_owner(struct picotm_lock_manager* m, struct picotm_lock_owner* lo, struct picotm_error* e)
{
    VP_ASSERT(g_lo == 1 && lo == &tx.lo && m == &lm, "an initialised owner is registered");
    if (!fails(REGOWN, 0, e)) g_reg++;
}
void picotm_lock_manager_unregister_owner(struct picotm_lock_manager* m, struct picotm_lock_owner* lo)
{
    VP_ASSERT(g_reg == 1 && lo == &tx.lo && m == &lm, "a registered owner is unregistered"); g_reg--;
}

/* storage of the event log: one block that keeps its content when it grows (contract of realloc) */
static struct picotm_event evmem[8];
static void* vp_realloc(void* p, size_t n)
{
    VP_ASSERT(!p || p == evmem, "the log's own table is resized");
    VP_ASSUME(n <= sizeof(evmem));
    return evmem;
}

/* ---- modules ---- */
static unsigned nev;
static struct { uint16_t mod, head; uintptr_t tail; bool done; } ev[NEV];
static int mdata[NM];
static struct picotm_module_ops ops[NM];
static unsigned char g_seq[4];
static unsigned g_nseq;
static bool done[NOP][NM], g_irr, g_finfailed;
static bool has(unsigned op, unsigned m)
{
    switch (op) {
    case BEGIN: return ops[m].begin; case PREP: return ops[m].prepare_commit; case APPLY: return ops[m].apply;
    case UNDO: return ops[m].undo; case APPLYEV: return ops[m].apply_event; case UNDOEV: return ops[m].undo_event;
    case FINISH: return ops[m].finish; default: return ops[m].release;
    }
}
static bool isev(unsigned op) { return op == APPLYEV || op == UNDOEV; }
static bool phase_done(unsigned op)
{
    bool r = true;
    if (isev(op)) { for (unsigned i = 0; i < nev; ++i) r = r && (ev[i].done || !has(op, ev[i].mod)); }
    else for (unsigned i = 0; i < NM; ++i) r = r && (done[op][i] || !has(op, i));
    return r;
}
static bool earlier_done(unsigned op)
{
    bool r = true, known = false;
    for (unsigned p = 0; p < g_nseq; ++p) {
        if (g_seq[p] == op) { known = true; break; }
        r = r && phase_done(g_seq[p]);
    }
    return r && known;
}
static void call(unsigned op, void* data, int arg, struct picotm_error* e)
{
    unsigned m = 0;
    for (unsigned i = 1; i < NM; ++i) if (data == mdata + i) m = i;
    VP_ASSERT(data == mdata + m && has(op, m), "modules are called with their own data");
    VP_ASSERT(g_held != 0 || op == RELEASE, "modules are called while the exclusivity lock is held");
    if (op == PREP) VP_ASSERT(!arg == !g_irr, "modules learn whether the transaction is irrevocable");
    if (g_failed) { /* only the clean-up after a failed begin goes on */
        VP_ASSERT(op == FINISH && g_fop == BEGIN, "no module is called after a failure");
        VP_ASSERT(!done[op][m], "each module is cleaned up once");
        done[op][m] = true;
        g_finfailed |= e->status != 0;
        return;
    }
    VP_ASSERT(!done[op][m], "each module is called once per phase");
    VP_ASSERT(earlier_done(op), "modules are called in the order of the protocol, each phase completely before the next");
    bool inorder = true;
    for (unsigned i = 0; i < m; ++i) inorder = inorder && (done[op][i] || !has(op, i));
    VP_ASSERT(inorder, "within a phase, modules are called in order of registration");
    if (!e || !fails(op, m, e)) done[op][m] = true;
}
static void event(unsigned op, void* data, uint16_t head, uintptr_t tail, struct picotm_error* e)
{
    unsigned i, k, m = 0;
    for (i = 1; i < NM; ++i) if (data == mdata + i) m = i;
    VP_ASSERT(data == mdata + m && g_held && !g_failed, "events are handled under the exclusivity lock until one fails");
    VP_ASSERT(earlier_done(op), "events are handled after all earlier phases");
    for (k = 0; k < nev; ++k) {
        i = op == APPLYEV ? k : nev - 1 - k;
        if (!ev[i].done && has(op, ev[i].mod)) break;
    }
    VP_ASSERT(k < nev, "each event is handled once");
    if (k == nev) return;
    VP_ASSERT(ev[i].mod == m && ev[i].head == head && ev[i].tail == tail,
              "events are handed to the module that logged them, unchanged and in order");
    if (!fails(op, i, e)) ev[i].done = true;
}
static void protocol(unsigned a, unsigned b, unsigned c, unsigned d)
{
    g_seq[0] = a; g_seq[1] = b; g_seq[2] = c; g_seq[3] = d;
    g_nseq = d ? 4 : c ? 3 : b ? 2 : 1;
}
static bool all_done(void)
{
    bool r = true;
    for (unsigned p = 0; p < g_nseq; ++p) r = r && phase_done(g_seq[p]);
    return r;
}
static void m_begin(void* d, struct picotm_error* e) { call(BEGIN, d, 0, e); }
static void m_prep(void* d, int irr, struct picotm_error* e) { call(PREP, d, irr, e); }
static void m_apply(void* d, struct picotm_error* e) { call(APPLY, d, 0, e); }
static void m_undo(void* d, struct picotm_error* e) { call(UNDO, d, 0, e); }
static void m_aev(uint16_t h, uintptr_t t, void* d, struct picotm_error* e) { event(APPLYEV, d, h, t, e); }
static void m_uev(uint16_t h, uintptr_t t, void* d, struct picotm_error* e) { event(UNDOEV, d, h, t, e); }
static void m_finish(void* d, struct picotm_error* e) { call(FINISH, d, 0, e); }
static void m_release(void* d) { call(RELEASE, d, 0, NULL); }

static void mk_tx(void)
{
    g_lo = g_reg = 0;
    err = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
    picotm_tx_init(&tx, &lm, &err);
}
#ifdef FULL
#define HAS 1
#else
#define HAS vp_bool()
#endif
static void mk_modules(void)
{
    for (unsigned i = 0; i < NM; ++i) {
        ops[i].release = HAS ? m_release : NULL; ops[i].begin = HAS ? m_begin : NULL;
        ops[i].prepare_commit = HAS ? m_prep : NULL; ops[i].apply = HAS ? m_apply : NULL;
        ops[i].undo = HAS ? m_undo : NULL; ops[i].apply_event = HAS ? m_aev : NULL;
        ops[i].undo_event = HAS ? m_uev : NULL; ops[i].finish = HAS ? m_finish : NULL;
        for (unsigned o = 0; o < NOP; ++o) done[o][i] = false;
        unsigned long k = picotm_tx_register_module(&tx, ops + i, mdata + i, &err);
        VP_ASSERT(!picotm_error_is_set(&err) && k == i && tx.nmodules == i + 1, "modules get consecutive numbers");
    }
    g_failed = g_finfailed = g_stamped = false;
}
static void mk_attempt(bool irr)
{
    g_irr = irr;
    g_held = irr ? 2 : 1;
    tx.mode = irr ? TX_MODE_IRREVOCABLE : TX_MODE_REVOCABLE;
}
#ifndef EVMOD
#define EVMOD(i) ((i) % NM)
#endif
static void mk_events(void)
{
    nev = NEV;
    for (unsigned i = 0; i < NEV; ++i) {
        ev[i].mod = EVMOD(i); ev[i].head = vp_u16(); ev[i].tail = vp_u64(); ev[i].done = false;
        picotm_tx_append_event(&tx, ev[i].mod, ev[i].head, ev[i].tail, &err);
        VP_ASSERT(!picotm_error_is_set(&err), "an event is logged unless memory runs out");
    }
}
static bool empty_log(void) { return picotm_log_begin(&tx.log) == picotm_log_end(&tx.log); }

static void one_commit(unsigned fop, unsigned fm, unsigned kind, bool irr)
{
    g_fop = 0;
    mk_tx(); mk_modules(); mk_attempt(irr); mk_events();
    g_fop = fop; g_fm = fm; g_fkind = kind;
    protocol(PREP, APPLY, APPLYEV, FINISH);
    picotm_tx_commit(&tx, &err);
    VP_ASSERT(picotm_error_is_set(&err) == g_failed, "commit fails iff a module fails");
    if (!g_failed) {
        VP_ASSERT(all_done(), "commit leaves no module, phase or event out");
        VP_ASSERT(empty_log(), "the log is empty after commit");
        VP_ASSERT(g_held == 0, "the exclusivity lock is released by commit");
        VP_REACH("committed");
    } else if (fop == PREP) {
        VP_ASSERT(!err.is_non_recoverable, "a failed preparation can still be rolled back");
        VP_ASSERT(g_held != 0, "a failed preparation keeps the exclusivity lock for the roll-back");
        VP_ASSERT(picotm_log_end(&tx.log) == picotm_log_begin(&tx.log) + nev, "a failed preparation keeps the log for the roll-back");
    } else {
        VP_ASSERT(err.is_non_recoverable, "an error after the point of no return is non-recoverable");
    }
}
static void one_rollback(unsigned fop, unsigned fm, unsigned kind)
{
    g_fop = 0;
    mk_tx(); mk_modules(); mk_attempt(kind & 1); mk_events();
    g_fop = fop; g_fm = fm; g_fkind = kind;
    protocol(UNDO, UNDOEV, FINISH, 0);
    picotm_tx_rollback(&tx, &err);
    VP_ASSERT(g_held == 0, "the exclusivity lock is released by roll-back");
    VP_ASSERT(picotm_error_is_set(&err) == g_failed && err.is_non_recoverable == g_failed, "an error during roll-back is non-recoverable");
    if (!g_failed) {
        VP_ASSERT(all_done(), "roll-back leaves no module, phase or event out");
        VP_ASSERT(empty_log(), "the log is empty after roll-back");
        VP_REACH("rolled back");
    }
}
static void one_begin(unsigned fop, unsigned fm, unsigned kind, enum picotm_tx_mode mode, bool retry, unsigned long n0)
{
    g_fop = 0; g_held = 0; g_lo = g_reg = 0;
    mk_tx(); mk_modules();
    g_fop = fop; g_fm = fm; g_fkind = kind;
    tx.nretries = n0;
    static __picotm_jmp_buf env;
    protocol(BEGIN, 0, 0, 0);
    picotm_tx_begin(&tx, mode, retry, &env, &err);
    unsigned long n = retry ? n0 + 1 : 0;
    VP_ASSERT(picotm_error_is_set(&err) == g_failed, "begin fails iff a module or lock fails");
    if (!g_failed) {
        VP_ASSERT(all_done(), "each module is told that a transaction begins");
        VP_ASSERT(g_held == (picotm_tx_is_irrevocable(&tx) ? 2 : 1), "the exclusivity lock is held exclusively iff irrevocable");
        VP_ASSERT(g_stamped, "the time stamp is fresh");
        VP_ASSERT(VP_IMPLIES(mode == TX_MODE_IRREVOCABLE, picotm_tx_is_irrevocable(&tx)), "a request to run irrevocably is honoured");
        VP_ASSERT(VP_IMPLIES(n < 10 && mode == TX_MODE_REVOCABLE, !picotm_tx_is_irrevocable(&tx)), "an ordinary attempt runs revocably");
        VP_ASSERT(VP_IMPLIES(n == 10, picotm_tx_is_irrevocable(&tx)), "the tenth retry runs irrevocably");
        VP_ASSERT(tx.nretries == n && tx.env == &env, "the retry counter counts the attempts since the first");
        VP_REACH("begun");
    } else {
        VP_ASSERT(g_held == 0, "a failed begin releases the exclusivity lock");
        for (unsigned m = 0; m < NM; ++m)
            VP_ASSERT(done[FINISH][m] == (g_fop == BEGIN && m < g_fm && ops[m].finish != NULL),
                      "exactly the modules that have begun are finished");
    }
}

/* no callback fails; each callback may be absent */
void h_commit_absent(void) { one_commit(0, 0, 0, vp_bool()); }
void h_rollback_absent(void) { one_rollback(0, 0, 0); }
void h_begin_absent(void)
{
    unsigned long n0 = vp_u64();
    VP_ASSUME(n0 < 1000000);
    one_begin(0, 0, 0, vp_bool() ? TX_MODE_IRREVOCABLE : TX_MODE_REVOCABLE, vp_bool(), n0);
}
/* every callback fails in turn */
void h_commit_fail(void)
{
    for (unsigned m = 0; m < NM; ++m) { one_commit(PREP, m, m % 3, m & 1); one_commit(APPLY, m, m % 3, m & 1); one_commit(FINISH, m, m % 3, m & 1); }
    for (unsigned i = 0; i < NEV; ++i) one_commit(APPLYEV, i, i % 3, i & 1);
    one_commit(0, 0, 0, false);
}
void h_rollback_fail(void)
{
    for (unsigned m = 0; m < NM; ++m) { one_rollback(UNDO, m, m % 3); one_rollback(FINISH, m, m % 3); }
    for (unsigned i = 0; i < NEV; ++i) one_rollback(UNDOEV, i, i % 3);
    one_rollback(0, 0, 0);
}
void h_begin_fail(void)
{
    for (unsigned m = 0; m < NM; ++m) one_begin(BEGIN, m, m % 3, m & 1 ? TX_MODE_IRREVOCABLE : TX_MODE_REVOCABLE, m & 1, 3);
    for (unsigned k = 0; k < 3; ++k) {
        one_begin(LOCK, 0, k, k & 1 ? TX_MODE_IRREVOCABLE : TX_MODE_REVOCABLE, k & 1, 9);
        one_begin(TSTAMP, 0, k, k & 1 ? TX_MODE_IRREVOCABLE : TX_MODE_REVOCABLE, k & 1, 9);
    }
    one_begin(0, 0, 0, TX_MODE_REVOCABLE, true, 9);
}
void h_release(void)
{
    g_fop = vp_bool() ? OWNER : vp_bool() ? REGOWN : 0; g_fkind = vp_below(3);
    mk_tx();
    VP_ASSERT(picotm_error_is_set(&err) == (g_fop != 0), "setting up fails iff the owner cannot be registered");
    if (picotm_error_is_set(&err)) {
        VP_ASSERT(!g_lo && !g_reg, "a failed set-up leaves nothing behind");
        VP_REACH("init failed");
        return;
    }
    VP_ASSERT(g_lo == 1 && g_reg == 1 && !picotm_tx_is_irrevocable(&tx) && empty_log(), "a thread starts registered and revocable");
    mk_modules();
    protocol(RELEASE, 0, 0, 0);
    picotm_tx_release(&tx);
    VP_ASSERT(all_done(), "every module is released");
    VP_ASSERT(!g_lo && !g_reg, "the thread's registration is given back");
    VP_REACH("released");
}
void h_register(void)
{
    g_fop = 0;
    mk_tx();
    unsigned n = vp_below(MAX_NMODULES + 1);
    tx.nmodules = n;
    unsigned i = vp_below(MAX_NMODULES);
    struct picotm_module m0 = tx.module[i];
    unsigned long k = picotm_tx_register_module(&tx, ops, mdata, &err);
    if (picotm_error_is_set(&err)) {
        VP_ASSERT(n == MAX_NMODULES && tx.nmodules == n, "registering fails iff the module table is full");
        VP_REACH("full");
    } else {
        VP_ASSERT(n < MAX_NMODULES && k == n && tx.nmodules == n + 1, "a new module gets the next number");
        VP_ASSERT(tx.module[n].ops == ops && tx.module[n].data == mdata, "a module keeps its operations and data");
        if (i < n) VP_ASSERT(tx.module[i].ops == m0.ops && tx.module[i].data == m0.data, "earlier modules are kept");
        VP_REACH("ok");
    }
}
