/* picotm_lock_manager.c and picotm_lock_owner.c: the registry of lock owners and the waiter queues.
 * Mutexes, condition variables and the registry's rwlock are stubs that track who holds what. Where mutexes allow it, other threads
 * change the waiter queue between the steps (one arrival, one departure at the head). */
#include "vp.h"
#include <search.h>
#include <pthread.h>
static void* vp_lfind(const void* key, const void* base, size_t* nmemb, size_t size, int (*compar)(const void*, const void*));
#define lfind vp_lfind
#include "src/picotm-error.c"
#include "src/picotm_os_timespec.h"
void picotm_os_add_timespec(struct timespec* self, const struct timespec* other);
#include "src/picotm_lock_manager.c"
#include "src/picotm_lock_owner.c"
#undef lfind

static struct picotm_error err;
static struct picotm_lock_manager m;
enum { FREE, RDL, WRL };
static unsigned g_reg; /* state of the registry's lock */
static bool g_failreg, g_regfailed; /* the lock can fail, once; it did */

/* ---- OS stubs ---- */
void picotm_os_rwlock_init(struct picotm_os_rwlock* s, struct picotm_error* e) { if (vp_bool()) picotm_error_set_errno(e, ENOMEM); }
void picotm_os_rwlock_uninit(struct picotm_os_rwlock* s) { }
void picotm_os_rwlock_rdlock(struct picotm_os_rwlock* s, struct picotm_error* e)
{
    VP_ASSERT(s == &m.lo_rwlock && g_reg == FREE, "the registry's lock is not taken twice");
    g_reg = RDL;
}
void picotm_os_rwlock_wrlock(struct picotm_os_rwlock* s, struct picotm_error* e)
{
    VP_ASSERT(s == &m.lo_rwlock && g_reg == FREE, "the registry's lock is not taken twice");
    if (g_failreg && vp_bool()) {
        g_failreg = false; g_regfailed = true; picotm_error_set_errno(e, EAGAIN); return; }
    g_reg = WRL;
}
void picotm_os_rwlock_unlock(struct picotm_os_rwlock* s)
{
    VP_ASSERT(s == &m.lo_rwlock && g_reg != FREE, "the registry's lock is given back once");
    g_reg = FREE;
}
void picotm_recover_from_error(const struct picotm_error* e) { VP_ASSERT(g_regfailed, "no error without a failing system call"); }

#ifdef REGISTRY
void picotm_os_mutex_init(struct picotm_os_mutex* s, struct picotm_error* e) { }
void picotm_os_mutex_uninit(struct picotm_os_mutex* s) { }
void picotm_os_mutex_lock(struct picotm_os_mutex* s, struct picotm_error* e) { }
void picotm_os_mutex_unlock(struct picotm_os_mutex* s) { }
void picotm_os_cond_init(struct picotm_os_cond* s, struct picotm_error* e) { }
void picotm_os_cond_uninit(struct picotm_os_cond* s) { }
bool picotm_os_cond_wait_until(struct picotm_os_cond* s, struct picotm_os_mutex* x, const struct timespec* t, struct picotm_error* e) { return false; }
void picotm_os_cond_wake_up(struct picotm_os_cond* s, struct picotm_error* e) { }
void picotm_os_get_timespec(struct timespec* t, struct picotm_error* e) { }
void picotm_os_sub_timespec(struct timespec* a, const struct timespec* b) { }
void picotm_os_add_timespec(struct timespec* a, const struct timespec* b) { }
int picotm_os_timespec_compare(const struct timespec* a, const struct timespec* b) { return 0; }

/* the table can have any length and content; a concrete backing store of the largest possible table, plus some */
/* owner indexes have 10 bits */
#define FULL 1024
#ifndef MAX
#define MAX FULL
#endif
static struct picotm_lock_owner* g_old[MAX + 4];
static struct picotm_lock_owner* g_new[MAX + 4];
static struct picotm_lock_owner g_o, g_x;
static size_t g_k; /* one arbitrary slot */
static size_t g_n, g_pos; /* if set: the length and the slot that is found; else any */
static bool g_grown, g_nofree, g_failtab;
void* tabresize(void* p, size_t n, size_t nn, size_t sz, struct picotm_error* e)
{
    VP_ASSERT(g_reg == WRL, "the registry changes under its lock only");
    VP_ASSERT(p == m.lo && n == m.nlos && nn > n && sz == sizeof(void*) && nn <= MAX + 4, "the table grows");
    if (vp_bool()) { g_failtab = true; picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY); return NULL; }
    g_new[g_k] = g_k < n ? g_old[g_k] : (void*)&err;
    g_grown = true;
    return g_new;
}
void tabfree(void* p) { }
/* lfind(): the first match; here any match, and none only if the arbitrary slot does not match either */
static void* vp_lfind(const void* key, const void* base, size_t* nmemb, size_t size, int (*cmp)(const void*, const void*))
{
    VP_ASSERT(g_reg == WRL && size == sizeof(void*), "slots are searched under the lock");
    VP_ASSERT(*nmemb == 0 || (base == m.lo + 1 && *nmemb <= m.nlos - 1), "only slots with a valid, non-zero index are searched");
    if (g_pos ? g_pos < MAX : vp_bool()) {
        size_t i = g_pos ? g_pos - 2 : vp_below(MAX);
        VP_ASSUME(i < *nmemb);
        struct picotm_lock_owner** p = (struct picotm_lock_owner**)base + i;
        struct picotm_lock_owner* c = *p;
        VP_ASSUME(c == *(struct picotm_lock_owner* const*)key);
        return p;
    }
    struct picotm_lock_owner* c = g_old[g_k];
    if (g_k >= 1 && g_k < m.nlos) VP_ASSUME(c != *(struct picotm_lock_owner* const*)key);
    return NULL;
}
static void mk(void)
{
    err = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
    g_reg = FREE; g_failreg = !g_n; g_regfailed = false;
    picotm_lock_manager_init(&m, &err);
    VP_ASSUME(!picotm_error_is_set(&err));
    VP_ASSERT(!m.nlos && !m.lo, "a new registry is empty");
    g_k = g_n ? g_n - 1 : vp_below(MAX);
    size_t n = g_n ? g_n : vp_below(MAX + 1);
    VP_ASSUME(n != 1); /* the first registration reserves slot 0 and adds slot 1 */
    m.nlos = n; m.lo = n ? g_old : NULL;
    g_old[0] = NULL;
    if (g_k) g_old[g_k] = vp_bool() && g_pos != g_k + 1 ? &g_x : NULL;
    unsigned long w = g_n ? 0xfffffffffffffffful : vp_u64();
    g_o.flags = w; g_o.next = NULL; g_x.flags = g_k;
    g_grown = g_failtab = false;
}
static void reg(void)
{
    mk();
    size_t n = m.nlos;
    struct picotm_lock_owner* old = g_old[g_k];
    unsigned long fl = g_o.flags;
    picotm_lock_manager_register_owner(&m, &g_o, &err);
    VP_ASSERT(g_reg == FREE, "the registry is unlocked");
    if (picotm_error_is_set(&err)) {
        VP_ASSERT(m.nlos == n, "a failed registration adds no slot");
        if (g_k < m.nlos) VP_ASSERT(m.lo[g_k] == old, "a failed registration changes no slot");
        VP_REACH("no slot");
        return;
    }
    unsigned long i = picotm_lock_owner_get_index(&g_o);
    VP_ASSERT(i > 0 && i < m.nlos && m.nlos <= FULL && m.lo[i] == &g_o, "a registered owner has a valid index of its own that resolves to it");
    VP_ASSERT((g_o.flags & ~0x3fful) == (fl & ~0x3fful), "the owner's other state is unchanged");
    if (g_k && g_k < n) {
        if (old) VP_ASSERT(i != g_k && m.lo[g_k] == old && picotm_lock_owner_get_index(&g_x) == g_k, "no other owner loses its slot");
        else VP_ASSERT(i == g_k || !m.lo[g_k], "free slots stay free");
    } else if (g_k && g_k < m.nlos) VP_ASSERT(i == g_k || !m.lo[g_k], "new slots are free");
    VP_ASSERT(m.nlos == n || g_grown, "the table grows by allocation");
    VP_REACH("registered");
#ifdef FULLTAB
    if (m.nlos == FULL) VP_REACH("full table");
#endif
#ifndef FULLTAB
    if (n && !g_grown) VP_REACH("reused");
#endif
    /* and back */
    picotm_lock_manager_unregister_owner(&m, &g_o);
    VP_ASSERT(g_reg == FREE && !m.lo[i], "an unregistered owner's slot is free");
    if (g_k && g_k < n && g_k != i) VP_ASSERT(m.lo[g_k] == old, "no other owner loses its slot");
    VP_REACH("unregistered");
}
void h_register(void) { g_n = g_pos = 0; reg(); }
void h_full(void)
{
    g_pos = FULL; /* no free slot */
    for (g_n = FULL - 1; g_n <= FULL; ++g_n) reg();
}
void h_index(void)
{
    unsigned long fl = vp_u64(), a = vp_below(1024), b = vp_below(1024);
    g_o.flags = fl;
    picotm_lock_owner_set_index(&g_o, a);
    VP_ASSERT(picotm_lock_owner_get_index(&g_o) == a, "the index is stored");
    picotm_lock_owner_set_next(&g_o, b);
    VP_ASSERT(picotm_lock_owner_get_next(&g_o) == b && picotm_lock_owner_get_index(&g_o) == a, "both indexes are stored");
    VP_ASSERT((g_o.flags >> 20) == (fl >> 20), "flags are unchanged");
    VP_REACH("index");
}
#else
static void* vp_lfind(const void* k, const void* b, size_t* n, size_t s, int (*c)(const void*, const void*)) { return NULL; }
void* tabresize(void* p, size_t n, size_t nn, size_t sz, struct picotm_error* e) { return NULL; }
void tabfree(void* p) { }

#ifndef WN
#define WN 3
#endif
enum { NW = 7, QL = 4, ME = 5, ENV = 6 }; /* owners 1..QL wait at first, ME is the caller's, ENV arrives meanwhile */
static struct picotm_lock_owner* g_lo[NW];
static struct picotm_lock_owner o1, o2, o3, o4, o5, o6;
static bool held[NW]; /* mutex held by the caller */
static bool signalled[NW];
static unsigned long head;
static bool g_locked[NW];
static bool env_arrive, env_leave, env_on, left[NW];
static int env_n, env_a, env_d; /* the step at which others arrive and depart */
static struct picotm_lock_owner* lo(unsigned i) { return g_lo[i]; }
static unsigned of_mutex(struct picotm_os_mutex* x) { return x == &o1.mutex ? 1 : x == &o2.mutex ? 2 : x == &o3.mutex ? 3 : x == &o4.mutex ? 4 : x == &o5.mutex ? 5 : x == &o6.mutex ? 6 : 0; }
static unsigned of_cond(struct picotm_os_cond* x) { return x == &o1.wait_cond ? 1 : x == &o2.wait_cond ? 2 : x == &o3.wait_cond ? 3 : x == &o4.wait_cond ? 4 : x == &o5.wait_cond ? 5 : x == &o6.wait_cond ? 6 : 0; }
void picotm_os_mutex_init(struct picotm_os_mutex* s, struct picotm_error* e) { }
void picotm_os_mutex_uninit(struct picotm_os_mutex* s) { }
static int fail_lock = -1, fail_sig = -1; /* which call fails */
static int nlock, nsig;
static bool failed;
void picotm_os_mutex_lock(struct picotm_os_mutex* s, struct picotm_error* e)
{
    unsigned i = of_mutex(s);
    VP_ASSERT(i, "an owner's mutex");
    VP_ASSERT(!held[i], "no mutex is locked twice");
    VP_ASSERT(g_reg != FREE || i == ME, "other owners are accessed only while they cannot be unregistered");
    if (nlock++ == fail_lock) { failed = true; picotm_error_set_errno(e, EAGAIN); return; }
    held[i] = true;
}
void picotm_os_mutex_unlock(struct picotm_os_mutex* s)
{
    unsigned i = of_mutex(s);
    VP_ASSERT(i && held[i], "each mutex is unlocked once, by its holder");
    held[i] = false;
}
void picotm_os_cond_init(struct picotm_os_cond* s, struct picotm_error* e) { }
void picotm_os_cond_uninit(struct picotm_os_cond* s) { }
void picotm_os_cond_wake_up(struct picotm_os_cond* s, struct picotm_error* e)
{
    unsigned i = of_cond(s);
    VP_ASSERT(i && held[i] && !signalled[i], "a waiter is woken once, with its mutex held");
    if (nsig++ == fail_sig) { failed = true; picotm_error_set_errno(e, EAGAIN); return; }
    signalled[i] = true;
}
/* other threads: owner ENV starts to wait; the first waiter gives up, which takes its own mutex */
static void others(void)
{
    if (!env_on) return;
    int step = env_n++;
    if (step == env_a) {
        env_arrive = true;
        o6.next = head ? lo(head) : NULL;
        o6.flags = ENV | head << 10 | LOCK_OWNER_RD | LOCK_OWNER_WT;
        head = ENV;
    }
    if (step == env_d && head && head != ME && !held[head]) {
        env_leave = true;
        left[head] = true;
        head = (lo(head)->flags >> 10) & 1023;
    }
}
static unsigned long get_first(void* s) { VP_ASSERT(s == &head, "the lock's own queue"); others(); return head; }
static unsigned long cmpxchg(void* s, unsigned long e, unsigned long d)
{
    VP_ASSERT(s == &head, "the lock's own queue");
    others();
    unsigned long o = head;
    if (o == e) head = d;
    return o;
}
static const struct picotm_lock_slist_funcs F = { get_first, cmpxchg };
static long n_sec, n_ns;
static int vp_gettime(clockid_t c, struct timespec* t) { t->tv_sec = n_sec; t->tv_nsec = n_ns; return 0; }
#define clock_gettime vp_gettime
#include "src/picotm_os_timespec.c"

static void mk(unsigned n, unsigned f) /* f: for each waiter, whether it is a reader and whether it still waits */
{
    err = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
    g_reg = FREE; g_failreg = g_regfailed = false; fail_lock = fail_sig = -1; nlock = nsig = 0; failed = false;
    struct picotm_lock_owner* all[NW] = { NULL, &o1, &o2, &o3, &o4, &o5, &o6 };
    for (unsigned i = 0; i < NW; ++i) {
        g_lo[i] = all[i]; held[i] = signalled[i] = left[i] = false;
        if (!i) continue;
        picotm_lock_owner_init(lo(i), &err);
        picotm_lock_owner_set_index(lo(i), i);
        lo(i)->timestamp.tv_sec = 0; lo(i)->timestamp.tv_nsec = 0;
    }
    m.lo = g_lo; m.nlos = NW;
    head = 0; env_arrive = env_leave = env_on = false; env_n = 0; env_a = env_d = -1;
    for (unsigned i = 1; i <= n; ++i, f >>= 2) { /* waiter i came as the i-th */
        picotm_lock_owner_set_next(lo(i), head);
        lo(i)->next = head ? lo(head) : NULL;
        lo(i)->flags |= f & 1 ? LOCK_OWNER_RD : LOCK_OWNER_WR;
        if (f & 2) lo(i)->flags |= LOCK_OWNER_WT;
        head = i;
    }
}
/* the queue is o_n, ..., o_1 without those that left, perhaps ENV and ME before them */
static void check_queue(bool me, unsigned n)
{
    VP_ASSERT(g_reg == FREE, "the registry is unlocked");
    for (unsigned i = 1; i < NW; ++i) VP_ASSERT(!held[i], "no waiter stays locked");
    unsigned long i = head; /* by index and by pointer */
    struct picotm_lock_owner* p = head ? lo(head) : NULL;
    unsigned seen = 0;
    unsigned last = NW;
    for (unsigned k = 0; k < NW && i; ++k) {
        VP_ASSERT(i < NW && p == lo(i), "indexes and pointers describe the same queue");
        VP_ASSERT(!(seen & 1 << i) && !left[i], "each waiter is queued once");
        if (i <= QL) { VP_ASSERT(i < last, "waiters stay in the order of arrival"); last = i; }
        seen |= 1 << i;
        i = picotm_lock_owner_get_next(lo(i));
        p = p->next;
    }
    VP_ASSERT(!i && !p, "the queue ends");
    for (unsigned k = 1; k <= n; ++k) VP_ASSERT(!!(seen & 1 << k) == !left[k], "no waiter is lost");
    VP_ASSERT(!!(seen & 1 << ENV) == (env_arrive && !left[ENV]), "no new waiter is lost");
    VP_ASSERT(!!(seen & 1 << ME) == me, "the caller is queued as long as it waits");
}
static unsigned long fl[NW];
static void save(void) { for (unsigned i = 1; i < NW; ++i) fl[i] = lo(i)->flags; }

static bool g_wr, g_waited, g_timeout;
static int g_how; /* woken, woken after a spurious wake-up, timeout, failure */
enum { WOKEN, SPURIOUS, TIMEOUT, FAILURE, HOW };
bool picotm_os_cond_wait_until(struct picotm_os_cond* s, struct picotm_os_mutex* x, const struct timespec* t, struct picotm_error* e)
{
    VP_ASSERT(s == &o5.wait_cond && x == &o5.mutex && held[ME] && g_reg == FREE, "the caller waits with its own mutex and without the registry's lock");
    VP_ASSERT((o5.flags & LOCK_OWNER_WT) && !!(o5.flags & LOCK_OWNER_WR) == g_wr && !!(o5.flags & LOCK_OWNER_RD) == !g_wr, "a waiter tells what it waits for");
    VP_ASSERT((t->tv_sec == n_sec && t->tv_nsec == n_ns + 1000) || (t->tv_sec == n_sec + 1 && t->tv_nsec == n_ns + 1000 - 1000000000), "waiting is limited");
    VP_ASSERT(env_on || head == ME, "the waiter is queued");
    g_waited = true;
    held[ME] = false;
    others(); /* may prepend to and remove from the queue */
    held[ME] = true;
    if (g_how == FAILURE) { failed = true; picotm_error_set_errno(e, EINVAL); return false; }
    if (g_how == TIMEOUT) { g_timeout = true; return false; }
    if (g_how == WOKEN) o5.flags &= ~LOCK_OWNER_WT;
    else { g_how = WOKEN; }
    return true;
}
static void wait_case(unsigned n, bool conc, int a, int d, int how, bool wr, long sec, long ns)
{
    mk(n, 0xff);
    env_on = conc; env_a = a; env_d = d;
    n_sec = sec; n_ns = ns;
    g_wr = wr; g_how = how;
    g_waited = g_timeout = false;
    save();
    bool r = picotm_lock_manager_wait(&m, &o5, g_wr, &F, &head, &err);
    VP_ASSERT(r == (g_waited && !g_timeout && !failed), "the result tells whether the caller was woken");
    VP_ASSERT(g_waited == (sec >= 1), "a transaction waits after running for a second");
    VP_ASSERT(failed == picotm_error_is_set(&err), "failures are reported");
    check_queue(false, n);
    VP_ASSERT((o5.flags & ~(0xffc00ul)) == (fl[ME] & ~(0xffc00ul)), "the caller does not wait any more");
    for (unsigned i = 1; i <= n; ++i) VP_ASSERT(!signalled[i] && ((lo(i)->flags ^ fl[i]) >> 20) == 0, "other waiters are not disturbed");
}
void h_wait(void)
{
    for (unsigned n = 0; n <= QL; ++n) {
        wait_case(n, false, -1, -1, WOKEN, n & 1, 0, 999999999);
        wait_case(n, false, -1, -1, TIMEOUT, n & 1, 1, 999999000);
        for (int how = 0; how < HOW; ++how)
            wait_case(n, false, -1, -1, how, how & 1, 1, 0);
    }
    VP_REACH("done");
}
void h_wait_conc(void)
{
    for (unsigned n = 1; n <= 2; ++n)
        for (int a = -1; a < 5; ++a)
            for (int d = -1; d < 6; ++d) {
                wait_case(n, true, a, d, WOKEN, d & 1, 2, 5);
                VP_ASSERT(env_n < 11, "all steps are covered");
            }
    VP_REACH("done");
}
static void wake_case(unsigned n, unsigned f, bool conc, int fl_lock, int fl_sig)
{
    mk(n, f);
    fail_lock = fl_lock; fail_sig = fl_sig;
    save();
    picotm_lock_manager_wake_up(&m, conc, &F, &head, &err);
    VP_ASSERT(failed == picotm_error_is_set(&err), "failures are reported");
    check_queue(false, n);
    unsigned longest = 0;
    for (unsigned i = n; i >= 1; --i) if (fl[i] & LOCK_OWNER_WT) longest = i;
    for (unsigned i = 1; i < NW; ++i) {
        bool woken = signalled[i];
        VP_ASSERT(!woken || (i <= n && (fl[i] & LOCK_OWNER_WT)), "only waiters of the lock are woken");
        bool want = longest && (i == longest || (i <= n && conc && (fl[i] & LOCK_OWNER_WT) && (fl[longest] & LOCK_OWNER_RD) && (fl[i] & LOCK_OWNER_RD)));
        if (!failed) {
            VP_ASSERT(woken == want, "the longest waiting is woken and, if it reads, all waiting readers");
            VP_ASSERT((lo(i)->flags ^ fl[i]) == (woken ? LOCK_OWNER_WT : 0), "exactly the woken waiters stop waiting");
        } else VP_ASSERT(!((lo(i)->flags ^ fl[i]) & ~LOCK_OWNER_WT), "no waiter changes");
    }
}
void h_wake(void)
{
    for (unsigned n = 0; n <= WN; ++n)
        for (unsigned f = 0; f < 1u << 2 * n; ++f)
            for (unsigned c = 0; c < 2; ++c)
                wake_case(n, f, c, -1, -1);
    VP_REACH("woken");
}
void h_wake_fail(void)
{
    for (unsigned f = 10; f < 16; ++f) {
        for (int k = 0; k < 6; ++k) wake_case(2, f, true, k, -1);
        for (int k = 0; k < 3; ++k) wake_case(2, f, true, -1, k);
    }
    VP_REACH("failures");
}
void h_wake_conc(void)
{
    for (int a = -1; a < 3; ++a)
        for (int d = -1; d < 3; ++d)
            for (unsigned f = 5; f < 16; f += f & 2 ? 6 : 2) { /* readers: each may still wait or not */
                mk(2, f);
                env_on = true; env_a = a; env_d = d;
                save();
                picotm_lock_manager_wake_up(&m, true, &F, &head, &err);
                check_queue(false, 2);
                for (unsigned i = 1; i <= 2; ++i) VP_ASSERT(!signalled[i] || (fl[i] & LOCK_OWNER_WT), "only waiters of the lock are woken");
                bool one = signalled[1] || signalled[2] || signalled[ENV];
                if (((fl[1] & LOCK_OWNER_WT) && !left[1]) || ((fl[2] & LOCK_OWNER_WT) && !left[2])) VP_ASSERT(one, "a waiter is woken");
            }
    VP_REACH("woken");
}
#endif
