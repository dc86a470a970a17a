/* picotm-lib-rwlock.c, thread-modular: before every atomic step, other threads may have changed the lock word in any way that
 * preserves the own share (rely); every own step must be a legal transition of the lock word (guarantee). All threads run
 * this code, so the guarantees of all others justify the rely, and the results hold for every interleaving.
 *
 * Lock word: reader count in bits 0-3, where 15 stands for a writer; index of the first waiter above. */
#include "vp.h"
#include <stdatomic.h>
#include <time.h>
#define siginfo_t int
static uint16_t vp_load(void* p);
static bool vp_cas(void* p, void* expected, uint16_t desired);
static uint16_t vp_add(void* p, uint16_t v);
static uint16_t vp_swap(void* p, uint16_t v);
#undef atomic_init
#define atomic_init(p, v) ((void)(*(uint16_t*)(void*)(p) = (v)))
#undef atomic_load_explicit
#undef atomic_load
#undef atomic_compare_exchange_strong_explicit
#undef atomic_compare_exchange_strong
#undef atomic_compare_exchange_weak_explicit
#undef atomic_compare_exchange_weak
#undef atomic_fetch_sub_explicit
#undef atomic_fetch_sub
#undef atomic_fetch_add_explicit
#undef atomic_fetch_add
#undef atomic_store_explicit
#undef atomic_store
#undef atomic_exchange_explicit
#undef atomic_exchange
#define atomic_load_explicit(p, o) vp_load((void*)(p))
#define atomic_load(p) vp_load((void*)(p))
#define atomic_compare_exchange_strong_explicit(p, e, d, s, f) vp_cas((void*)(p), e, d)
#define atomic_compare_exchange_strong(p, e, d) vp_cas((void*)(p), e, d)
#define atomic_compare_exchange_weak_explicit(p, e, d, s, f) vp_cas((void*)(p), e, d)
#define atomic_compare_exchange_weak(p, e, d) vp_cas((void*)(p), e, d)
#define atomic_fetch_sub_explicit(p, v, o) vp_add((void*)(p), -(v))
#define atomic_fetch_sub(p, v) vp_add((void*)(p), -(v))
#define atomic_fetch_add_explicit(p, v, o) vp_add((void*)(p), v)
#define atomic_fetch_add(p, v) vp_add((void*)(p), v)
#define atomic_store_explicit(p, v, o) ((void)vp_swap((void*)(p), v))
#define atomic_store(p, v) ((void)vp_swap((void*)(p), v))
#define atomic_exchange_explicit(p, v, o) vp_swap((void*)(p), v)
#define atomic_exchange(p, v) vp_swap((void*)(p), v)
#include "src/picotm-error.c"
#include "src/picotm-lib-rwlock.c"

static struct picotm_rwlock l;
static struct picotm_error err;
enum { NONE, RD, WR };
static unsigned g_own, g_steps;
static bool g_index; /* changing the waiter index is the purpose of the call */
static bool g_waiters; /* there were waiters all the time */
static unsigned g_woken, g_waits;
static int lo;

static unsigned cnt(uint16_t n) { return n & 15; }
static unsigned idx(uint16_t n) { return n >> 4; }
static void other_threads(void* p)
{
    VP_ASSERT(p == (void*)&l.n, "only the lock's word is accessed");
    uint16_t* n = p;
    if (vp_bool()) {
        uint16_t v = vp_u16();
        VP_ASSUME(idx(v) < 1024);
        if (g_own == WR) VP_ASSUME(cnt(v) == 15);
        if (g_own == RD) VP_ASSUME(cnt(v) >= 1 && cnt(v) <= 14);
        *n = v;
    }
    if (!idx(*n)) g_waiters = false;
}
static void step(void* p, uint16_t o, uint16_t n)
{
    unsigned co = cnt(o), cn = cnt(n);
    g_steps++;
    if (co == cn) { VP_ASSERT(idx(o) == idx(n) || g_index, "taking and releasing a lock keeps its waiters"); return; }
    VP_ASSERT(idx(o) == idx(n), "the share and the waiters are not changed at once");
    if (g_own == NONE && co == 0 && cn == 15) g_own = WR;
    else if (g_own == NONE && co < 14 && cn == co + 1) g_own = RD;
    else if (g_own == RD && co == 1 && cn == 15) g_own = WR;
    else if (g_own == RD && co <= 14 && cn == co - 1) g_own = NONE;
    else if (g_own == WR && cn == 0) g_own = NONE;
    else VP_ASSERT(0, "each change of the lock word is a legal step: a writer only alone, readers only without a writer, an upgrade only by the sole reader, a release of the own share");
}
static uint16_t vp_load(void* p) { other_threads(p); return *(uint16_t*)p; }
static bool vp_cas(void* p, void* e, uint16_t d)
{
    other_threads(p);
    uint16_t* n = p;
    if (*n != *(uint16_t*)e) { *(uint16_t*)e = *n; return false; }
    step(p, *n, d);
    *n = d;
    return true;
}
static uint16_t vp_add(void* p, uint16_t v)
{
    other_threads(p);
    uint16_t* n = p, o = *n;
    step(p, o, o + v);
    *n = o + v;
    return o;
}
static uint16_t vp_swap(void* p, uint16_t v)
{
    other_threads(p);
    uint16_t* n = p, o = *n;
    step(p, o, v);
    *n = v;
    return o;
}
struct picotm_lock_owner* picotm_lock_owner_get_thread_local_instance(void) { return (void*)&lo; }
struct picotm_lock_manager* picotm_lock_owner_get_lock_manager(struct picotm_lock_owner* o)
{
    VP_ASSERT(o == (void*)&lo, "the own lock owner waits");
    return (void*)(&lo + 1);
}
static bool g_waitfail;
bool picotm_lock_manager_wait(struct picotm_lock_manager* m, struct picotm_lock_owner* o, bool wr,
                              const struct picotm_lock_slist_funcs* f, void* slist, struct picotm_error* e)
{
    VP_ASSERT(m == (void*)(&lo + 1) && o == (void*)&lo && slist == &l && f->get_first_index && f->cmpxchg_first_index, "a thread waits for the lock it wants");
    g_waits++;
    if (vp_bool()) { g_waitfail = true; picotm_error_set_errno(e, vp_int()); return false; }
    return vp_bool();
}
void picotm_lock_manager_wake_up(struct picotm_lock_manager* m, bool readers, const struct picotm_lock_slist_funcs* f, void* slist, struct picotm_error* e)
{
    VP_ASSERT(m == (void*)(&lo + 1) && slist == &l && f->get_first_index && f->cmpxchg_first_index, "the released lock's waiters are woken");
    VP_ASSERT(g_own == NONE, "waiters are woken after the release");
    g_woken++;
}
void picotm_os_nanosleep(const struct timespec* t, struct picotm_error* e) { }
void picotm_recover_from_error(const struct picotm_error* e) { VP_ASSERT(0, "no error"); }

static void mk(unsigned own)
{
    err = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
    picotm_rwlock_init(&l);
    g_own = own; g_steps = 0; g_index = false; g_waiters = true; g_woken = g_waits = 0; g_waitfail = false;
    uint16_t* n = (void*)&l.n;
    *n = vp_u16();
    VP_ASSUME(idx(*n) < 1024);
    if (own == WR) VP_ASSUME(cnt(*n) == 15);
    if (own == RD) VP_ASSUME(cnt(*n) >= 1 && cnt(*n) <= 14);
}
static void result(unsigned want, unsigned had)
{
    if (!picotm_error_is_set(&err)) {
        VP_ASSERT(g_own == want && g_steps == 1, "success takes exactly the requested share");
        VP_REACH("granted");
    } else {
        VP_ASSERT(g_own == had && g_steps == 0, "a refused request changes no holder");
        if (!g_waitfail) VP_ASSERT(picotm_error_is_conflicting(&err) && err.value.conflicting_lock == &l, "a refusal is reported as a conflict on the lock");
        VP_REACH("refused");
    }
}
void h_rdlock(void) { mk(NONE); picotm_rwlock_try_rdlock(&l, &err); result(RD, NONE); }
void h_wrlock(void) { mk(NONE); picotm_rwlock_try_wrlock(&l, false, &err); result(WR, NONE); }
void h_uplock(void) { mk(RD); picotm_rwlock_try_wrlock(&l, true, &err); result(WR, RD); }
void h_unlock(void)
{
    mk(vp_bool() ? RD : WR);
    picotm_rwlock_unlock(&l);
    VP_ASSERT(g_own == NONE && g_steps == 1, "a release gives the own share back, once");
    if (g_waiters) VP_ASSERT(g_woken == 1, "waiters are woken");
    VP_REACH("released");
    if (g_waiters) VP_REACH("woken");
}
void h_index(void)
{
    mk(vp_below(3));
    unsigned e = vp_below(1024), d = vp_below(1024);
    VP_ASSUME(e != d);
    g_index = true;
    unsigned own = g_own;
    unsigned long r = picotm_rwlock_cmpxchg_index(&l, e, d);
    VP_ASSERT(g_own == own && g_steps <= 1, "waiter bookkeeping changes no holder");
    VP_ASSERT((r == e) == (g_steps == 1), "the first waiter is exchanged iff it is the expected one");
    if (g_steps) { VP_ASSERT(idx(*(uint16_t*)&l.n) == d, "the lock refers to the new first waiter, for every waiter index"); VP_REACH("set"); }
    else VP_REACH("not set");
}
void h_get(void)
{
    picotm_rwlock_init(&l);
    struct picotm_rwlock l2 = PICOTM_RWLOCK_INITIALIZER;
    VP_ASSERT(*(uint16_t*)&l.n == 0 && *(uint16_t*)&l2.n == 0, "a new lock is free");
    mk(vp_below(3));
    unsigned long r = picotm_rwlock_get_index(&l);
    VP_ASSERT(r == idx(*(uint16_t*)&l.n) && g_steps == 0, "the first waiter is read without changing the lock");
    VP_REACH("get");
}
