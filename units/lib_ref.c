/* reference counters, counted objects, shared and per-thread state */
#include "vp.h"
#include "picotm/picotm-error.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-lib-state.h"
#include "picotm/picotm-lib-shared-state.h"
#include "picotm/picotm-lib-thread-state.h"
#include "src/picotm-lib-shared-ref-obj.c"
void picotm_error_mark_as_non_recoverable(struct picotm_error* e) { e->is_non_recoverable = true; }
static unsigned g_recover;
void picotm_recover_from_error(const struct picotm_error* e) { VP_ASSERT(e->status && e->is_non_recoverable, "only failures are reported, as non-recoverable"); ++g_recover; }

VP_MAIN(h_count)
{
    uint16_t c = vp_u16();
    struct picotm_ref16 r;
    struct picotm_shared_ref16 s;
    picotm_ref_init(&r, c);
    picotm_ref_init(&s, c);
    VP_ASSERT(picotm_ref_count(&r) == c && picotm_ref_count(&s) == c, "the counter starts as told");
    if (c < UINT16_MAX) {
        bool f = picotm_ref_up(&r), g = picotm_ref_up(&s);
        VP_ASSERT(f == (c == 0) && g == f, "exactly the rise from zero is the first reference");
        VP_ASSERT(picotm_ref_count(&r) == c + 1 && picotm_ref_count(&s) == c + 1, "one reference is added");
        f = picotm_ref_down(&r); g = picotm_ref_down(&s);
        VP_ASSERT(f == (c == 0) && g == f, "exactly the return to zero is the last reference");
        VP_ASSERT(picotm_ref_count(&r) == c && picotm_ref_count(&s) == c, "one reference is removed");
    }
    VP_REACH("done");
}

static struct picotm_shared_ref16_obj o;
static unsigned n_cond, n_first, n_final, n_fail; static uint16_t c0; static int data;
static bool locked(void)
{
    struct picotm_spinlock l = o.lock;
    return !picotm_spinlock_try_lock(&l);
}
static bool ok(struct picotm_shared_ref16_obj* p, void* d) { return p == &o && d == &data && locked(); }
static int cond_r;
static bool cond(struct picotm_shared_ref16_obj* p, void* d, struct picotm_error* e)
{
    ++n_cond;
    VP_ASSERT(ok(p, d) && n_first == 0 && n_final == 0, "the condition is tested first, under the lock");
    cond_r = vp_below(3);
    if (cond_r == 2 && n_fail < 2) { ++n_fail; e->status = PICOTM_ERROR_CODE; return vp_bool(); }
    VP_ASSUME(cond_r < 2);
    return cond_r;
}
static bool first_fails;
static void first(struct picotm_shared_ref16_obj* p, void* d, struct picotm_error* e)
{
    ++n_first;
    VP_ASSERT(ok(p, d), "set-up runs under the lock");
    first_fails = vp_bool();
    if (first_fails) e->status = PICOTM_ERROR_CODE;
}
static void final(struct picotm_shared_ref16_obj* p, void* d, struct picotm_error* e)
{
    ++n_final;
    VP_ASSERT(ok(p, d), "tear-down runs under the lock");
    if (n_fail < 2 && vp_bool()) { ++n_fail; e->status = PICOTM_ERROR_CODE; }
}
VP_MAIN(h_obj)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    picotm_shared_ref16_obj_init(&o, &e);
    VP_ASSERT(!e.status && picotm_shared_ref16_obj_count(&o) == 0, "objects start without references");
    c0 = vp_u16();
    bool up = vp_bool(), hc = vp_bool(), hf = vp_bool();
    VP_ASSUME(up ? c0 < UINT16_MAX : c0 > 0);
    picotm_ref_init(&o.ref, c0);
    uint16_t c1;
    if (up) {
        picotm_shared_ref16_obj_up(&o, &data, hc ? cond : NULL, hf ? first : NULL, &e);
        c1 = picotm_shared_ref16_obj_count(&o);
        bool refused = hc && cond_r != 1;
        VP_ASSERT(n_cond == hc && n_final == 0, "the condition is tested once");
        VP_ASSERT(n_first == (hf && !refused && c0 == 0 ? 1 : 0), "set up exactly when the count rises from zero");
        VP_ASSERT((e.status != 0) == (hc && cond_r == 2 || n_first && first_fails), "failures are reported");
        VP_ASSERT(c1 == c0 + (refused || e.status ? 0 : 1), "refused or failing set-ups leave the count unchanged, others add one");
        VP_REACH("up");
    } else {
        picotm_shared_ref16_obj_down(&o, &data, hc ? cond : NULL, hf ? final : NULL);
        c1 = picotm_shared_ref16_obj_count(&o);
        bool refused = hc && cond_r != 1;
        VP_ASSERT(n_first == 0 && n_cond >= hc && g_recover == n_fail, "failures are reported");
        VP_ASSERT(hf && !refused && c0 == 1 ? n_final >= 1 : n_final == 0, "torn down exactly when the count returns to zero");
        VP_ASSERT(c1 == c0 - (refused ? 0 : 1), "a refused release leaves the count unchanged, others remove one");
        VP_REACH("down");
    }
    VP_ASSERT(!locked(), "the object's lock is released");
    picotm_shared_ref16_obj_uninit(&o);
}

struct foo { int x; };
static unsigned n_init, n_uninit; static struct foo* f_at; static bool f_fail;
static void init_foo(struct foo* f, struct picotm_error* e) { ++n_init; f_at = f; f_fail = vp_bool(); if (f_fail) e->status = PICOTM_ERROR_CODE; }
static void uninit_foo(struct foo* f) { VP_ASSERT(f == f_at, "the state that was set up is torn down"); ++n_uninit; }
PICOTM_SHARED_STATE(foo, struct foo)
PICOTM_SHARED_STATE_STATIC_IMPL(foo, struct foo, init_foo, uninit_foo)
PICOTM_STATE(foo, struct foo);
PICOTM_STATE_STATIC_DECL(foo, struct foo)
PICOTM_THREAD_STATE_STATIC_DECL(foo)
PICOTM_STATE_STATIC_IMPL(foo, struct foo, init_foo, uninit_foo)
PICOTM_THREAD_STATE_STATIC_IMPL(foo)
/* any number of references before the step: count > 0 iff set up */
VP_MAIN(h_shared)
{
    static PICOTM_SHARED_STATE_TYPE(foo) s = PICOTM_SHARED_STATE_INITIALIZER;
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    c0 = vp_u16();
    picotm_ref_init(&s.ref_obj.ref, c0);
    f_at = &s.foo;
    if (vp_bool()) {
        VP_ASSUME(c0 < UINT16_MAX);
        struct foo* f = PICOTM_SHARED_STATE_REF(foo, &s, &e);
        VP_ASSERT(n_init == (c0 == 0) && n_uninit == 0 && f_at == &s.foo, "set up exactly on the first reference");
        VP_ASSERT((e.status != 0) == (c0 == 0 && f_fail) && (f != NULL) == !e.status && (!f || f == &s.foo), "the state is returned, or an error");
        VP_ASSERT(picotm_shared_ref16_obj_count(&s.ref_obj) == c0 + !e.status, "the reference is counted");
        VP_REACH("ref");
    } else {
        VP_ASSUME(c0 > 0);
        PICOTM_SHARED_STATE_UNREF(foo, &s);
        VP_ASSERT(n_uninit == (c0 == 1) && n_init == 0 && picotm_shared_ref16_obj_count(&s.ref_obj) == c0 - 1, "torn down exactly on the last release");
        VP_REACH("unref");
    }
}
VP_MAIN(h_state)
{
    bool init = vp_bool(), live = vp_bool();
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    PICOTM_STATE_TYPE(foo)* st = __PICOTM_THREAD_STATE_GET(foo)();
    VP_ASSERT(!st->is_initialized, "thread state starts empty");
    st->is_initialized = live;
    f_at = &st->foo;
    struct foo* f = PICOTM_THREAD_STATE_ACQUIRE(foo, init, &e);
    VP_ASSERT(n_init == (!live && init) && n_uninit == 0, "set up on first use only, if wanted");
    bool now = live || init && !f_fail;
    VP_ASSERT((e.status != 0) == (!live && init && f_fail), "failures are reported");
    VP_ASSERT(f == (now ? &st->foo : NULL) && st->is_initialized == now, "the state is returned if it is set up");
    unsigned k = n_init;
    struct picotm_error e2 = PICOTM_ERROR_INITIALIZER;
    if (now) { VP_ASSERT(PICOTM_THREAD_STATE_ACQUIRE(foo, vp_bool(), &e2) == f && n_init == k, "it is set up once"); VP_REACH("again"); }
    PICOTM_THREAD_STATE_RELEASE(foo);
    VP_ASSERT(n_uninit == now && !st->is_initialized, "torn down once");
    PICOTM_THREAD_STATE_RELEASE(foo);
    VP_ASSERT(n_uninit == now, "torn down once");
    VP_REACH("done");
}
