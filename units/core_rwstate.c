/* picotm-lib-rwstate.c over the contract of picotm-lib-rwlock.c (property L01): every operation keeps status == share from
 * every state, so every history does. */
#include "vp.h"
#define siginfo_t int
#include "src/picotm-error.c"
#include "src/picotm-lib-rwstate.c"
static struct picotm_rwlock l;
static struct picotm_rwstate s;
static struct picotm_error err;
static enum picotm_rwstate_status g_share;
static unsigned g_taken, g_released;
static bool g_fail;
static void refuse(struct picotm_error* e)
{
    g_fail = true;
    if (vp_bool()) picotm_error_set_conflicting(e, &l); else picotm_error_set_errno(e, vp_int());
}
void picotm_rwlock_try_rdlock(struct picotm_rwlock* self, struct picotm_error* e)
{
    VP_ASSERT(self == &l && g_share == PICOTM_RWSTATE_UNLOCKED, "a reader share is requested at most once");
    if (vp_bool()) { refuse(e); return; }
    g_taken++; g_share = PICOTM_RWSTATE_RDLOCKED;
}
void picotm_rwlock_try_wrlock(struct picotm_rwlock* self, bool upgrade, struct picotm_error* e)
{
    VP_ASSERT(self == &l && g_share != PICOTM_RWSTATE_WRLOCKED, "the writer share is requested at most once");
    VP_ASSERT(!upgrade == (g_share == PICOTM_RWSTATE_UNLOCKED), "a held reader share is upgraded, otherwise the lock is taken fresh");
    if (vp_bool()) { refuse(e); return; }
    g_taken++; g_share = PICOTM_RWSTATE_WRLOCKED;
}
void picotm_rwlock_unlock(struct picotm_rwlock* self)
{
    VP_ASSERT(self == &l && g_share != PICOTM_RWSTATE_UNLOCKED, "only a held share is released");
    g_released++; g_share = PICOTM_RWSTATE_UNLOCKED;
}
void h_rwstate(void)
{
    err = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
    picotm_rwstate_init(&s);
    VP_ASSERT(picotm_rwstate_get_status(&s) == PICOTM_RWSTATE_UNLOCKED, "a new status holds nothing");
    enum picotm_rwstate_status all[] = { PICOTM_RWSTATE_UNLOCKED, PICOTM_RWSTATE_RDLOCKED, PICOTM_RWSTATE_WRLOCKED }, st = all[vp_below(3)];
    picotm_rwstate_set_status(&s, st);
    VP_ASSERT(picotm_rwstate_get_status(&s) == st, "the status is as set");
    g_share = st;
    switch (vp_below(3)) {
    case 0:
        picotm_rwstate_try_rdlock(&s, &l, &err);
        VP_ASSERT(g_released == 0, "a lock request releases nothing");
        if (!g_fail) VP_ASSERT(g_share != PICOTM_RWSTATE_UNLOCKED, "after a read request there is at least a reader share");
        if (st != PICOTM_RWSTATE_UNLOCKED) VP_ASSERT(!g_taken && g_share == st, "a repeated request takes no second share");
        VP_REACH("rd");
        break;
    case 1:
        picotm_rwstate_try_wrlock(&s, &l, &err);
        VP_ASSERT(g_released == 0, "a lock request releases nothing");
        if (!g_fail) VP_ASSERT(g_share == PICOTM_RWSTATE_WRLOCKED, "after a write request there is the writer share");
        if (st == PICOTM_RWSTATE_WRLOCKED) VP_ASSERT(!g_taken, "a repeated request takes no second share");
        VP_REACH("wr");
        break;
    default:
        picotm_rwstate_unlock(&s, &l);
        VP_ASSERT(g_share == PICOTM_RWSTATE_UNLOCKED && g_released == (st != PICOTM_RWSTATE_UNLOCKED), "unlocking releases the share once, if there is one");
        VP_REACH("un");
    }
    VP_ASSERT(picotm_error_is_set(&err) == g_fail, "a request fails iff the lock refuses");
    if (g_fail) VP_ASSERT(g_share == st && !g_taken, "a refused request changes nothing");
    VP_ASSERT(picotm_rwstate_get_status(&s) == g_share, "the recorded status is the held share");
    VP_REACH("end");
}
