/* picotm_os_timespec.c */
#include "vp.h"
#include <time.h>
#include <string.h>
#define siginfo_t int
static int vp_nanosleep(const struct timespec* req, struct timespec* rem);
static int vp_clock_gettime(clockid_t c, struct timespec* t);
#define nanosleep vp_nanosleep
#define clock_gettime vp_clock_gettime
#include "src/picotm-error.c"
#include "src/picotm_os_timespec.c"
static struct picotm_error err;
/* r == a + s * b in nanoseconds: the nanoseconds agree up to k seconds, which the seconds make up for */
static bool exact(const struct timespec* r, const struct timespec* a, const struct timespec* b, long s)
{
    for (long k = -1; k <= 1; ++k)
        if (r->tv_nsec == a->tv_nsec + s * b->tv_nsec - k * 1000000000l && r->tv_sec == a->tv_sec + s * b->tv_sec + k) return true;
    return false;
}
static bool less(const struct timespec* a, const struct timespec* b)
{
    return a->tv_sec < b->tv_sec || (a->tv_sec == b->tv_sec && a->tv_nsec < b->tv_nsec);
}
static struct timespec a, b, r;
static void mk(void)
{
    a = (struct timespec){ vp_long(), vp_below(1000000000) };
    b = (struct timespec){ vp_long(), vp_below(1000000000) };
    VP_ASSUME(a.tv_sec > LONG_MIN / 4 && a.tv_sec < LONG_MAX / 4 && b.tv_sec > LONG_MIN / 4 && b.tv_sec < LONG_MAX / 4);
}
void h_add(void)
{
    mk();
    r = a; picotm_os_add_timespec(&r, &b);
    VP_ASSERT(r.tv_nsec >= 0 && r.tv_nsec < 1000000000, "a sum is normalised");
    VP_ASSERT(exact(&r, &a, &b, 1), "a sum is exact");
    VP_REACH("add");
}
void h_sub(void)
{
    mk();
    r = a; picotm_os_sub_timespec(&r, &b);
    VP_ASSERT(r.tv_nsec >= 0 && r.tv_nsec < 1000000000, "a difference is normalised");
    VP_ASSERT(exact(&r, &a, &b, -1), "a difference is exact");
    VP_REACH("sub");
}
void h_cmp(void)
{
    mk();
    VP_ASSUME(a.tv_sec >= 0 && b.tv_sec >= 0);
    int c = picotm_os_timespec_compare(&a, &b);
    VP_ASSERT((c < 0) == less(&a, &b) && (c > 0) == less(&b, &a), "times compare by their number of nanoseconds");
    VP_REACH("cmp");
}
static struct timespec g_left;
static unsigned g_slept, g_fail;
static int vp_clock_gettime(clockid_t c, struct timespec* t)
{
    VP_ASSERT(c == CLOCK_REALTIME, "the clock is the one condition variables use");
    if (vp_bool()) { errno = g_fail = 1 + vp_below(100); return -1; }
    *t = a;
    return 0;
}
static int vp_nanosleep(const struct timespec* req, struct timespec* rem)
{
    VP_ASSERT(req->tv_sec == g_left.tv_sec && req->tv_nsec == g_left.tv_nsec, "an interrupted sleep goes on for the rest of the time");
    VP_ASSUME(g_slept < 3);
    g_slept++;
    switch (vp_below(3)) {
    case 0: g_left = (struct timespec){ 0, 0 }; return 0;
    case 1: errno = g_fail = EINVAL; return -1;
    default: g_left = (struct timespec){ vp_below(100), vp_below(1000000000) }; *rem = g_left; errno = EINTR; return -1;
    }
}
void h_os(void)
{
    mk();
    err = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
    picotm_os_get_timespec(&r, &err);
    VP_ASSERT(picotm_error_is_set(&err) == (g_fail != 0), "a failing clock is reported");
    if (g_fail) { VP_ASSERT(err.status == PICOTM_ERRNO && err.value.errno_hint == (int)g_fail, "with its errno"); VP_REACH("no clock"); return; }
    VP_ASSERT(r.tv_sec == a.tv_sec && r.tv_nsec == a.tv_nsec, "the clock's time is returned");
    g_left = b;
    picotm_os_nanosleep(&b, &err);
    VP_ASSERT(picotm_error_is_set(&err) == (g_fail != 0), "a failing sleep is reported");
    if (!g_fail) VP_ASSERT(g_left.tv_sec == 0 && g_left.tv_nsec == 0, "the whole time is slept");
    VP_REACH("slept");
}
