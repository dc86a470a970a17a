/* picotm-error.c: every setter over every previous content of the error. */
#include "vp.h"
#include "src/picotm-error.c"
static struct picotm_error e, s;
static size_t g_k; /* tracked byte of the signal information */
static siginfo_t si;
static void mk(void)
{
    switch (vp_below(6)) {
    case 0: e.status = 0; break; case 1: e.status = PICOTM_CONFLICTING; break; case 2: e.status = PICOTM_REVOCABLE; break;
    case 3: e.status = PICOTM_ERROR_CODE; break; case 4: e.status = PICOTM_ERRNO; break; default: e.status = PICOTM_SIGINFO_T; break;
    }
    e.is_non_recoverable = vp_bool();
    e.description = vp_bool() ? "text" : NULL;
    e.value.conflicting_lock = (void*)vp_u64();
    g_k = vp_below(sizeof(si));
    ((unsigned char*)&si)[g_k] = vp_u8();
}
static bool is(enum picotm_error_status st)
{
    return e.status == st && picotm_error_is_set(&e) && picotm_error_is_conflicting(&e) == (st == PICOTM_CONFLICTING)
        && picotm_error_is_revocable(&e) == (st == PICOTM_REVOCABLE) && picotm_error_is_error(&e) == (st != PICOTM_CONFLICTING)
        && !e.is_non_recoverable && !picotm_error_get_description(&e);
}
void h_error(void)
{
    mk();
    int v = vp_int();
    void* p = (void*)vp_u64();
    switch (vp_below(6)) {
    case 0: picotm_error_set_conflicting(&e, p);
        VP_ASSERT(is(PICOTM_CONFLICTING) && e.value.conflicting_lock == p, "a conflict is recorded with its lock, as recoverable"); break;
    case 1: picotm_error_set_revocable(&e);
        VP_ASSERT(is(PICOTM_REVOCABLE), "a request for irrevocability is recorded, as recoverable"); break;
    case 2: picotm_error_set_error_code(&e, v);
        VP_ASSERT(is(PICOTM_ERROR_CODE) && e.value.error_hint == v, "an error code is recorded with its value, as recoverable"); break;
    case 3: picotm_error_set_errno(&e, v);
        VP_ASSERT(is(PICOTM_ERRNO) && e.value.errno_hint == v, "an errno is recorded with its value, as recoverable"); break;
    case 4: picotm_error_set_siginfo_t(&e, &si);
        VP_ASSERT(is(PICOTM_SIGINFO_T) && ((unsigned char*)&e.value.siginfo_t_info)[g_k] == ((unsigned char*)&si)[g_k], "signal information is recorded whole, as recoverable"); break;
    default:
        picotm_error_clear(&e);
        VP_ASSERT(!picotm_error_is_set(&e) && !picotm_error_is_conflicting(&e) && !picotm_error_is_revocable(&e)
                  && !picotm_error_is_error(&e) && !e.is_non_recoverable, "a cleared error is no error");
    }
    s = e;
    unsigned char b = ((unsigned char*)&e.value)[g_k % sizeof(e.value)];
    picotm_error_mark_as_non_recoverable(&e);
    VP_ASSERT(e.is_non_recoverable && e.status == s.status && e.description == s.description
              && b == ((unsigned char*)&e.value)[g_k % sizeof(e.value)], "marking an error non-recoverable changes nothing else");
    picotm_error_set_description(&e, "abc");
    VP_ASSERT(e.is_non_recoverable && e.status == s.status && picotm_error_get_description(&e)[1] == 'b'
              && b == ((unsigned char*)&e.value)[g_k % sizeof(e.value)], "describing an error changes nothing else");
    VP_REACH("end");
}
void h_initial(void)
{
    struct picotm_error i = PICOTM_ERROR_INITIALIZER;
    VP_ASSERT(!picotm_error_is_set(&i) && !picotm_error_is_conflicting(&i) && !picotm_error_is_revocable(&i) && !picotm_error_is_error(&i)
              && !i.is_non_recoverable && !picotm_error_get_description(&i), "a new error structure reports no error");
    mk();
    VP_ASSERT(picotm_error_is_set(&e) == (e.status != 0), "status zero is success");
    VP_REACH("end");
}
