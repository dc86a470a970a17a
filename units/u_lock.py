def register(U, g):
    A = ["picotm_lock_manager_wait() and picotm_lock_manager_wake_up() by their contracts (property L03): they take no share of the lock",
         "memory order of the atomic operations is strong enough (acquire/release taken as sequentially consistent)"]
    def LC(fn, extra=""):
        return {fn: [dict(id=0, assigns="n, l, g_own, g_steps, g_waiters, vp_input" + extra, inv=I[fn], map="n,%s::1::n" % fn)]}
    I = {"try_rdlock": "g_own == 0 && g_steps == 0 && n < 16384 && l.n < 16384", "try_wrlock": "g_own == 0 && g_steps == 0",
         "try_uplock": "g_own == 1 && g_steps == 0 && (n & 15) >= 1 && (n & 15) <= 14 && (l.n & 15) >= 1 && (l.n & 15) <= 14",
         "picotm_rwlock_cmpxchg_index": "g_steps == 0 && g_own == __CPROVER_loop_entry(g_own)"}
    for e, fn, f in (("rdlock", "try_rdlock", "picotm_rwlock_try_rdlock"), ("wrlock", "try_wrlock", "picotm_rwlock_try_wrlock"),
                     ("uplock", "try_uplock", "picotm_rwlock_try_wrlock"), ("index", "picotm_rwlock_cmpxchg_index", "picotm_rwlock_cmpxchg_index")):
        U("L01", e, "core_rwlock.c", "h_" + e, [f, fn], unwind=4, bunwind=4, loops=LC(fn), assume=A)
    U("L01", "unlock", "core_rwlock.c", "h_unlock", ["picotm_rwlock_unlock"], unwind=2, assume=A)
    U("L01", "get", "core_rwlock.c", "h_get", ["picotm_rwlock_get_index"], unwind=2, assume=A)
    OS = ["picotm_os_mutex, _cond and _rwlock by the POSIX semantics of the pthread functions they wrap"]
    RF = ["picotm_lock_manager_init", "picotm_lock_manager_register_owner", "picotm_lock_manager_unregister_owner", "find_lo", "grow_lo_array"]
    U("L03", "register", "core_lockmgr.c", "h_register", RF, unwind=4, defs=["REGISTRY", "MAX=48"], kind="bounded", bound="registries of up to 48 slots, and almost full and full ones", assume=OS + ["lfind() by its C library contract", "tabresize() by the contract property C05 checks"])
    U("L03", "full", "core_lockmgr.c", "h_full", RF, unwind=5, defs=["REGISTRY", "FULLTAB"], kind="bounded", bound="registries of up to 48 slots, and almost full and full ones", assume=OS + ["lfind() by its C library contract", "tabresize() by the contract property C05 checks"])
    U("L03", "index", "core_lockmgr.c", "h_index", ["picotm_lock_owner_set_index", "picotm_lock_owner_get_index", "picotm_lock_owner_set_next", "picotm_lock_owner_get_next"], unwind=2, defs=["REGISTRY"])
    WF = ["picotm_lock_manager_wait", "lock_and_prepend_waiter", "remove_waiter", "find_prec_waiter", "get_first_waiter", "compute_timeout", "picotm_lock_owner_wait_until"]
    KF = ["picotm_lock_manager_wake_up", "pick_waiter", "get_first_waiter", "picotm_lock_owner_wake_up"]
    q = dict(kind="bounded", assume=OS)
    U("L03", "wait", "core_lockmgr.c", "h_wait", WF, unwind=10, bound="queues of up to 4 waiters", **q)
    U("L03", "waitconc", "core_lockmgr.c", "h_wait_conc", WF, unwind=10, bound="queues of 1 and 2 waiters, one arrival and one departure by other threads at any step", **q)
    U("L03", "wake", "core_lockmgr.c", "h_wake", KF, unwind=10, unwindset=["h_wake.1:65"], defs=["WN=3"], bound="queues of up to 3 waiters", **q)
    U("L03", "wakefail", "core_lockmgr.c", "h_wake_fail", KF, unwind=17, bound="queues of 2 waiters", **q)
    U("L03", "wakeconc", "core_lockmgr.c", "h_wake_conc", KF, unwind=17, bound="queues of 2 waiters, one arrival and one departure by other threads at any step", **q)
    U("L02", "rwstate", "core_rwstate.c", "h_rwstate", ["picotm_rwstate_" + x for x in "init set_status get_status try_rdlock try_wrlock unlock".split()],
      unwind=4, assume=["picotm_rwlock_*() by the contracts property L01 checks"])
    for e, f in (("add", "picotm_os_add_timespec"), ("sub", "picotm_os_sub_timespec"), ("cmp", "picotm_os_timespec_compare")):
        U("L04", e, "core_time.c", "h_" + e, [f], unwind=4)
    U("L04", "os", "core_time.c", "h_os", ["picotm_os_get_timespec", "picotm_os_nanosleep"], unwind=4, assume=["nanosleep() and clock_gettime() as POSIX defines them; at most three interruptions of one sleep"])
