def register(U, g):
    LC = lambda fn, inv, dec, asg, mp: {fn: [dict(id=0, assigns=asg, inv=inv, dec=dec, map=mp)]}
    common = "g_calls <= g_n && !g_bad && (err.status != 0) == (g_calls > g_err_at) && g_calls <= g_err_at + 1 || g_calls == 0 && !g_bad && err.status == 0"
    base = "g_calls <= g_n && !g_bad && ((err.status != 0) == (g_calls > g_err_at)) && (g_calls == 0 || g_calls - 1 <= g_err_at)"
    U("C01", "foreach", "core_log.c", "h_fwd", ["picotm_events_foreach1"], unwind=6, bunwind=6,
      loops=LC("picotm_events_foreach1", "beg == g_tab + g_calls && end == g_tab + g_n && " + base, "g_n - g_calls",
               "beg, g_calls, g_bad, err", "beg,picotm_events_foreach1::beg;end,picotm_events_foreach1::end"))
    U("C01", "rev_foreach", "core_log.c", "h_rev", ["picotm_events_rev_foreach1"], unwind=6, bunwind=6,
      loops=LC("picotm_events_rev_foreach1", "pos == g_tab + (g_n - g_calls) && beg == g_tab && " + base, "g_n - g_calls",
               "pos, g_calls, g_bad, err", "beg,picotm_events_rev_foreach1::beg;pos,picotm_events_rev_foreach1::1::pos"))
    AL = ["tabresize() by its contract (property C05): a table of at least the new length with all old elements, or an error"]
    U("C01", "append", "core_log.c", "h_append", ["picotm_log_append", "picotm_log_begin", "picotm_log_end"], unwind=2, assume=AL)
    U("C01", "clear", "core_log.c", "h_clear", ["picotm_log_clear", "picotm_log_init", "picotm_log_uninit"], unwind=2, assume=AL)
    AT = ["lock manager and lock owner by their contracts (property L03)", "module callbacks: any behaviour within the module interface"]
    def T(prop, uid, entry, fns, nm=3, nev=3, full=False):
        U(prop, uid, "core_tx.c", entry, fns, unwind=max(nm, nev, 4) + 1, unwindset=["rndpow2.0:8"],
          defs=["NM=%d" % nm, "NEV=%d" % nev] + (["FULL"] if full else []), kind="bounded", assume=AT,
          bound="%d modules and %d events, %s" % (nm, nev, "each callback failing in turn" if full else "any callbacks absent"))
    EVF = ["picotm_tx_append_event", "picotm_module_apply_event", "picotm_module_undo_event"]
    T("C01", "commit_events", "h_commit_absent", ["picotm_tx_commit"] + EVF, nm=2, nev=4)
    T("C01", "commit_events_fail", "h_commit_fail", ["picotm_tx_commit"] + EVF, nm=1, nev=4, full=True)
    T("C01", "rollback_events", "h_rollback_absent", ["picotm_tx_rollback"] + EVF, nm=2, nev=4)
    T("C01", "rollback_events_fail", "h_rollback_fail", ["picotm_tx_rollback"] + EVF, nm=1, nev=4, full=True)
    T("C02", "commit", "h_commit_absent", ["picotm_tx_commit"], nm=3, nev=1)
    T("C02", "commit_fail", "h_commit_fail", ["picotm_tx_commit"], nm=3, nev=1, full=True)
    T("C02", "rollback", "h_rollback_absent", ["picotm_tx_rollback"], nm=3, nev=1)
    T("C02", "rollback_fail", "h_rollback_fail", ["picotm_tx_rollback"], nm=3, nev=1, full=True)
    T("C02", "begin", "h_begin_absent", ["picotm_tx_begin"], nm=3, nev=1)
    T("C02", "begin_fail", "h_begin_fail", ["picotm_tx_begin"], nm=3, nev=1, full=True)
    T("C02", "release", "h_release", ["picotm_tx_release"], nm=3, nev=1)
    U("C02", "register", "core_tx.c", "h_register", ["picotm_tx_register_module", "picotm_tx_init"], unwind=8, defs=["NM=1", "NEV=1"], assume=AT)
    T("C03", "begin", "h_begin_absent", ["picotm_tx_begin"], nm=2, nev=1)
    T("C03", "begin_fail", "h_begin_fail", ["picotm_tx_begin"], nm=2, nev=1, full=True)
    T("C03", "commit_fail", "h_commit_fail", ["picotm_tx_commit"], nm=1, nev=1, full=True)
    T("C03", "rollback_fail", "h_rollback_fail", ["picotm_tx_rollback"], nm=1, nev=1, full=True)
    A3 = ["picotm_tx_*() by the contracts the core_tx.c units check", "__picotm_longjmp() does not return"]
    F3 = ["__picotm_begin", "__picotm_commit", "picotm_error_status", "picotm_error_is_non_recoverable"]
    for n, f in (("start", ["picotm_release"]), ("rerun", ["picotm_number_of_restarts", "picotm_is_irrevocable"]), ("recovery", []), ("commit", ["picotm_recover_from_error"]),
                 ("report", ["picotm_restart", "picotm_irrevocable", "picotm_resolve_conflict", "picotm_recover_from_error_code", "picotm_recover_from_errno", "picotm_recover_from_error"]),
                 ("release", ["picotm_release", "picotm_register_module", "picotm_append_event", "picotm_lock_owner_get_thread_local_instance", "picotm_lock_owner_get_lock_manager"])):
        d = {"rerun": ["RESTARTS", "CHAIN=1"], "recovery": ["RESTARTS", "CHAIN=2"], "commit": ["RESTARTS"], "report": ["RESTARTS"]}.get(n, [])
        U("C03", "api_" + n, "core_api.c", "h_" + n, F3 + f, unwind=2, assume=A3, defs=d)
        if n in ("report", "recovery", "commit"):
            U("C04", "api_" + n, "core_api.c", "h_" + n, F3 + f, unwind=2, assume=A3, defs=d)
    EF = ["picotm_error_" + x for x in "set_conflicting set_revocable set_error_code set_errno set_siginfo_t clear is_set is_conflicting is_revocable is_error mark_as_non_recoverable set_description get_description".split()]
    U("C04", "error", "core_error.c", "h_error", EF, unwind=2)
    U("C04", "initial", "core_error.c", "h_initial", EF, unwind=2)
