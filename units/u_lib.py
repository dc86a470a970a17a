def register(U, g):
    b = dict(kind="bounded", bound="lists of up to 4 items, every position, every callback result", unwind=66)
    S = lambda *x: ["picotm_slist_" + y for y in x]
    U("S01", "ops", "lib_slist.c", "h_ops", S(*"init_head init_item is_enqueued next prev begin end is_empty enqueue_before enqueue_after enqueue_front enqueue_back dequeue dequeue_front front back".split()), **b)
    U("S01", "sorted", "lib_slist.c", "h_sorted", S("enqueue_sorted"), **b)
    U("S01", "find", "lib_slist.c", "h_find", S("find_0", "find_1", "find_2"), **b)
    U("S01", "walk", "lib_slist.c", "h_walk", S("walk_0", "walk_1", "walk_2"), **b)
    U("S01", "cleanup", "lib_slist.c", "h_cleanup", S("cleanup_0", "cleanup_1", "cleanup_2"), **b)
    T = ["picotm_treemap_init", "picotm_treemap_find_value", "picotm_treemap_uninit"]
    for bits in (4, 5):
        q = dict(kind="bounded", bound="keys at the borders of the tree levels, 4 and 5 bits per level", unwind=300, defs=["BITS=%d" % bits, "NFAIL=%d" % (64 // bits + 3)],
                 assume=["malloc() returns a fresh block or NULL"])
        U("S02", "pairs%d" % bits, "lib_treemap.c", "h_pairs", T, **q)
        U("S02", "fail%d" % bits, "lib_treemap.c", "h_fail", T, **q)
    for bits, kb in ((2, 6), (3, 8)):
        q = dict(kind="bounded", bound="iteration: 6-bit and 8-bit keys at the borders of the tree levels", unwind=300, defs=["BITS=%d" % bits, "KEYBITS=%d" % kb, "NFAIL=3"],
                 assume=["malloc() returns a fresh block or NULL"])
        U("S02", "iter%d" % bits, "lib_treemap.c", "h_iter", T + ["picotm_treemap_for_each_value"], **q)
    T = ["picotm_shared_treemap_init", "picotm_shared_treemap_find_value", "picotm_shared_treemap_uninit"]
    for bits, kb in ((2, 6), (3, 8)):
        d = -(-kb // bits)
        q = dict(kind="bounded", bound="keys at the borders of the tree levels, 6-bit and 8-bit keys; one other thread's complete look-up at any atomic step", unwind=64,
                 defs=["SHARED", "BITS=%d" % bits, "KEYBITS=%d" % kb, "NFAIL=%d" % (d + 2), "NRACE=%d" % (3 * d + 4)],
                 assume=["malloc() returns a fresh block or NULL", "sequentially consistent atomics"])
        U("S03", "pairs%d" % bits, "lib_treemap.c", "h_pairs", T, **q)
        U("S03", "fail%d" % bits, "lib_treemap.c", "h_fail", T, **q)
        for i in (0, 6):
            U("S03", "race%d_%d" % (bits, i), "lib_treemap.c", "h_race", T, **dict(q, defs=q["defs"] + ["RI=%d" % i, "RSTEP=2"]))
    U("S04", "count", "lib_ref.c", "h_count", ["picotm_ref_init", "picotm_ref_up", "picotm_ref_down", "picotm_ref_count"], unwind=4)
    U("S04", "obj", "lib_ref.c", "h_obj", ["picotm_shared_ref16_obj_" + x for x in "init uninit up down count".split()], unwind=5, assume=["at most two failures in a row of a release's callbacks", "the spin lock excludes other threads"])
    U("S04", "shared", "lib_ref.c", "h_shared", ["PICOTM_SHARED_STATE_REF", "PICOTM_SHARED_STATE_UNREF"], unwind=4)
    U("S04", "state", "lib_ref.c", "h_state", ["PICOTM_STATE_ACQUIRE", "PICOTM_STATE_RELEASE", "PICOTM_THREAD_STATE_ACQUIRE", "PICOTM_THREAD_STATE_RELEASE"], unwind=4)
    _txlib(U)


TXA = ["the module's registration, event log and replay by the contracts property C01 checks", "picotm_tabresize() by the contract property C05 checks",
       "reader/writer locks by their contract (property L01), each acquisition may be refused", "malloc() returns a fresh block or NULL",
       "unions of the event and container records replaced by structures (each member is only read as it was written)"]


def _txlib(U):
    OPS = dict(LIST=["push_front push_back insert erase pop_front pop_back clear".split(), "size empty front back begin end".split()],
               QUEUE=["push pop".split(), "size empty front back".split()], STACK=["push pop".split(), "size empty top".split()],
               MULTI=["insert erase clear".split(), "size empty begin end find count lower_bound upper_bound".split()])
    NAME = dict(LIST="txlist", QUEUE="txqueue", STACK="txstack", MULTI="txmultiset")
    TX = ["txlib_tx_" + x for x in "append_events3 apply_event undo_event prepare_commit finish".split()] + ["txlib_event_apply", "txlib_event_undo"]
    def fns(k):
        return ["%s_%s_tx" % (NAME[k], x) for x in OPS[k][0] + OPS[k][1]] + ["%s_of_state_tx" % NAME[k]]
    b = dict(kind="bounded", unwind=100, inc=["txlib"], assume=TXA)
    fl = ["--object-bits", "13"]
    for p, k in (("X01", "LIST"), ("X02", "QUEUE"), ("X03", "STACK"), ("X04", "MULTI")):
        d = ["KA=" + k]
        for o in range(2 if k in ("QUEUE", "STACK") else 7):
            if k != "MULTI":
                for n0 in (0, 2) if k == "LIST" else (0, 1, 2):
                    if n0 or o < (1 if k != "LIST" else 3):
                        U(p, "hist_%d_%d" % (n0, o), "txlib.c", "h_hist", fns(k), bound="histories of up to 3 operations on %d entries" % n0, flags=fl,
                          defs=d + ["N0=%d" % n0, "OP1=%d" % o, "NE=5", "MAXEV=%d" % (n0 + 4), "NPOOL=1"], **b)
            else:
                def m(tag, n0, nk, nkb, o3, bound):
                    U(p, "hist_%s_%d" % (tag, o), "txlib.c", "h_hist", fns(k), bound=bound, flags=fl, defs=d + ["N0=%d" % n0, "NK=%d" % nk, "NKBASE=%d" % nkb, "OP1=%d" % o, "NE=6", "MAXEV=7", "NPOOL=1", "O3(j)=" + o3], **b)
                if o < 3:
                    m("0", 0, 1, 0, "1", "histories of up to 3 operations on an empty multiset")
                for q in range(0, 9, 3):
                    m("2_%d" % q, 2, 3, q, "0", "histories of up to 2 operations on 2 entries")
                for q in range(0, 27, 9):
                    m("3_%d" % q, 3, 9, q, "-1", "any one operation on any 3 entries")
        for o1, o2, o3, c in ((0, 1, 0, 1), (1, 2, 0, 0)) + (((6, 2, 1, 1), (3, 4, 2, 1)) if k in ("LIST", "MULTI") else ()):
            U(p, "fail_%d%d%d%d" % (o1, o2, o3, c), "txlib.c", "h_fail", fns(k) + TX, bound="two transactions on two containers, a failure of any one call", flags=fl,
              defs=d + (["HASQ"] if k in ("QUEUE", "STACK") and o1 == 1 else []) + ["NF=32", "N0=2", "OP1=%d" % o1, "OP2=%d" % o2, "OP3=%d" % o3, "COMMIT1=%d" % c], **b)
    for ka, kb in (("LIST", "QUEUE"), ("STACK", "MULTI"), ("QUEUE", "STACK"), ("MULTI", "LIST"), ("LIST", "LIST")):
        for o1, o2, o3, c in ((0, 1, 0, 1), (1, 0, 1, 0)):
            U("X05", "%s_%s_%d" % (ka.lower(), kb.lower(), c), "txlib.c", "h_fail", TX + ["txlib_tx_acquire_%s_of_state" % NAME[x] for x in (ka, kb)], bound="two transactions on two containers, a failure of any one call", flags=fl,
              defs=["KA=" + ka, "KB=" + kb, "NF=36", "N0=2", "OP1=%d" % o1, "OP2=%d" % o2, "OP3=%d" % o3, "COMMIT1=%d" % c], **b)
