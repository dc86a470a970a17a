def register(U, g):
    A = ["tm_vmem_acquire_frame_by_block() by its contract: the frame of exactly that block, or an error (unit T04.framemap)",
         "picotm_rwlock_*() by their contracts (property L01)"]
    def P(prop, uid, entry, fns, **k):
        U(prop, uid, "tm_page.c", entry, fns, unwind=25, inc=["tm"], assume=A, **k)
    P("T01", "page_ld", "h_ld", ["tm_page_init", "tm_page_ld", "tm_frame_init", "tm_frame_buffer"])
    P("T01", "page_st", "h_st", ["tm_page_st"])
    P("T02", "page_xchg", "h_xchg", ["tm_page_xchg"])
    P("T02", "page_ld_c", "h_ld_c", ["tm_page_ld_c"])
    P("T01", "page_query", "h_query", ["tm_page_is_complete", "tm_page_buffer", "tm_page_has_locked_frame"])
    P("T04", "page_lock", "h_lock", ["tm_page_try_rdlock_frame", "tm_page_try_wrlock_frame", "tm_frame_try_rdlock",
                                     "tm_frame_try_wrlock", "picotm_rwstate_try_rdlock", "picotm_rwstate_try_wrlock"])
    P("T04", "page_unlock", "h_unlock", ["tm_page_unlock_frame", "tm_frame_unlock", "picotm_rwstate_unlock"])

    AV = ["page.c functions by their contracts (units page_* of T01, T02, T04)",
          "one arbitrary byte of the arena (two for loadstore) is tracked; the byte is a free constant, so each statement holds for all bytes",
          "picotm_containerof() replaced by an equal function over the harness's pages"]
    def V(prop, uid, entry, fns, **k):
        nb = k.pop("nb", 2)
        bb = k.pop("b", None)
        dd = k.pop("deep_defs", None)
        dd = ["NB=%d" % (nb + 1)] if dd is None else dd
        U(prop, uid, "tm_vmem.c", entry, fns, inc=["tm"], assume=AV, kind="bounded",
          defs=k.pop("defs", []) + ["NB=%d" % nb], unwind=nb + 1, deep_defs=dd,
          deep_unwind=k.pop("deep_unwind", nb + 2), bound=bb or "arena of %d blocks of 8 bytes (thorough: %d), every offset and size in it, every page state, every failure of a lock or allocation" % (nb, nb + 1),
          **k)
    F = ["acquire_page_by_block", "acquire_page_by_address", "alloc_page", "copy_bits", "find_page_by_block_index"]
    V("T01", "load", "h_ld", ["tm_vmem_tx_ld", "prepare_page_ld"] + F, weight=9)
    V("T01", "store", "h_st", ["tm_vmem_tx_st", "prepare_page_st"] + F, weight=9)
    V("T01", "apply", "h_apply", ["tm_vmem_tx_apply", "apply_page"], nb=3)
    V("T01", "undo", "h_undo", ["tm_vmem_tx_undo", "undo_page"], nb=3)
    for off, t0 in ((0, 8), (3, 10), (3, 15), (5, 9), (9, 2), (12, 7), (6, 0), (8, 6)):
        V("T03", "loadstore_%d_%d" % (off, t0), "h_ldst", ["tm_vmem_tx_ldst"] + F, defs=["NT=2", "OFF=%d" % off, "T0=%d" % t0], deep_defs=[],
          deep_unwind=3, b="source at offset %d, any destination and size in an arena of 2 blocks, destination byte %d" % (off, t0))
    for t0 in range(16):
        V("T03", "loadstore_t%d" % t0, "h_ldst", ["tm_vmem_tx_ldst"] + F, defs=["NT=2", "T0=%d" % t0], deep_defs=[], thorough_only=True,
          deep_unwind=3, b="every source, destination and size in an arena of 2 blocks, destination byte %d" % t0)
    V("T02", "privatize", "h_priv", ["tm_vmem_tx_privatize", "prepare_page_privatize"] + F, weight=9)
    V("T02", "privatize_c", "h_priv_c", ["tm_vmem_tx_privatize_c", "prepare_page_privatize_c"] + F, weight=9)
    V("T04", "finish", "h_finish", ["tm_vmem_tx_finish", "finish_page", "free_page"], nb=3)
    V("T04", "uninit", "h_uninit", ["tm_vmem_tx_uninit"], nb=3)
    U("T01", "block", "tm_block.c", "h_block", ["tm_block_index_at", "picotm_address_floor"], unwind=9, inc=["tm"])
