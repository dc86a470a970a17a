def register(U, g):
    A = ["realloc() by its C contract: fails leaving the block, or moves the content to a block of the new size"]
    for s in (1, 24, 4096):
        U("C05", "resize_%d" % s, "core_tab.c", "h_resize", ["tabresize", "rndpow2", "picotm_tabresize"], unwind=8, defs=["SIZ=%d" % s, "WALK=0"], assume=A)
    base = "g_pos <= g_n && !g_bad && pos == g_pos && err.status == 0"
    W = {"tabwalk_1": "picotm_tabwalk_1(g_tab, g_n, SIZ, cb, &err)", "tabwalk_2": "picotm_tabwalk_2(g_tab, g_n, SIZ, cb2, &d1, &err)",
         "tabwalk_3": "picotm_tabwalk_3(g_tab, g_n, SIZ, cb3, &d1, &d2, &err)",
         "tabrwalk_1": "picotm_tabrwalk_1(g_tab, g_n, SIZ, cb, &err)", "tabrwalk_2": "picotm_tabrwalk_2(g_tab, g_n, SIZ, cb2, &d1, &err)"}
    for s in (1, 16):
        for f, c in W.items():
            rev = f.startswith("tabr")
            cur = "end" if rev else "beg"
            inv = ("beg == g_tab && end == g_tab + (g_n - g_pos) * %d && " if rev else "beg == g_tab + g_pos * %d && end == g_tab + g_n * %d && ".replace("%d && end", "%d && end")) 
            inv = (inv.replace("%d", str(s))) + base
            U("C05", "%s_%d" % (f, s), "core_tab.c", "h_walk", [f, "picotm_" + f], unwind=6, bunwind=6,
              defs=["SIZ=%d" % s, "WALK=" + c] + (["REVERSE"] if rev else []),
              loops={f: [dict(id=0, assigns="%s, pos, g_pos, g_bad, err, vp_input" % cur, inv=inv, dec="g_n - g_pos",
                              map=";".join("%s,%s::1::%s" % (v, f, v) for v in ("beg", "end", "pos")))]})
    U("C05", "walk_none", "core_tab.c", "h_walk_none", list(W), unwind=2, defs=["SIZ=8", "WALK=0"], nochecks=["--pointer-check"])
    for s in (2, 5):
        U("C05", "uniq_%d" % s, "core_tab.c", "h_uniq", ["tabuniq", "picotm_tabuniq"], unwind=7, defs=["SIZ=%d" % s, "WALK=0"], kind="bounded", bound="tables of up to 5 elements of %d bytes (thorough: 7)" % s,
          deep_defs=["NU=7"], deep_unwind=9)
