def register(U, g):
    A = ["the transactional memory module by its contract (properties T01 to T03), per byte: the transaction's view, and what is privatized",
         "the C library's string functions by reference implementations which check that every byte they access is part of the object and privatized"]
    AA = A + ["allocator_module_*() by their contract (property M01)"]
    q = dict(kind="bounded", unwind=18, inc=["libc", "tm"])
    for f in ("memccpy memchr memrchr rawmemchr memcmp memcpy memset memmove stpcpy strcpy stpncpy strncpy strcat strncat strchr strrchr strcmp strcoll_l "
              "strncmp strspn strcspn strpbrk strstr strlen strnlen strtok_r").split():
        U("M02", f, "libc_str.c", "h_" + f, [f + "_tx"], assume=A, bound="objects of up to 5 bytes of any content", unwindset=["memset_tx.0:2", "memccpy_tx.1:3"], **q)
    for f in "strdup strndup realloc realloc_tm free qsort".split():
        U("M02", f, "libc_str.c", "h_" + f, [f + ("" if f.endswith("_tm") else "_tx")], assume=AA, bound="objects of up to 5 bytes of any content", **q)
    for f, n in (("calloc", "calloc"), ("malloc", "malloc"), ("memalign", "posix_memalign")):
        U("M02", f, "libc_str.c", "h_" + f, [n + "_tx"], assume=AA, unwind=18, inc=["libc", "tm"],
          **(dict(kind="bounded", bound="15 element sizes, any number of elements") if f == "calloc" else {}))
    def big(k, f, n, s, d, m=None):
        U("M02", "%s_%d_%d_%d" % (f, n, s, d) + ("" if m is None else "_%d" % m), "libc_str.c", "h_big", [f + "_tx"], kind="bounded", unwind=162, inc=["libc", "tm"], assume=A, flags=["--max-field-sensitivity-array-size", "200"],
          defs=["N=160", "B=80", "BIG=%d" % k, "BN=%d" % n, "BS=%d" % s, "BD=%d" % d, "BM=%d" % (m or 0)],
          bound="31 to 70 bytes at fixed distances, any content" if k != 2 else "memccpy of 31 to 70 bytes with the match at fixed places")
    for n, s, d in ((32, 5, 60), (33, 5, 60), (65, 5, 80), (40, 5, 6), (40, 6, 5), (70, 5, 38), (70, 38, 5), (33, 5, 37), (64, 5, 36)):
        big(1, "memmove", n, s, d)
    for n in (31, 32, 33, 65):
        big(3, "memset", n, 5, 60)
        for m in (0, 15, 30, 31, 32, 64, 150):
            if m < n or m == 150:
                big(2, "memccpy", n, 5, 80, m)
    M = ["malloc(), posix_memalign() and free() by their C contracts", "picotm_append_event() and the event replay by the contracts property C01 checks", "picotm_tabresize() by the contract property C05 checks"]
    F = ["allocator_tx_" + x for x in "exec_malloc exec_posix_memalign exec_free apply_event undo_event finish".split()]
    U("M01", "exec", "libc_alloc.c", "h_exec", F[:3] + ["allocator_log_append", "rnd2wb"], unwind=9, inc=["libc"], assume=M)
    U("M01", "event", "libc_alloc.c", "h_event", F[3:] + ["allocator_log_clear"], unwind=9, inc=["libc"], assume=M)
    for i in range(27):
        U("M01", "tx_%d" % i, "libc_alloc.c", "h_tx", F + ["allocator_module_malloc", "allocator_module_free", "allocator_module_posix_memalign"], unwind=9, inc=["libc"], kind="bounded",
          bound="transactions of 3 operations", assume=M, defs=["NOPS=3", "OPS=%d" % i])
    P = ["picotm_append_event() and the event replay by the contracts property C01 checks", "picotm_tabresize() by the contract property C05 checks", "locks by the contracts property L03 checks, the shared state's reference count by those of property S04",
         "the C library's and system's calls by their contracts: each may fail without an effect; a failing floating-point environment call returns a negative value"]
    q = dict(inc=["libc", "libm", "ptrdata"], assume=P)
    E = ["error_tx_" + x for x in "init save_errno undo finish errno_saved set_error_recovery get_error_recovery".split()]
    U("P01", "errno_step", "libc_state.c", "h_errno_step", E, unwind=6, defs=["SECT=1"], **q)
    U("P01", "errno", "libc_state.c", "h_errno", E + ["error_module_save_errno"], unwind=6, kind="bounded", bound="two transactions of 3 operations", defs=["SECT=1"], **q)
    E = ["fpu_tx_" + x for x in "init save_fenv save_fexcept undo finish".split()]
    U("P01", "fpu_step", "libc_state.c", "h_fpu_step", E, unwind=6, defs=["SECT=2"], **q)
    U("P01", "fpu", "libc_state.c", "h_fpu", E + ["fpu_module_save_fenv", "fpu_module_save_fexcept"], unwind=7, kind="bounded", bound="transactions of 5 operations", defs=["SECT=2"], **q)
    U("P01", "matherr", "libc_state.c", "h_matherr", E + ["matherr_save_and_clear", "matherr_test_and_resolve"], unwind=6, defs=["SECT=2"], **q)
    E = ["cwd_tx_" + x for x in "chdir_exec getcwd_exec realpath_exec apply_event undo_event finish".split()] + ["cwd_log_append", "cwd_log_clear"]
    for i in range(25):
        U("P01", "cwd_%d" % i, "libc_state.c", "h_cwd", E + ["cwd_module_chdir", "cwd_module_getcwd", "cwd_module_realpath"], unwind=20, kind="bounded", bound="transactions of 2 operations", defs=["SECT=3", "OPS=%d" % i], flags=["--object-bits", "12"], **q)
    E = ["locale_tx_" + x for x in "setlocale_exec uselocale_exec localeconv_exec apply_event undo_event finish".split()] + ["locale_log_append", "locale_log_clear", "acquire_locale_state_tx", "release_locale_state_tx"]
    L = E + ["locale_module_setlocale", "locale_module_uselocale", "locale_module_localeconv"]
    def loc(name, bound, *defs):
        U("P01", "locale_" + name, "libc_state.c", "h_locale", L, unwind=30, kind="bounded", bound=bound, defs=["SECT=4"] + list(defs), flags=["--object-bits", "12"], **q)
    for i in range(81):
        loc(str(i), "transactions of 2 operations", "OPS=%d" % i)
    for i in (0, 3, 5):
        for k in (0, 3, 5):
            loc("other_%d" % (i + 9 * k), "transactions of 2 operations", "OPS=%d" % (i + 9 * k), "LSEL=1")
    for c in "CTYPE MESSAGES MONETARY NUMERIC".split():
        loc(c.lower(), "one operation", "NOPS=1", "OPS=2", "CATEGORY=LC_" + c)
