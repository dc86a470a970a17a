"""Registry of contract units. One unit = one harness entry function deciding named obligations of one
property over the real sources in /repo."""
UNITS = []
TRUSTED = [
    "CBMC 6.11.0 (goto-cc C front end, symbolic execution, bit-blasting, SAT solver), goto-instrument 6.11.0",
    "CBMC's models of memcpy, memset, malloc, free and its x86-64 LP64 memory layout",
    "generated configuration headers (/verif/config) as ./configure wrote them for this platform",
]
TRUSTED_BY = {}
ASSUME = [
    "sequential semantics: each unit runs one thread; interference by other threads is what the locking contracts exclude",
    "C11 sequentially consistent meaning of __atomic and stdatomic operations",
    "the compiler that builds the library implements the C semantics CBMC assumes (no miscompilation)",
]
ASSUME_BY = {}


def U(prop, uid, src, entry, fns, unwind=10, inc=(), incdirs=(), defs=(), enforce=(), replace=(), loops=None,
      kind="proof", bound=None, assume=(), flags=(), unwindset=(), bunwind=None, timeout=400, solver=None,
      deep_defs=(), deep_unwind=None, deep_unwindset=(), deep_timeout=None, nochecks=(), weight=1, thorough_only=False):
    UNITS.append(dict(prop=prop, id=prop + "." + uid, src=src, entry=entry, fns=list(fns), unwind=unwind,
                      inc=list(inc), incdirs=list(incdirs), defs=list(defs), enforce=list(enforce),
                      replace=list(replace), loops=loops, kind=kind, bound=bound, assume=list(assume),
                      flags=list(flags), unwindset=list(unwindset), bunwind=bunwind, timeout=timeout,
                      solver=solver, deep_defs=list(deep_defs), deep_unwind=deep_unwind,
                      deep_unwindset=list(deep_unwindset), deep_timeout=deep_timeout, nochecks=list(nochecks),
                      weight=weight, thorough_only=thorough_only))


import importlib, os, pkgutil  # noqa: E402
_here = os.path.dirname(os.path.abspath(__file__))
for _f in sorted(os.listdir(_here)):
    if _f.startswith("u_") and _f.endswith(".py"):
        _m = importlib.import_module(_f[:-3])
        _m.register(U, globals())


def level(prop):
    """proof only if no unit of the property is a bounded stand-in"""
    return "proof" if all(u["kind"] == "proof" for u in UNITS if u["prop"] == prop and not u["thorough_only"]) else "other"
