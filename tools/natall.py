"""build the native replay of every unit (each source, entry and definition set once per entry)"""
import sys, os, subprocess, concurrent.futures as cf
sys.path.insert(0, "/verif/units")
os.environ.setdefault("VP_REPO", "/repo")
import importlib.machinery, importlib.util
l = importlib.machinery.SourceFileLoader("check", "/verif/bin/check")
m = importlib.util.module_from_spec(importlib.util.spec_from_loader("check", l)); l.exec_module(m)
seen = {}
for u in m.registry.UNITS:
    seen.setdefault((u["src"], u["entry"], tuple(d for d in u["defs"] if not d.split("=")[0] in ("OPS", "BN", "BS", "BD", "BM", "OP1"))[:3]), u)
def b(u):
    defs = ["-DVP_NATIVE", "-DVP_ENTRY=" + u["entry"]] + ["-D" + d for d in u["defs"]]
    exe = "/tmp/w/nat_%s" % u["id"]
    c = ["gcc", "-std=gnu11", "-w", "-O0", "-ffunction-sections", "-fdata-sections", "-Wl,--gc-sections", "-fsanitize=address,undefined"] + m.inc_flags(u) + defs + [m.src_path(u), "-o", exe, "-lpthread", "-lm"]
    p = subprocess.run(c, capture_output=True, text=True)
    if os.path.exists(exe): os.unlink(exe)
    return u["id"], p.returncode, p.stderr
with cf.ThreadPoolExecutor(8) as ex:
    for i, rc, e in ex.map(b, list(seen.values())):
        if rc: print(i, [x for x in e.splitlines() if "error" in x or "undefined" in x][:2])
print(len(seen), "built")
