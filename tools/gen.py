#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from units/props.py and the unit registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "units"))
sys.dont_write_bytecode = True
import props, registry
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps({k: v for k, v in p.items() if k != "na"}) + "\n")
checks, na = [], []
for p in props.P:
    us = [u for u in registry.UNITS if u["prop"] == p["id"]]
    if not us:
        na.append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
        continue
    b = [u for u in us if u["kind"] != "proof" and not u["thorough_only"]]
    n = [u for u in us if not u["thorough_only"]]
    note = "%d contract units, %d of them proved without a bound." % (len(n), len(n) - len(b))
    if b:
        bs = list(dict.fromkeys(u["bound"] for u in b if u["bound"]))
        note += " Bounded stand-ins: " + "; ".join("%s (%s)" % (", ".join(u["id"].split(".")[1] for u in b if u["bound"] == x), x) for x in bs) + "."
    note += " Assumes sequential execution between lock operations, the callee contracts named in the evidence file and CBMC's C semantics."
    checks.append(dict(property=p["id"], quick_cmd="bin/check %s --tier quick" % p["id"],
                       thorough_cmd="bin/check %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                       technique="contract-based deductive verification of the real C functions (CBMC contracts, callees by contract)",
                       level=registry.level(p["id"]), level_note=note))
m = dict(version=1, setup_cmd="cbmc --version && goto-cc --version && gcc --version && python3 -c 'import sys; sys.path.insert(0, \"units\"); import registry'",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo: contracts and harnesses live in /verif/units and include the sources of /repo as they are. "
               "Each check compiles /repo's current sources with goto-cc on every run.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
