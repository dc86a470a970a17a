#!/usr/bin/env python3
"""kf.py PROPERTY COMMIT TEXT: record a fixed finding"""
import json, sys
f = "/verif/known-findings.json"
d = json.load(open(f))
p, c, t = sys.argv[1:4]
d["findings"].append(dict(status="fixed", property=p, commit=c, what="fixed: property=%s %s %s" % (p, c, t)))
json.dump(d, open(f, "w"), indent=1)
