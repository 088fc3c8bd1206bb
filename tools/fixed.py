#!/usr/bin/env python3
"""tools/fixed.py <property> <commit> <what failed>: records a repaired defect in known_findings.json (development tool)."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
l = d if isinstance(d, list) else d[next(iter(d))]
pid, c, w = sys.argv[1:4]
l.append(dict(zip(list(l[0].keys()), [None] * 9)))
e = l[-1]
src = l[0]
for k in src:
    e[k] = src[k]
e["property"] = pid
e["id"] = pid + "-" + c
e["what"] = w
e["line"] = "fixed: property=%s %s %s" % (pid, c, w)
if "commit" in e: e["commit"] = c
json.dump(d, open(p, "w"), indent=1)
