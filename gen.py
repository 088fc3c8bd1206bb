#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import P, NA
H = os.path.dirname(os.path.abspath(__file__))
nas = dict(NA)
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
from checks import CHECKS
checks = []
for p in P:
    if p["id"] in nas:
        continue
    c = CHECKS[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py " + p["id"],
                       thorough_cmd="VERIF_TIER=thorough python3 run.py " + p["id"] + " --tier=thorough",
                       technique="symbolic execution of the clang-compiled LLVM IR of the real headers with z3, counterexamples replayed on a g++ ASan/UBSan build",
                       level="model_checking",
                       level_note="Every input within the bounds, no claim outside them. Bounds: " + c["bounds"] + " Trusted: clang 18 IR, the executor in engine/, the libc/libstdc++ stand-ins in rt/rt.cpp, z3; every sampled path is re-executed natively and must give the same observations." + (" " + p["note"] if p["note"] else "")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks,
               not_applicable=[dict(property=i, reason=r) for i, r in NA],
               notes="run.py decides one property; DESIGN.md describes the machinery; known_findings.json lists repaired and recorded defects"),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md
import sys
sys.path.insert(0, os.path.join(H, "design"))
from oracles import O
first = {}
mf = os.path.join(H, "design", "missed_first.txt")
if os.path.exists(mf):
    first = dict(l.strip().split(" ", 1) for l in open(mf) if l.strip())
sec, total = [], 0
for p in P:
    if p["id"] in nas:
        sec.append("### %s %s\n\nNot applicable: %s\n" % (p["id"], p["title"], nas[p["id"]]))
        continue
    c = CHECKS[p["id"]]
    t = ["### %s %s\n" % (p["id"], p["title"]), p["statement"] + "\n", "- " + O[p["id"]].replace(" Oracle:", "\n- Oracle:"), "- Bounds: " + c["bounds"]]
    if c.get("bounds_thorough"):
        t.append("- Thorough: " + c["bounds_thorough"])
    if c["assumptions"]:
        t.append("- Assumes: " + "; ".join(c["assumptions"]) + ".")
    t.append("- Beyond tests: " + p["why"])
    ev = os.path.join(H, "evidence", p["id"] + ".json")
    if os.path.exists(ev):
        e = json.load(open(ev))
        if e["tier"] == "quick":
            k = e["coverage"]
            total += e["wall_s"]
            t.append("- Cost: %d s, %d paths, %.0f million instructions, %d assertions decided symbolically, %d queries to z3." % (
                e["wall_s"] + 1, k["states"], k["transitions"] / 1e6, k["assertions_discharged_symbolically"], k["queries"]["q_z3"]))
    sec.append("\n".join(t) + "\n")
fixed = "\n".join("- " + k["line"] for k in json.load(open(os.path.join(H, "known_findings.json"))))
rows = ["| bug | property | what it breaks | needs | caught |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), first.get(d, "at first")))
tail = open(os.path.join(H, "design", "tail.md")).read()
tail = tail.replace("@FIXED@", fixed).replace("@SEEDED@", "\n".join(rows)).replace("@QUICK@", str(int(total)))
with open(os.path.join(H, "DESIGN.md"), "w") as f:
    f.write(open(os.path.join(H, "design", "head.md")).read() + "\n".join(sec) + "\n" + tail)
