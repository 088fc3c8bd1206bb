#!/usr/bin/env python3
"""Plants, confirms and tries bugs (development tool; no check uses it).

  seed.py make FILE.py [ID..]   write seeded/<id>/ from the BUGS list in FILE.py and confirm each one:
                                it builds, the stable tests pass, the demo fails with it and passes without
  seed.py run [ID..]            run the property's check with each planted bug applied (quick tier)
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SEED_REPO", "/repo")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '''#!/bin/bash
# run with cwd = the repository
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
CXX=$(command -v g++-13 || command -v g++)
"$CXX" -std=c++20 -O0 -w -DFITORIA_HAS_FMT -DFITORIA_HAS_ZLIB -DFITORIA_HAS_BROTLI %s -I"$PWD/include" "$here/demo.cpp" -o "$tmp/demo" %s
cd "$tmp"
timeout 60 ./demo
'''
BOOST = "-lboost_url -lz -lbrotlienc -lbrotlidec -lboost_json -lfmt"
PRE = '''#include <cstdio>
#include <cstdlib>
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("FAILED line %d: %s\\n", __LINE__, #__VA_ARGS__); std::exit(1); } } while (0)
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def clean():
    sh("git -C %s checkout -- ." % R)


def make(b):
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    clean()
    for f, old, new in b["edits"]:
        p = os.path.join(R, "include/fitoria", f)
        s = open(p).read()
        n = b.get("nth", {}).get(old)
        if n is None:
            if s.count(old) != 1:
                return "edit matches %d times in %s: %s" % (s.count(old), f, old[:60])
            s = s.replace(old, new)
        else:
            parts = s.split(old)
            s = old.join(parts[:n]) + new + old.join(parts[n:])
        open(p, "w").write(s)
    diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    # removed lines must be lines of the original repository
    o = sh("git -C %s diff -U0" % R).stdout
    mine = []
    for l in o.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
        if l.startswith("@@"):
            a = l.split()[1][1:]
            st, cnt = (a.split(",") + ["1"])[:2]
            if int(cnt):
                bl = sh("git -C %s blame -s -L %s,+%s HEAD -- %s" % (R, st, cnt, cur)).stdout
                for x in bl.splitlines():
                    if not x.startswith("^") and not x.startswith("a8c65b8"):
                        mine.append(x)
    with open(os.path.join(d, "demo.cpp"), "w") as f:
        f.write(PRE + b["demo"])
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(DEMO % (b.get("flags", "") + "".join(' -I"$here/ov/%s"' % o for o in b.get("ov", [])), b.get("libs", BOOST if b.get("ov") else "-lfmt")))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for o in b.get("ov", []):
        shutil.copytree(os.path.join(V, "overlay", o), os.path.join(d, "ov", o), dirs_exist_ok=True)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    msg = []
    if mine:
        msg.append("touches my own lines: " + mine[0])
    if R == "/repo" and not b.get("untested"):
        t = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        r = json.load(open("/tmp/seed_out.json"))
        miss = STABLE - set(r["passed"])
        if miss:
            msg.append("tests fail (%d): %s" % (len(miss), sorted(miss)[:2] if len(miss) < 190 else t.stdout[-600:]))
    w = sh("bash %s/demo.sh" % d, cwd=R)
    clean()
    c = sh("bash %s/demo.sh" % d, cwd=R)
    if w.returncode == 0:
        msg.append("demo passes with the bug")
    if c.returncode != 0:
        msg.append("demo fails without the bug: " + c.stdout[-500:])
    if "error:" in w.stdout:
        msg.append("demo does not compile with the bug " + w.stdout[-400:])
    return "; ".join(msg) or "ok"


def run(i, tier=""):
    d = os.path.join(V, "seeded", i)
    pid = json.load(open(os.path.join(d, "meta.json")))["property"]
    clean()
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    if a.returncode:
        return "patch does not apply"
    try:
        p = sh("python3 run.py %s %s" % (pid, tier), cwd=V, timeout=1500)
    finally:
        clean()
    l = [x for x in p.stdout.splitlines() if x.startswith("VIOLATION") or "native:" in x]
    return "%s exit %d %s" % (pid, p.returncode, l[0][:230] if l else p.stdout[-300:].replace("\n", " / "))


if __name__ == "__main__":
    if sys.argv[1] == "make":
        g = {}
        exec(open(sys.argv[2]).read(), g)
        for b in g["BUGS"]:
            if len(sys.argv) > 3 and b["id"] not in sys.argv[3:]:
                continue
            print(b["id"], make(b), flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded")))
        for i in ids:
            print(i, run(i), flush=True)
