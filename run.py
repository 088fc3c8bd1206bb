#!/usr/bin/env python3
"""Decides one property: symbolic execution of the real code (LLVM IR built from
/repo's working tree) with z3, then native replay of what it found.

  run.py <ID>              run the check of property ID (VERIF_TIER=quick|thorough)
  run.py --replay <file>   rebuild the native harness and replay a recorded violation
"""
import json, os, subprocess, sys, time, shutil, hashlib, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FITORIA_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

NPROC = int(os.environ.get("VERIF_JOBS", "8"))
DEFS = ["-DFITORIA_HAS_FMT", "-DFITORIA_HAS_ZLIB", "-DFITORIA_HAS_BROTLI", "-D_GLIBCXX_ASSERTIONS"]
UB = "signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,bounds"
BC_FLAGS = ["-std=c++20", "-O1", "-g1", "-fno-pic", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize",
            "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DFMT_HEADER_ONLY", "-fsanitize=" + UB,
            "-fsanitize-trap=all", "-w",
            "-mllvm", "-two-entry-phi-node-folding-threshold=40",
            "-mllvm", "-phi-node-folding-threshold=12",
            "-mllvm", "-bonus-inst-threshold=12"]
RT_FLAGS = ["-std=c++20", "-O1", "-fno-pic", "-fno-pie", "-fno-builtin", "-mllvm",
            "-disable-loop-idiom-all", "-fno-vectorize", "-fno-slp-vectorize",
            "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w"]
NAT_FLAGS = ["-std=c++20", "-O0", "-g1", "-w", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern", "-fno-sanitize=vptr,nonnull-attribute"]


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                          timeout=timeout, errors="replace", **kw)


def incs(c):
    r = []
    for o in c.get("overlay", []):
        r += ["-I" + os.path.join(HERE, "overlay", o)]
    r += ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness")]
    return r


def build_bc(c, work):
    out = os.path.join(work, "h.bc")
    cmd = ["clang++"] + BC_FLAGS + DEFS + c.get("flags", []) + c.get("bcflags", []) + incs(c) + \
        ["-emit-llvm", "-c", os.path.join(HERE, "harness", c["src"]), "-o", out]
    p = sh(cmd)
    return out, p


def build_native(c, work):
    out = os.path.join(work, "native")
    src = os.path.join(HERE, "harness", c["src"])
    extra = [os.path.join(HERE, "rt", "native.cpp")]
    cmd = ["g++"] + NAT_FLAGS + DEFS + c.get("flags", []) + ["-DSYM_NATIVE"] + incs(c) + [src] + extra + \
        ["-o", out] + c.get("libs", ["-lfmt"])
    p = sh(cmd)
    return out, p


def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    eng = os.path.join(BUILD, "symex")
    rt = os.path.join(BUILD, "rt.bc")
    srcs = [os.path.join(HERE, "engine", f) for f in os.listdir(os.path.join(HERE, "engine"))]
    if not os.path.exists(eng) or os.path.getmtime(eng) < max(map(os.path.getmtime, srcs)):
        p = sh([os.path.join(HERE, "engine", "build.sh"), BUILD], timeout=900)
        if p.returncode:
            log(p.stderr[-3000:])
            sys.exit(2)
    rs = os.path.join(HERE, "rt", "rt.cpp")
    if not os.path.exists(rt) or os.path.getmtime(rt) < os.path.getmtime(rs):
        p = sh(["clang++"] + RT_FLAGS + ["-emit-llvm", "-c", rs, "-o", rt + ".tmp"])
        if p.returncode:
            log(p.stderr[-3000:])
            sys.exit(2)
        os.replace(rt + ".tmp", rt)
    return eng, rt


NAT_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98", TZ="UTC")


def native_one(nat, entry, param, tokens, thorough, timeout=20):
    env = dict(NAT_ENV)
    if thorough:
        env["SYM_THOROUGH"] = "1"
    try:
        p = subprocess.run([nat, "one", entry, str(param), tokens], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout, env=env, errors="replace")
        return p.returncode, p.stdout[-800:], p.stderr
    except subprocess.TimeoutExpired:
        return "timeout", "", ""


def describe(rc, out, err):
    if rc == "timeout":
        return "does not terminate (native run exceeded the time limit)"
    for l in out.splitlines():
        if l.startswith("NATIVE"):
            return l[:300]
    for l in err.splitlines():
        if "ERROR: AddressSanitizer" in l or "runtime error" in l or "terminate called" in l or "Assertion" in l:
            return l.strip()[:300]
    return "exit status %s" % rc


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    c = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a.startswith("--tier="):
            tier = a[7:]
    only = [a[7:] for a in sys.argv[2:] if a.startswith("--only=")]
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    eng, rt = ensure_engine()
    work = os.path.join(HERE, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    pool = ThreadPoolExecutor(NPROC)
    groups = c["groups"]
    # compile every harness of the property, bitcode and native
    comp = []
    for gi, g in enumerate(groups):
        gw = os.path.join(work, "g%d" % gi)
        os.makedirs(gw)
        g["_w"] = gw
        comp.append((g, pool.submit(build_bc, g, gw), pool.submit(build_native, g, gw)))
    bad = False
    for g, b, n in comp:
        g["_bc"], pb = b.result()
        if pb.returncode:
            log("COMPILE ERROR (clang) %s\n%s" % (g["src"], pb.stderr[-4000:]))
            bad = True
    if bad:
        pool.shutdown()
        return 2
    # jobs
    jobs = []
    for g in groups:
        for e in g["entries"]:
            if only and e["entry"] not in only:
                continue
            ps = e.get("thorough", e.get("quick", [0])) if thorough else e.get("quick", [0])
            W = e.get("parts_thorough", e.get("parts", 1)) if thorough else e.get("parts", 1)
            for p in ps:
                for k in range(W):
                    jobs.append(dict(g=g, e=e, param=p, part=k, W=W))
    budget = float(c.get("budget_thorough", 3000) if thorough else c.get("budget", 420))

    def run_job(j):
        e = j["e"]
        tag = "%s_%s_%d" % (e["entry"], j["param"], j["part"])
        js = os.path.join(j["g"]["_w"], tag + ".json")
        wf = os.path.join(j["g"]["_w"], tag + ".wit")
        if os.path.exists(wf + ".ext"):
            os.remove(wf + ".ext")
        left = max(20.0, budget - (time.time() - t0))
        tl = min(left, e.get("time_thorough", 2400) if thorough else e.get("time", 400))
        cmd = [eng, j["g"]["_bc"], rt, "--entry", e["entry"], "--param", str(j["param"]), "--json", js,
               "--wit", wf, "--time", str(tl), "--max-wit", str(e.get("max_wit", 600))]
        if j["W"] > 1:
            cmd += ["--part", "%d/%d" % (j["part"], j["W"]), "--part-depth", str(e.get("part_depth", 10))]
        if "max_instr" in e:
            cmd += ["--max-instr", str(e["max_instr"])]
        if thorough:
            cmd += ["--thorough"]
        if thorough and e.get("dump", True):
            dd = os.path.join(work, "q")
            os.makedirs(dd, exist_ok=True)
            cmd += ["--dump-queries", dd]
        try:
            p = sh(cmd, timeout=tl + 120)
        except subprocess.TimeoutExpired:
            j["res"] = None
            j["err"] = "engine timeout"
            return j
        j["wit"] = wf
        if p.returncode in (0, 1, 2) and os.path.exists(js):
            j["res"] = json.load(open(js))
        else:
            j["res"] = None
            j["err"] = "engine exit %s: %s" % (p.returncode, p.stderr[-600:])
        return j

    order = sorted(jobs, key=lambda j: -j["e"].get("weight", 1))
    done = list(pool.map(run_job, order))
    for g, b, n in comp:
        g["_nat"], pn = n.result()
        if pn.returncode:
            log("COMPILE ERROR (g++) %s\n%s" % (g["src"], pn.stderr[-4000:]))
            return 2
    t_sym = time.time() - t0

    errors, incomplete = [], {}
    tot, funcs, covers, asserts, viols = {}, {}, {}, set(), []
    for j in done:
        r = j["res"]
        if r is None:
            errors.append("%s(%s): %s" % (j["e"]["entry"], j["param"], j.get("err")))
            continue
        for k, v in r.items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        for k, v in r["functions"].items():
            funcs[k] = max(funcs.get(k, 0), v)
        for k, v in r["covers"].items():
            covers[k] = covers.get(k, 0) + v
        asserts |= set(r["asserts"])
        for k, v in r["incomplete"].items():
            kk = "%s(%s): %s" % (j["e"]["entry"], j["param"], k)
            incomplete[kk] = incomplete.get(kk, 0) + v
        for v in r["violations"]:
            viols.append((j, v))

    # replay violations natively
    kfs = []
    kff = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kff):
        kfs = [k for k in json.load(open(kff)) if k.get("property") == pid and k.get("status") == "known"]
    confirmed, unconfirmed, kf_seen = [], [], {}

    def rep(jv):
        j, v = jv
        rc, out, err = native_one(j["g"]["_nat"], j["e"]["entry"], j["param"], v["input"], thorough)
        return j, v, rc, out, err

    seen = {}
    pick = []
    for j, v in viols:
        k = (j["e"]["entry"], v["kind"], v["msg"], v["where"])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 4:
            pick.append((j, v))
    for j, v, rc, out, err in pool.map(rep, pick[:60]):
        if rc == 0 or rc in (43, 44):
            unconfirmed.append((j, v, describe(rc, out, err)))
            continue
        d = describe(rc, out, err)
        k = next((k for k in kfs if k["entry"] == j["e"]["entry"]
                  and re.search(k["match"], v["kind"] + ": " + v["msg"])), None)
        if k:
            kf_seen[k["id"]] = k
        else:
            confirmed.append((j, v, d))
    # validate completed paths against the native build
    validated = 0
    mism = []

    def val(j):
        env = dict(NAT_ENV)
        if thorough:
            env["SYM_THOROUGH"] = "1"
        if not os.path.exists(j["wit"]):
            return j, 0, "", ""
        try:
            p = subprocess.run([j["g"]["_nat"], "batch", j["e"]["entry"], str(j["param"]), j["wit"]],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300, env=env,
                               errors="replace")
            return j, p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return j, "timeout", "", ""

    samples = []
    for j, rc, out, err in pool.map(val, [j for j in done if j["res"] is not None]):
        m = re.search(r"NATIVE BATCH (\d+)", out)
        if rc == 0 and m:
            validated += int(m.group(1))
        elif rc == 0 and not m:
            pass
        elif rc in (42,) or rc in (98, 99) or (isinstance(rc, int) and rc < 0) or (rc == 1):
            # the real code failed on an input the executor classed as fine
            mi = re.search(r"\[input (.*)\]", out)
            mism.append((j, "fails natively: " + describe(rc, out, err), mi.group(1) if mi else None))
        else:
            mism.append((j, describe(rc, out, err), None))
        if os.path.exists(j["wit"]) and len(samples) < 12:
            with open(j["wit"]) as f:
                l = f.readline().strip()
            if l:
                samples.append({"harness": j["e"]["entry"], "param": j["param"], "input": l.rsplit("|", 1)[0][:400]})
    # paths the executor could not finish: the replayer completes them with made-up inputs. What fails there is
    # a violation, what passes counts for nothing
    def ext(j):
        try:
            p = subprocess.run([j["g"]["_nat"], "extend", j["e"]["entry"], str(j["param"]), j["wit"] + ".ext"],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120,
                               env=dict(NAT_ENV, **({"SYM_THOROUGH": "1"} if thorough else {})), errors="replace")
            return j, p.stdout
        except (subprocess.TimeoutExpired, OSError):
            return j, ""

    extended = []
    for j, out in pool.map(ext, [j for j in done if j["res"] is not None and os.path.exists(j["wit"] + ".ext")][:24]):
        m = re.search(r"NATIVE ASSERT: (.*) \[input (.*)\]\s*NATIVE EXTENDED FAIL", out)
        if m and not any(k["entry"] == j["e"]["entry"] and re.search(k["match"], "assert: " + m.group(1)) for k in kfs):
            extended.append((j, m.group(1), m.group(2)))
    # cross-check a sample of the discharged queries with two other solvers
    cross = None
    if thorough:
        cross = cross_check(os.path.join(work, "q"), pool)
        if cross["disagree"]:
            errors.append("solver disagreement: %s" % cross["disagree"][:3])
    pool.shutdown()

    missing = [m for g in groups for e in g["entries"] if not only or e["entry"] in only
               for m in e.get("covers", []) if not covers.get(m)]
    wall = time.time() - t0
    known_ids = [k["id"] for k in kfs]
    cov = dict(
        states=int(tot.get("paths", 0)), transitions=int(tot.get("instrs", 0)),
        traces_validated_against_impl=validated, samples=samples or [{"note": "no completed path"}],
        explanation="states = symbolic paths completed (each stands for every input satisfying its path condition); "
                    "transitions = LLVM instructions interpreted symbolically; traces_validated = path witnesses "
                    "re-executed on the g++ ASan/UBSan build with identical observations",
        symbolic_forks=int(tot.get("forks", 0)),
        assertions_discharged_symbolically=int(tot.get("asserts_sym", 0)),
        assertions_concrete_on_path=int(tot.get("asserts_conc", 0)),
        queries={k: int(tot.get(k, 0)) for k in
                 ("q_dom", "q_wit", "q_local", "q_cache", "q_z3", "q_sat", "q_unsat", "q_unknown")},
        solver_time_s=round(tot.get("solver_s", 0), 3), engine_cpu_s=round(tot.get("wall_s", 0), 3),
        symbolic_wall_s=round(t_sym, 1),
        jobs=len(done), functions_encoded=sorted(funcs), function_count=len(funcs),
        source_lines_reached=sum(funcs.values()), reachability=covers, checks_stated=sorted(asserts),
        bounds=c["bounds_thorough"] if thorough and "bounds_thorough" in c else c["bounds"],
        exhaustive=not (incomplete or errors or unconfirmed or mism or missing), incomplete=incomplete,
        unconfirmed=len(unconfirmed), validation_mismatches=len(mism), unreached=missing)
    if cross:
        cov["cross_check"] = {k: v for k, v in cross.items() if k != "disagree"}
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=c.get("assumptions", []) + STD_ASSUME, wall_s=round(wall, 2), violations=len(confirmed))
    if not only:
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    log("%s %s: %d paths, %d instrs, %d forks, z3 %d queries %.1fs, %d traces validated, %d functions, %.1fs" % (
        pid, tier, cov["states"], cov["transitions"], cov["symbolic_forks"], cov["queries"]["q_z3"],
        cov["solver_time_s"], validated, len(funcs), wall))
    if "-v" in sys.argv:
        for j in sorted(done, key=lambda j: -(j["res"] or {}).get("wall_s", 0))[:30]:
            r = j["res"] or {}
            log("   %s(%s)#%d: %s paths %.1fs z3 %.1fs/%s" % (j["e"]["entry"], j["param"], j["part"], r.get("paths"),
                r.get("wall_s", 0), r.get("solver_s", 0), r.get("q_z3")))
        log("   covers", covers)
    for k, v in list(incomplete.items())[:12]:
        log("INCOMPLETE %s x%d" % (k, v))
    for k in kfs:
        if k["id"] in kf_seen:
            log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rdir = os.path.join(HERE, "work", "replay")
    os.makedirs(rdir, exist_ok=True)

    def report(n, j, kind, msg, where, tokens, native, trace):
        path = os.path.join(rdir, "%s-%d.json" % (pid, n))
        gi = groups.index(j["g"])
        with open(path, "w") as f:
            json.dump(dict(property=pid, group=gi, entry=j["e"]["entry"], param=j["param"], kind=kind, message=msg,
                           where=where, input=tokens, native=native, trace=trace, tier=tier,
                           how="python3 /verif/run.py --replay " + path), f, indent=1)
        log("  %s: %s at %s; input: %s; native: %s" % (kind, msg, where, tokens, native))
        log("VIOLATION property=%s replay=%s" % (pid, path))

    n = 0
    for j, v, d in confirmed[:8]:
        report(n, j, v["kind"], v["msg"], v["where"], v["input"], d, v["trace"])
        n += 1
    if confirmed:
        return 1
    if extended:
        for j, m, tokens in extended[:4]:
            report(n, j, "native", m + " (completing a path that could not be encoded)", "", tokens, m, [])
            n += 1
        return 1
    nat_fail = [m for m in mism if m[1].startswith("fails natively") and m[2] is not None]
    if nat_fail:
        for j, m, tokens in nat_fail[:4]:
            report(n, j, "native", "the real build fails on a solver-generated path witness", "", tokens, m, [])
            n += 1
        return 1
    # none of the following is an answer about the code: on the tree as committed there is none of it
    # (strict mode, used before every commit, fails on it); on another tree the run reports what it
    # explored and says that it was not exhaustive
    strict = "--strict" in sys.argv or os.environ.get("VERIF_STRICT") == "1"
    rc = 0
    for j, v, d in unconfirmed[:6]:
        log("UNCONFIRMED %s(%s) %s: %s at %s input %s -> %s" % (j["e"]["entry"], j["param"], v["kind"], v["msg"],
                                                              v["where"], v["input"], d))
        rc = 2 if strict else rc
    for j, m, t in mism[:6]:
        log("VALIDATION %s(%s): %s" % (j["e"]["entry"], j["param"], m))
        rc = 2 if strict else rc
    for e in errors[:6]:
        log("ERROR " + e)
        rc = 2 if strict else rc
    if missing:
        log("VACUOUS: never reached: %s" % missing)
        rc = 2 if strict else rc
    if incomplete and strict:
        rc = 2
    if not tot.get("paths"):
        log("ERROR no path completed")
        rc = 2
    if kfs and len(kf_seen) < len(kfs) and not only:
        log("note: listed finding(s) not seen: %s" % [i for i in known_ids if i not in kf_seen])
    return rc


STD_ASSUME = [
    "bounded: inputs outside the stated sizes/templates are outside the claim",
    "code is clang 18 -O1 LLVM IR of /repo's headers with UBSan traps and libstdc++ assertions; libstdc++/fmt templates "
    "are executed as they are, libc character classification, red-black tree rebalancing, hash seeds and exception "
    "objects come from /verif/rt/rt.cpp",
    "allocation never fails below 1 MB; single thread; C locale",
]


def cross_check(d, pool):
    fs = sorted(os.listdir(d)) if os.path.isdir(d) else []
    fs = fs[:: max(1, len(fs) // 400)]
    res = dict(sampled=len(fs), z3_new_agree=0, cvc5_agree=0, timeouts=0, disagree=[])

    def one(f):
        p = os.path.join(d, f)
        want = "sat" if f.endswith("_sat.smt2") else "unsat" if f.endswith("_unsat.smt2") else None
        out = []
        for cmd in (["z3-new", "-T:20", p], ["cvc5", "--tlimit=20000", p]):
            try:
                o = sh(cmd, timeout=40).stdout.strip().splitlines()
                out.append(o[0] if o else "none")
            except subprocess.TimeoutExpired:
                out.append("timeout")
        return f, want, out

    for f, want, out in pool.map(one, fs):
        for name, o in zip(("z3_new_agree", "cvc5_agree"), out):
            if o == want:
                res[name] += 1
            elif o in ("sat", "unsat") and want is not None:
                res["disagree"].append((f, want, out))
            else:
                res["timeouts"] += 1
    shutil.rmtree(d, ignore_errors=True)
    return res


def replay(path):
    r = json.load(open(path))
    c = CHECKS[r["property"]]
    g = c["groups"][r["group"]]
    work = os.path.join(HERE, "work", "replay-build")
    os.makedirs(work, exist_ok=True)
    nat, p = build_native(g, work)
    if p.returncode:
        log(p.stderr[-3000:])
        return 2
    rc, out, err = native_one(nat, r["entry"], r["param"], r["input"], r.get("tier") == "thorough")
    log(out)
    log(err[-4000:])
    log("replay:", "no failure" if rc == 0 else describe(rc, out, err))
    return 0 if rc == 0 else 1


if __name__ == "__main__":
    sys.exit(main())
