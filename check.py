#!/usr/bin/env python3
"""Decide one property by symbolic execution of the code in /repo.

    check.py PROPERTY [quick|thorough]

1. Compiles /verif/harness (which depends on /repo by path) from /repo's current tree to LLVM IR, and twice to
   a native replay program (dev-like and release-like).
2. Runs the property's harnesses in lsx (/verif/engine): every path within the bounds, every branch and
   every assertion decided by Z3 over all values of the symbolic inputs.
3. Replays the model of every finished path natively and compares the outputs (validates the encoding), and
   replays every counterexample natively; only what reproduces is a violation.
Exit 0: held on everything explored. Exit 1: VIOLATION. Exit 2: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, threading, time, glob, hashlib

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T0 = time.time()
BUDGET = {"quick": 420.0, "thorough": 800.0}


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    e.update(HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_HOME="/root/.rustup", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
             RUSTUP_AUTO_INSTALL="0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never",
             PATH="/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"))
    e.update(kw)
    return e


def die(msg):
    print("ERROR " + msg)
    sys.exit(2)


def cargo(args, cwd, target, **kw):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=env(CARGO_TARGET_DIR=target, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def build_engine():
    t = os.path.join(V, "build", "engine")
    rc, o = cargo(["build", "--release", "--offline"], os.path.join(V, "engine"), t)
    if rc:
        die("building the engine failed\n" + o[-3000:])
    return os.path.join(t, "release", "lsx")


def harnesses(num, tier):
    """Harnesses and their stated bounds, from the doc comments `[qt] bound` in the source."""
    src = open(os.path.join(V, "harness", "src", "p%s.rs" % num)).read()
    res, known, marked = [], {}, {}
    gens = {m.group(2): (m.group(1) or "").strip(" /") for m in re.finditer(r"(?:///(.*)\n)?pub fn (\w+)", open(os.path.join(V, "harness", "src", "gen.rs")).read())}
    for m in re.finditer(r"(?:///[ \t]*\[([qt]+)\][ \t]*(.*)\n)?\s*(?:#\[.*\]\s*)?fn (c%s_\w+)\s*\(\)\s*\{(.*)" % num, src):
        tiers, bound, name = m.group(1) or "qt", m.group(2) or "", m.group(3)
        if not bound:
            call = m.group(4).strip().rstrip("}").strip()
            g = re.search(r"gen::(\w+)", call)
            bound = "every source of the generator in " + call + (" (%s)" % gens[g.group(1)] if g and gens.get(g.group(1)) else "")
        known[name] = bound
        marked[name] = tiers
        if tier[0] in tiers:
            res.append(name)
    codes = {}
    for f in glob.glob(os.path.join(V, "harness", "src", "*.rs")):
        for m in re.finditer(r"(\d{2,4}),\s*\"((?:[^\"\\]|\\.)*)\"\s*[,)]", open(f).read()):
            codes[int(m.group(1))] = m.group(2)
    covers = {int(x): x for x in re.findall(r"cover\((\d+)\)", src)}
    thorough_only = {int(x) for x in re.findall(r"cover\((\d+)\)\s*;?\s*//\s*thorough", src)}
    want = set(covers) - (thorough_only if tier == "quick" else set())
    return res, known, codes, want


def load_known(prop):
    known = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) harness=(\S+) code=(\S+) model=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                known.append(m.groups()[1:])
    return known


def native_one(exe, h, model, secs=20, show=False):
    try:
        p = subprocess.run([exe, "one", h, model] + (["show"] if show else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=secs)
    except subprocess.TimeoutExpired:
        return "hang (no result within %d s)" % secs
    if p.returncode != 0:
        return "crash (status %d)" % p.returncode
    return p.stdout.strip()


def main():
    if sys.argv[1:] == ["setup"]:
        print(build_engine())
        return
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    num = prop[1:]
    feat = "c" + num
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    hs, bounds, codes, want = harnesses(num, tier)
    if os.environ.get("VX_ONLY"):
        hs = [h for h in hs if re.search(os.environ["VX_ONLY"], h)]
        want = set()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    work = os.path.join(V, "build", feat)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    H = os.path.join(V, "harness")
    builds, errs = {}, []

    def nat(profile):
        # own target directory, built from nothing: never a stale copy of /repo
        t = os.path.join(work, profile)
        rc, o = cargo(["build", "--profile", profile, "--offline", "--features", feat + ",native"], H, t)
        if rc:
            errs.append(o[-3000:])
        builds[profile] = os.path.join(t, profile, "vxh")

    th = [threading.Thread(target=nat, args=(p,)) for p in ("ndev", "nrel")]
    for t in th:
        t.start()
    engine = build_engine()
    irdir = os.path.join(work, "ir")
    rc, o = cargo(["rustc", "--release", "--offline", "--features", feat, "--", "--emit=llvm-ir"], H, irdir)
    lls = glob.glob(os.path.join(irdir, "release", "deps", "vxh*.ll"))
    if len(lls) != 1:
        for t in th:
            t.join()
        die("no LLVM IR from the harness build\n" + o[-3000:])
    for t in th:
        t.join()
    if errs:
        die("native build failed\n" + errs[0])
    build_s = time.time() - T0

    rep_f = os.path.join(work, "report.json")
    pdir = os.path.join(work, "paths")
    ddir = os.path.join(work, "smt2")
    os.makedirs(pdir)
    os.makedirs(ddir)
    left = BUDGET[tier] - (time.time() - T0)
    ncpu = os.cpu_count() or 4
    cmd = [engine, lls[0], "--out", rep_f, "--paths", pdir, "--threads", str(min(8, ncpu)), "--deadline", "%d" % (left * 0.8)]
    cmd += ["--dump", ddir, "401" if tier == "quick" else "97"]
    for h in hs:
        cmd += ["--harness", h]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if not os.path.exists(rep_f):
        die("engine failed (%d)\n%s" % (p.returncode, p.stderr[-3000:]))
    if os.environ.get("VX_VERBOSE"):
        print(p.stderr)
    rep = json.load(open(rep_f))
    R = rep["harnesses"]

    # ---- native replay of every explored path
    problems, validated = [], 0
    mism = []
    for prof, exe in sorted(builds.items()):
        for r in R:
            q = subprocess.run([exe, "run", os.path.join(pdir, r["harness"] + ".paths"), r["harness"]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            m = re.search(r"replayed (\d+) mismatches (\d+)", q.stdout)
            if not m:
                problems.append("native replay of %s (%s) ended with status %d" % (r["harness"], prof, q.returncode))
                continue
            validated += int(m.group(1)) - int(m.group(2))
            for l in q.stdout.splitlines():
                if l.startswith("MISMATCH"):
                    mism.append((r["harness"], prof, l))
    natives = []
    for m in mism[:40]:
        # The real code itself fails on the model of a path that the executor saw end well: what it does depends on more than
        # its input (where memory lies, what ran before in the process). That is a counterexample if it shows again.
        w = re.match(r"MISMATCH (\S*) engine=.* native=(violated|panic) ", m[2])
        if w and not natives:
            one = native_one(builds[m[1]], m[0], w.group(1))
            if not one.startswith("ok") and one != "assumed":
                natives.append((m, w.group(1), one, "one %s %s" % (m[0], w.group(1))))
            else:
                q = subprocess.run([builds[m[1]], "run", os.path.join(pdir, m[0] + ".paths"), m[0]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
                w2 = re.search(r"MISMATCH (\S*) engine=.* native=((?:violated|panic) .*)", q.stdout)
                if w2:
                    keep = os.path.join(V, "evidence", prop + ".paths")
                    shutil.copy(os.path.join(pdir, m[0] + ".paths"), keep)
                    natives.append((m, w2.group(1), w2.group(2), "run %s %s" % (keep, m[0])))
    if not natives:
        for m in mism[:5]:
            problems.append("engine and native code disagree: %s (%s) %s" % m)

    # ---- counterexamples
    known = load_known(prop)
    violations, knowns, tried, cut = [], [], 0, []
    for r in R:
        cands = r["fails"][:12] + [e for e in r["errors"] if e["kind"] == "limit"][:2]
        for f in cands:
            tried += 1
            res = {prof: native_one(exe, r["harness"], f["model"]) for prof, exe in sorted(builds.items())}
            hit = {p_: x for p_, x in res.items() if not x.startswith("ok") and x != "assumed"}
            if not hit:
                if f["kind"] == "limit":
                    cut.append(r["harness"])  # longer than the engine's step limit: not explored to its end
                else:
                    problems.append("counterexample of %s does not reproduce: %s %s model=%s native=%s" % (r["harness"], f["kind"], f["detail"], f["model"], res))
                continue
            first = sorted(hit.values())[0]
            m = re.match(r"violated (\d+)", first)
            code = m.group(1) if m else first.split(" ")[0]
            what = codes.get(int(code), "") if m else first
            k = [x for x in known if x[0] == r["harness"] and x[1] == code and x[2] == f["model"]]
            if k:
                knowns.append(k[0])
                continue
            violations.append({"harness": r["harness"], "model": f["model"], "engine": "%s %s" % (f["kind"], f["detail"]), "native": res,
                               "code": code, "what": what, "stack": f["stack"],
                               "shown": native_one(sorted(builds.values())[0], r["harness"], f["model"], show=True)})
        for e in r["errors"]:
            if e["kind"] != "limit":
                problems.append("engine error in %s: %s %s" % (r["harness"], e["kind"], e["detail"]))

    for m, model, end, how in natives:
        w = re.match(r"violated (\d+)", end)
        violations.append({"harness": m[0], "model": model, "engine": "ok", "native": {m[1]: end}, "code": w.group(1) if w else "panic", "what": codes.get(int(w.group(1)), "") if w else end,
                           "stack": [], "shown": "replay with: vxh " + how})

    # ---- vacuity
    covered = set()
    for r in R:
        covered |= set(r["covers"])
    exhausted = all(r["exhausted"] for r in R) and not cut
    missing = sorted(want - covered)
    if exhausted and missing and not violations:
        problems.append("assertions never reached: cover codes %s" % missing)
    empty = [r["harness"] for r in R if r["exhausted"] and r["done"] == 0 and not r["fail_count"]]
    if empty:
        problems.append("harnesses without a finished path: %s" % empty)

    # ---- second opinion on sampled queries
    cross = {"queries": 0, "agree": 0, "solvers": []}
    files = sorted(glob.glob(os.path.join(ddir, "*.smt2")), key=lambda f: hashlib.sha1((str(seed) + os.path.basename(f)).encode()).hexdigest())
    n_cross = 40 if tier == "quick" else 400
    tc = time.time()
    for sv in (["cvc5", "--lang=smt2"], ["z3-new"]):
        if shutil.which(sv[0]) is None:
            continue
        cross["solvers"].append(sv[0])
        picks = files[:n_cross]
        for i in range(0, len(picks), 8):
            if time.time() - tc > (20 if tier == "quick" else 90):
                break
            ps = [(f, subprocess.Popen(sv + [f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for f in picks[i:i + 8]]
            for f, q in ps:
                try:
                    o = q.communicate(timeout=20)[0].strip().split("\n")[0]
                except subprocess.TimeoutExpired:
                    q.kill()
                    continue
                st = re.search(r":status (\w+)", open(f).read()).group(1)
                if "error" in o:
                    problems.append("%s: %s" % (sv[0], o))
                    continue
                if o not in ("sat", "unsat"):
                    continue
                cross["queries"] += 1
                if st == o:
                    cross["agree"] += 1
                elif st in ("sat", "unsat"):
                    problems.append("%s answers %s where z3 answered %s on %s" % (sv[0], o, st, f))

    # ---- report
    tot = lambda k: sum(r[k] for r in R)
    funcs = sorted({f for r in R for f in r["functions"]})
    enc = [f for f in funcs if "html5_fuser" in f or "tendril" in f]
    samples = []
    for r in R[:6]:
        pf = os.path.join(pdir, r["harness"] + ".paths")
        ls = open(pf).read().splitlines() if os.path.exists(pf) else []
        if ls:
            mdl = ls[len(ls) // 2].split(" ")[0]
            samples.append({"harness": r["harness"], "model": mdl, "ends": native_one(sorted(builds.values())[0], r["harness"], mdl, show=True)[:400]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("done"), "transitions": tot("decisions"), "traces_validated_against_impl": validated,
            "samples": samples,
            "rule": "states: paths finished (each stands for every input with its path condition); transitions: branch, address and assertion decisions; traces: path models replayed in the dev-like and the release-like native build with equal outputs",
            "exhausted_within_bounds": exhausted, "harnesses_with_paths_over_the_step_limit": sorted(set(cut)),
            "paths_explored": tot("paths"), "paths_outside_assumptions": tot("assumed"), "instructions": tot("steps"),
            "solver": rep["solver"], "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
            "cached_answers": tot("cache_hits"), "solver_time_s": round(tot("solver_time"), 3), "slowest_query_s": max(r["max_query"] for r in R),
            "cross_checked": cross,
            "assertions_decided": {"%s %s" % (k, codes.get(int(k), "")): sum(r["asserts"].get(k, 0) for r in R) for k in sorted({k for r in R for k in r["asserts"]}, key=int)},
            "reachability_witnesses": sorted(covered & want), "harnesses": [
                {"name": r["harness"], "bound": bounds.get(r["harness"], ""), "exhausted": r["exhausted"], "paths": r["paths"], "symbolic_bytes": r["symbolic_bytes"],
                 "queries": r["queries"], "solver_time_s": r["solver_time"], "wall_s": r["wall"]} for r in R],
            "functions_encoded": enc, "functions_encoded_total": len(funcs), "counterexamples_replayed": tried, "build_s": round(build_s, 1),
        },
        "assumptions": ["claims hold within the stated bounds only", "rustc's LLVM IR at opt-level 1 (overflow checks on) stands for the source; replays cover the opt-level 1 dev-like and opt-level 3 release-like builds",
                        "allocation does not fail; x86-64", "Z3 answers; sampled queries cross-checked with " + " and ".join(cross["solvers"])],
        "wall_s": round(time.time() - T0, 2), "violations": len(violations),
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not os.environ.get("VX_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d harnesses, %d paths, %d decisions, %d queries (%.1f s solver), %d traces validated, exhausted=%s, build %.1f s, total %.1f s"
          % (prop, tier, len(R), tot("paths"), tot("decisions"), tot("queries"), tot("solver_time"), validated, exhausted, build_s, time.time() - T0))
    for k in knowns:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    if violations:
        rp = os.path.join(V, "evidence", prop + ".replay.json")
        json.dump({"property": prop, "how": "harness and model: build /verif/harness with --features %s,native and run `vxh one HARNESS MODEL show`" % feat, "violations": violations}, open(rp, "w"), indent=1)
        v = violations[0]
        print("  %s: %s\n  %s" % (v["harness"], v["what"], v["shown"].replace("\n", "\n  ")[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if problems:
        for x in problems[:12]:
            print("PROBLEM " + x)
        sys.exit(2)
    sys.exit(0)


main()
