#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide one property on /repo's current tree.

Builds the whole program (rusty-git, dependencies, std, scenarios) to LLVM IR from the current sources, executes the
property's scenarios symbolically (engine/), and replays natively a sample of the explored paths and every
counterexample. Exit 0: held on everything explored. Exit 1: VIOLATION. Exit 2: no verdict (build failure, a scenario
that did not reach what it must reach, a counterexample or sample that does not replay).
"""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
import table
T = os.environ.get("VERIF_TARGET", V + "/target")
NATIVE = T + "/native/debug/native"
SYMEX = T + "/engine/release/symex"
CORES = 8

def die(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)

def sources():
    """scenario -> (doc comment, covers that must be reached)"""
    r = {}
    for f in sorted(glob.glob(V + "/harness/scen/*.rs")):
        mod = os.path.basename(f)[:-3]
        for m in re.finditer(r"((?:^///[^\n]*\n)*)^pub fn (\w+)\(\) \{\n(.*?)^\}", open(f).read(), re.M | re.S):
            doc = " ".join(l[3:].strip() for l in m.group(1).splitlines())
            r[mod + "_" + m.group(2)] = (doc, sorted(set(re.findall(r'[^_]cover\("([^"]*)"\)', m.group(3)))))
    return r

SUMS = ["paths", "killed", "instructions", "forks", "symbolic_branches", "domain_decisions", "confirmed", "unconfirmed", "queries", "cache_hits", "sat", "unsat", "unknown", "solver_seconds", "asserts", "left"]

T0 = time.time()
alarms = []

def explore(name, idx, ll, tier, tmp, jobs):
    out = "%s/%s.json" % (tmp, name)
    limit = table.TIME[tier]
    # a quick run as a whole stays below its limit, also on a tree where everything takes longer; and once there is a
    # counterexample the rest is looked at only briefly
    if tier == "quick": limit = max(5, min(limit, int(T0 + table.TIME["whole"] - time.time()), 30 if len(alarms) > 1 else limit))
    cmd = [SYMEX, "--arg", str(idx), "--param", "1" if tier == "thorough" else "0", "--out", out, "--time", str(limit), "--qtimeout", "30000", "--samples", "6", "--confirm", "120" if tier == "thorough" else "10"]
    if jobs > 1: cmd += ["--jobs", str(jobs)]
    d = dict(name=name, covers={}, unsupported=[], samples=[], violations=[], functions=set(), seconds=0, timeout=False, crashed=False, max_vars=0, max_query_seconds=0, solver="")
    d.update({k: 0 for k in SUMS})
    try: p = subprocess.run(cmd + [ll], capture_output=True, text=True, errors="replace", timeout=limit + 200)
    except subprocess.TimeoutExpired: d["timeout"] = True; p = None
    if p is not None and p.returncode: d["crashed"] = p.stderr[-600:] or "status %d" % p.returncode
    for f in sorted(glob.glob(out + "*")):
        if f.endswith(".crashed"): d["crashed"] = "a worker ended abnormally"; continue
        j = json.load(open(f))
        for k in SUMS: d[k] += j[k]
        for k, v in j["covers"].items(): d["covers"][k] = d["covers"].get(k, 0) + v
        d["unsupported"] += j["unsupported"]; d["samples"] += j["samples"][:6]; d["violations"] += j["violations"]
        d["functions"] |= set(j["functions"]); d["seconds"] = max(d["seconds"], j["seconds"]); d["timeout"] |= j["timeout"]
        d["max_vars"] = max(d["max_vars"], j["max_vars"]); d["max_query_seconds"] = max(d["max_query_seconds"], j["max_query_seconds"]); d["solver"] = j["solver"]
    if any(mine(sys.argv[1], v) for v in d["violations"]): alarms.append(name)
    if len(d["samples"]) > 12: d["samples"] = d["samples"][::len(d["samples"]) // 12 + 1]
    return d

def native(name, text):
    """replay one path on the native build: (exit status, output)"""
    td = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        os.mkdir(td + "/root")
        open(td + "/replay", "w").write(text)
        p = subprocess.run(["timeout", "-s", "KILL", "40", NATIVE, name, td + "/replay", td + "/root"], capture_output=True, text=True, errors="replace", cwd=td)
        return p.returncode, p.stdout + p.stderr[-2000:]
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", td])
        shutil.rmtree(td, ignore_errors=True)

def sample_ok(name, text):
    for _ in range(2):
        rc, o = native(name, text)
        if rc == 0 and [l for l in o.split("\n") if l.startswith("obs ")] == [l for l in text.split("\n") if l.startswith("obs ")]: return None
    return "rc %s, output %s" % (rc, o[-500:])

def reproduces(name, v):
    """does the counterexample show the violation natively"""
    for _ in range(2):
        rc, o = native(name, v["replay"])
        if rc in (137, -9, 124): ok = v["kind"] in ("hang", "deadlock")
        else: ok = rc not in (0, 2, 43, 44)
        if ok: return True, o
    return False, "rc %s, output %s" % (rc, o[-800:])

def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    t0 = time.time()
    p = subprocess.run(["bash", V + "/tools/build.sh"], capture_output=True, text=True)
    if p.returncode: print(p.stdout, file=sys.stderr); die("build failed")
    built = time.time() - t0
    ll = glob.glob(T + "/sym/release/deps/sym-*.ll")
    if len(ll) != 1: die("no IR module")
    names = subprocess.run([NATIVE, "--list"], capture_output=True, text=True).stdout.split()
    src = sources()
    todo = table.scenarios(prop, names)
    if "--only" in sys.argv: todo = [n for n in todo if re.search(sys.argv[sys.argv.index("--only") + 1], n)]
    if not todo: die("no scenario")
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        res = []
        heavy = [n for n in todo if n in table.HEAVY]
        light = [n for n in todo if n not in table.HEAVY]
        for n in heavy: res.append(explore(n, names.index(n), ll[0], tier, tmp, CORES))
        with cf.ThreadPoolExecutor(CORES) as ex: res += list(ex.map(lambda n: explore(n, names.index(n), ll[0], tier, tmp, 1), light))
        finish(prop, tier, t0, built, res, src)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def mine(prop, v):
    """a message tagged with another property's id belongs to that property; C22 counts only its own"""
    m = re.match(r"\[(C\d\d)\]", v["msg"])
    return (m.group(1) if m else None) in ((prop,) if prop in table.TAGGED_ONLY else (prop, None))

def known():
    r = []
    for l in open(V + "/known-findings.txt"):
        m = re.match(r"finding: property=(\S+) scenario=(\S+) message=\"(.*?)\" (.*)", l)
        if m: r.append(m.groups())
    return r

def finish(prop, tier, t0, built, res, src):
    errors, notes, viol, found = [], [], [], set()
    jobs = [(d["name"], s) for d in res for s in d["samples"]]
    with cf.ThreadPoolExecutor(CORES) as ex: ok = list(ex.map(lambda x: sample_ok(*x), jobs))
    for (n, s), r in zip(jobs, ok):
        if r: errors.append("a path of %s does not replay: %s\n%s" % (n, r, s[:400]))
    kf = known()
    for d in res:
        n = d["name"]
        for v in d["violations"]:
            if not mine(prop, v): continue
            k = [x for x in kf if x[0] == prop and x[1] == n and x[2] == v["msg"]]
            if k: found.add((n, v["msg"], k[0][3])); continue
            good, o = reproduces(n, v)
            if good: viol.append((n, v, o))
            else: errors.append("a counterexample of %s does not replay (%s: %s): %s" % (n, v["kind"], v["msg"], o))
        if d["crashed"]: errors.append("%s: the executor failed: %s" % (n, d["crashed"]))
        miss = [c for c in src.get(n, ("", []))[1] if c not in d["covers"]]
        if miss and not d["violations"]:
            (notes if d["timeout"] else errors).append("%s: never reached: %s" % (n, ", ".join(miss)))
        if d["paths"] == 0 and not d["timeout"]: errors.append("%s: no path completed" % n)
        if d["timeout"]: notes.append("%s: time limit, %d states left" % (n, d["left"]))
        if d["unknown"]: notes.append("%s: %d queries without an answer" % (n, d["unknown"]))
        for u in d["unsupported"]: notes.append("%s: %d paths stopped, not modelled: %s" % (n, u[1], u[0][:300]))
    tot = {k: sum(d[k] for d in res) for k in SUMS}
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    for f in glob.glob(V + "/evidence/replay/%s-*" % prop): os.remove(f)
    lines, seen = [], set()
    for i, (n, v, o) in enumerate(viol):
        f = "%s/evidence/replay/%s-%d-%s.replay" % (V, prop, i, n)
        open(f, "w").write(v["replay"])
        lines.append((n, v, f, o))
    samples = [{"scenario": d["name"], "path": s} for d in res for s in d["samples"][:1]]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "wall_s": round(time.time() - t0, 1), "violations": len(viol),
        "coverage": {
            "states": tot["paths"] + tot["killed"], "transitions": tot["instructions"],
            "traces_validated_against_impl": len(jobs) - sum(1 for r in ok if r), "samples": samples[:12],
            "meaning": "states: symbolic paths explored to their end; transitions: LLVM instructions executed symbolically; traces: explored paths replayed on the native build with equal observations",
            "exhaustive": not any(d["timeout"] or d["unknown"] or d["unsupported"] for d in res),
            "paths_completed": tot["paths"], "symbolic_branches": tot["symbolic_branches"], "assertions_evaluated": tot["asserts"],
            "decisions_by_exact_byte_domain": tot["domain_decisions"], "exclusions_by_domain_confirmed_by_z3": tot["confirmed"], "exclusions_by_domain_beyond_the_confirmation_budget": tot["unconfirmed"], "smt_queries": tot["queries"], "smt_sat": tot["sat"], "smt_unsat": tot["unsat"], "smt_unknown": tot["unknown"], "smt_cache_hits": tot["cache_hits"],
            "solver_seconds": round(tot["solver_seconds"], 2), "slowest_query_seconds": max(d["max_query_seconds"] for d in res), "solver": next((d["solver"] for d in res if d["solver"]), ""),
            "most_symbolic_bytes_on_a_path": max(d["max_vars"] for d in res), "build_seconds": round(built, 1),
            "functions_encoded": sorted(set().union(*[d["functions"] for d in res])),
            "scenarios": [{"name": d["name"], "bounds": src.get(d["name"], ("", []))[0], "paths": d["paths"], "queries": d["queries"], "solver_seconds": round(d["solver_seconds"], 2), "seconds": d["seconds"], "reached": d["covers"], "left": d["left"]} for d in res],
            "not_explored": notes,
            "known_findings": [list(x) for x in sorted(found)],
        },
        "assumptions": table.ASSUMPTIONS,
    }
    open(V + "/evidence/%s.json" % prop, "w").write(json.dumps(ev, indent=1) + "\n")
    for x in notes: print("NOTE: " + x, file=sys.stderr)
    for n, m, w in sorted(found): print("KNOWN-FINDING: property=%s %s" % (prop, w))
    print("%s %s: %d scenarios, %d paths, %d queries (%.1f s), %d replays, %.0f s" % (prop, tier, len(res), tot["paths"], tot["queries"], tot["solver_seconds"], len(jobs), time.time() - t0))
    for n, v, f, o in lines:
        print("VIOLATION property=%s replay=%s" % (prop, f))
        print("  %s: %s: %s" % (n, v["kind"], v["msg"]))
        for b in v["backtrace"][:8]: print("    at " + b[:150])
    if lines: sys.exit(1)
    if errors:
        for x in errors: print("ERROR: " + x, file=sys.stderr)
        sys.exit(2)

main()
