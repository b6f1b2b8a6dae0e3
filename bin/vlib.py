"""Shared driver: compile harnesses to bitcode, run symx, replay and validate natively, write evidence."""
import json, os, sys, subprocess, hashlib, time, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
H = os.path.join(V, "harness")
INC = ["-I" + os.path.join(REPO, "include"), "-I" + H]
DEF = ["-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DCPPSORT_ENABLE_ASSERTIONS", "-D_GLIBCXX_ASSERTIONS", "-DCPPSORT_DISABLE_DEPRECATION_WARNINGS"]
SAN = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,bounds,float-cast-overflow", "-fsanitize-trap=all"]
BCFLAGS = ["-std=c++17", "-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-emit-llvm", "-c", "-gline-tables-only", "-w"] + DEF + SAN
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

def short_names(fs, most=600):
    """the distinct functions of the list without their template arguments and parameters"""
    out = set()
    for f in fs:
        s = ""; depth = 0; f, _, where = f.rpartition(" ("); where = where.rstrip(")")
        f = f.replace("operator<<", "operator#shl").replace("operator<", "operator#lt").replace("operator()", "operator#call").replace("operator->", "operator#arrow").replace("operator>", "operator#gt")
        for ch in f:
            if ch == "<": depth += 1
            elif ch == ">": depth -= 1
            elif depth <= 0: s += ch
        s = s.replace("#call", "()").replace("#lt", "<").replace("#gt", ">").replace("#shl", "<<").replace("#arrow", "->").strip()
        if s: out.add("%s (%s)" % (s, where))
    out = sorted(out)
    return out[:most] + (["... %d more" % (len(out) - most)] if len(out) > most else [])

def repo_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "include"), H):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(os.path.relpath(p, base).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def sh(cmd, timeout=900, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, **kw)

def build_engine():
    r = sh(["bash", os.path.join(V, "engine", "build.sh")])
    if r.returncode or not os.path.exists(os.path.join(BUILD, "symx")):
        print(r.stdout); print("engine build failed"); sys.exit(2)
    n = os.path.join(BUILD, "native.o"); src = os.path.join(H, "native.cpp")
    if not os.path.exists(n) or os.path.getmtime(n) < os.path.getmtime(src):
        r = sh(["clang++", "-O1", "-c", src, "-o", n + ".tmp%d" % os.getpid()])
        if r.returncode: print(r.stdout); sys.exit(2)
        os.replace(n + ".tmp%d" % os.getpid(), n)

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.modules = {}; self.tasks = []; self.bounds = []; self.assumptions = []; self.deadline = 420 if tier == "quick" else 3000
        self.notes = []; self.keep_going = False; self.post = None
    def module(self, name, src, defs=(), flags=(), api=False):      # api: uses nothing but documented calls
        self.modules[name] = dict(src=os.path.join(H, src), defs=["-D" + d for d in defs], flags=list(flags), api=api)
    def task(self, mod, entry, args, name=None, steps=2000000, gates=0):
        self.tasks.append(dict(mod=mod, entry=entry, args=[int(a) for a in args], name=name or "%s(%s)" % (entry, ",".join(map(str, args))), steps=steps, gates=gates))

def compile_all(c, rh):
    cache = os.path.join(BUILD, "cache"); os.makedirs(cache, exist_ok=True)
    def one(it):
        name, m = it
        key = hashlib.sha256((rh + " ".join(BCFLAGS + m["defs"] + m["flags"]) + m["src"]).encode()).hexdigest()[:24]
        out = os.path.join(cache, "%s-%s.bc" % (os.path.basename(m["src"]).split(".")[0], key))
        t = time.time()
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            r = sh(["clang++"] + BCFLAGS + m["flags"] + m["defs"] + INC + [m["src"], "-o", tmp])
            if r.returncode: return name, None, r.stdout
            os.replace(tmp, out)
        return name, out, time.time() - t
    bcs = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for name, out, info in ex.map(one, c.modules.items()):
            if out is None:
                print("harness %s does not compile against the current tree:\n%s" % (name, info[:1200]))
                if not c.modules[name]["api"] or " error: " not in info or REPO + "/include" not in info: sys.exit(2)
                d = os.path.join(V, "evidence", "replay", "%s-compile" % c.pid); os.makedirs(d, exist_ok=True)
                path = os.path.join(d, "compile.log"); open(path, "w").write(info)
                print("VIOLATION property=%s replay=%s\n  documented calls are rejected by the compiler" % (c.pid, path)); sys.exit(1)
            bcs[name] = out
    return bcs

def replay_build(c, mod, kind):
    m = c.modules[mod]; d = os.path.join(BUILD, "replay"); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "%s-%s-%s" % (c.pid, mod, kind))
    base = ["clang++", "-std=c++17", "-g", "-w", "-O1"] + DEF + m["flags"] + m["defs"] + INC
    if kind == "asan": base += ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function,alignment,float-divide-by-zero", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
    r = sh(base + [m["src"], os.path.join(BUILD, "native.o"), "-o", exe, "-rdynamic", "-ldl"])
    if r.returncode: print("replay build failed:\n" + r.stdout[:3000]); return None
    return exe

def reproduce(c, v, task, dirn):
    """run the counterexample on the natively compiled real code; returns (reproduced, text)"""
    model = os.path.join(dirn, "model.hex"); open(model, "w").write(v["model"] + "\n")
    args = [task["entry"], model, str(len(task["args"]))] + list(map(str, task["args"]))
    text = ""; env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1")
    exe = replay_build(c, task["mod"], "asan")
    if exe:
        try:
            r = sh([exe] + args, timeout=60, env=env); text = r.stdout[-4000:]
            if r.returncode not in (0, 77): return True, "asan/ubsan build: exit %d\n%s" % (r.returncode, text)
        except subprocess.TimeoutExpired:
            if "step limit" in v["msg"] or "deeper" in v["msg"]: return True, "native run does not terminate within 60 s"
    exe = replay_build(c, task["mod"], "plain")
    if exe:
        try:
            r = sh(["valgrind", "-q", "--error-exitcode=99", exe] + args, timeout=200); text += r.stdout[-3000:]
            if r.returncode not in (0, 77): return True, "valgrind: exit %d\n%s" % (r.returncode, r.stdout[-3000:])
        except subprocess.TimeoutExpired:
            if "step limit" in v["msg"]: return True, "native run does not terminate"
    return False, text

def validate_samples(c, bcs, res):
    """run sampled paths' models natively (same bitcode) and compare the observation hash"""
    per = {}
    for s in res["samples"]:
        t = c.tasks[s["task"]]; per.setdefault(t["mod"], []).append((t, s))
    d = os.path.join(BUILD, "val"); os.makedirs(d, exist_ok=True); limit = 40
    def one(it):
        mod, lst = it
        lst = lst[::max(1, len(lst) // limit)][:limit]
        exe = os.path.join(d, "%s-%s" % (c.pid, mod))
        r = sh(["clang++", "-O0", "-w", bcs[mod], os.path.join(BUILD, "native.o"), "-o", exe, "-rdynamic", "-ldl"])
        if r.returncode: return mod, 0, ["link: " + r.stdout[:500]]
        bf = exe + ".batch"
        with open(bf, "w") as f:
            for t, s in lst: f.write("%s %d %s %s\n" % (t["entry"], len(t["args"]), " ".join(map(str, t["args"])), s["model"] or "-"))
        r = sh([exe, "--batch", bf], timeout=600)
        out = [l for l in r.stdout.splitlines() if l.strip()]
        bad = []
        if len(out) != len(lst): bad.append("got %d results for %d samples: %s" % (len(out), len(lst), r.stdout[-300:]))
        ok = 0
        for (t, s), l in zip(lst, out):
            if l == "OBS %d %d" % (s["obs"], s["nobs"]): ok += 1
            else: bad.append("%s model %s: native '%s' vs symbolic OBS %d %d" % (t["name"], s["model"][:64], l[:200], s["obs"], s["nobs"]))
        os.unlink(exe); return mod, ok, bad
    ok = 0; bad = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for mod, k, b in ex.map(one, per.items()): ok += k; bad += b
    return ok, bad

def known_findings():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def run(c):
    t0 = time.time(); build_engine(); rh = repo_hash(); bcs = compile_all(c, rh); tcomp = time.time() - t0
    tf = os.path.join(BUILD, "%s.tasks" % c.pid); rf = os.path.join(BUILD, "%s.json" % c.pid)
    mods = list(bcs)
    with open(tf, "w") as f:
        for m in mods: f.write("M %s\n" % bcs[m])
        for t in c.tasks: f.write("T %d %s %d %d %s %d %s\n" % (mods.index(t["mod"]), t["entry"], t["steps"], t["gates"], t["name"].replace(" ", "_"), len(t["args"]), " ".join(map(str, t["args"]))))
    known = [k for k in known_findings() if k.get("property") == c.pid and k.get("status") == "known"]
    cmd = [os.path.join(BUILD, "symx"), "--tasks", tf, "--out", rf, "--jobs", str(JOBS), "--deadline", str(int(c.deadline))]
    if known or c.keep_going or os.environ.get("VERIF_SHOW"): cmd.append("--keep-going")
    if os.environ.get("VERIF_COV"): cmd.append("--cov")
    r = sh(cmd, timeout=c.deadline + 200)
    if r.returncode: print("symx failed (%d)\n%s" % (r.returncode, r.stdout[-2000:])); sys.exit(2)
    res = json.load(open(rf)); T = res["tasks"]
    rc = 0; errs = [(t["name"], t["error"]) for t in T if t["error"]]
    # ---- violations
    evdir = os.path.join(V, "evidence"); os.makedirs(evdir, exist_ok=True); nviol = 0; unrep = []
    rdir = os.path.join(evdir, "replay"); os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(c.pid + "-"): shutil.rmtree(os.path.join(rdir, old), ignore_errors=True)
    reported = 0; seen_known = set(); sites = set(); allv = [(c.tasks[v["task"]], v) for v in res["violations"]]
    if c.post:          # bounds over whole tasks: decided from what the engine summed over all paths
        class Report:
            def violation(self, mod, entry, args, name, msg): allv.append((dict(mod=mod, entry=entry, args=args, name=name), dict(msg=msg, model="")))
            def error(self, msg): errs.append(("post", msg))
        c.post(res, Report())
    for i, (task, v) in enumerate(allv):
        kf = [k for k in known if k["task"] == task["name"] and k["contains"] in v["msg"]]
        if kf:
            if kf[0]["what"] not in seen_known: print("KNOWN-FINDING: property=%s %s" % (c.pid, kf[0]["what"])); seen_known.add(kf[0]["what"])
            continue
        site = (v["msg"].split("\n")[0], task["mod"])
        if site in sites or reported + len(unrep) >= int(os.environ.get("VERIF_SHOW", "3")): nviol += 1; continue
        sites.add(site)
        dirn = os.path.join(rdir, "%s-%d" % (c.pid, i)); os.makedirs(dirn, exist_ok=True)
        ok, text = reproduce(c, v, task, dirn)
        info = dict(property=c.pid, task=task, message=v["msg"], model=v["model"], reproduced=ok, native=text)
        path = os.path.join(dirn, "replay.json"); json.dump(info, open(path, "w"), indent=1)
        if ok:
            nviol += 1; reported += 1; rc = 1
            print("VIOLATION property=%s replay=%s" % (c.pid, path)); print("  %s: %s" % (task["name"], v["msg"])); print("  " + text.strip().replace("\n", "\n  ")[:700])
        else: unrep.append((task["name"], v["msg"], path))
    for u in unrep: print("UNREPRODUCED counterexample (not reported as a violation): %s: %s (%s)" % u)
    # ---- validation, vacuity
    nval, bad = (0, [])
    if rc == 0: nval, bad = validate_samples(c, bcs, res)
    for b in bad[:10]: print("TRACE MISMATCH " + b)
    vac = [t["name"] for t in T if t["complete"] and t["asserted_paths"] == 0]
    for n in vac[:10]: print("VACUOUS task %s: no path reaches an assertion" % n)
    for n, e in errs[:10]: print("ENGINE LIMIT in %s: %s" % (n, e))
    S = lambda k: sum(t[k] for t in T); inc = [t["name"] for t in T if not t["complete"]]
    wall = time.time() - t0
    cov = dict(states=S("paths"), transitions=S("events"), traces_validated_against_impl=nval,
        samples=[dict(task=c.tasks[s["task"]]["name"], model=s["model"][:200], observation=str(s["obs"])) for s in res["samples"][:: max(1, len(res["samples"]) // 12)][:12]],
        tasks=len(T), tasks_complete=len(T) - len(inc), incomplete_tasks=inc[:200], paths_with_assertion=S("asserted_paths"), paths_outside_assumptions=S("assumed"),
        assertions_discharged=S("asserts"), queries=S("queries"), unsat_queries=S("infeasible"), unknown_queries=S("unknown"), z3_cross_checked_queries=S("xchk"),
        solver_seconds=round(S("tsolve"), 2), instructions=S("steps"), compile_seconds=round(tcomp, 1), symbolic_execution_seconds=round(res["wall"], 1),
        functions_encoded_count=len(res["functions"]), functions_encoded=short_names(res["functions"]), bounds=c.bounds, exhaustive=not inc, modules=len(mods), notes=c.notes,
        explanation="states = completed symbolic paths (each covers every input satisfying its path condition); transitions = symbolic decisions taken on them, each decided by the solver")
    ev = dict(property=c.pid, tier=c.tier, seed=c.seed, level="model_checking", coverage=cov, assumptions=c.assumptions, wall_s=round(wall, 2), violations=nviol)
    json.dump(ev, open(os.path.join(evdir, c.pid + ".json"), "w"), indent=1)
    print("%s %s: %d/%d tasks complete, %d paths, %d assertions, %d queries, %d traces validated, %d functions, %.1f s" % (c.pid, c.tier, len(T) - len(inc), len(T), cov["states"], cov["assertions_discharged"], cov["queries"], nval, cov["functions_encoded_count"], wall))
    if rc == 0 and (unrep or bad or vac or errs): rc = 2
    return rc
