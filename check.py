#!/usr/bin/env python3
"""Decide one property: check.py <ID> quick|thorough [--job NAME] [--keep]

Compiles /repo/src (current working tree) and the harness to LLVM IR, executes the
entry points symbolically with build/symx (Z3 decides every branch and assertion),
replays counterexamples and sample paths on the natively compiled code and writes
evidence/<ID>.json.  Exit 0: held, 1: VIOLATION, 2: no answer."""
import sys, os, json, subprocess, tempfile, shutil, glob, threading, time, re, signal
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "harness"))
from specs import PROPS, VARIANTS
MODELS = ["libc", "softfp", "sched", "fs", "mpi"]
NATIVE_MODELS = ["softfp", "sched", "fs", "mpi"]

class Fail(Exception): pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise Fail("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout

def par(fns, n=8):
    """run callables in parallel, re-raise the first exception"""
    errs, it, lock = [], iter(fns), threading.Lock()
    def work():
        while True:
            with lock:
                f = next(it, None)
            if f is None or errs: return
            try: f()
            except BaseException as e: errs.append(e)
    ts = [threading.Thread(target=work) for _ in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs: raise errs[0]

def ensure_engine():
    symx = os.path.join(V, "build", "symx")
    src = glob.glob(os.path.join(V, "engine", "*"))
    if not os.path.exists(symx) or any(os.path.getmtime(s) > os.path.getmtime(symx) for s in src if s.endswith((".cpp", ".h"))):
        run(["make", "-s", "-C", os.path.join(V, "engine")])
    return symx

def repo_sources(printer):
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "src", "*.c"))):
        b = os.path.basename(f)
        if b == "tv_data_display.c": continue           # TotalView only, not built
        if b == "kvtree_print.c" and not printer: continue
        out.append(f)
    return out

class Build:
    def __init__(self, tmp, variant, harness, printer, defines=()):
        self.tmp, self.variant, self.harness, self.printer = tmp, variant, harness, printer
        self.dir = os.path.join(tmp, "b_" + variant + "_" + harness)
        self.ndir = self.dir + "_native"
        self.lock = threading.Lock(); self.native_done = set(); self.defines = list(defines)
        os.makedirs(self.dir); os.makedirs(self.ndir)
        with open(os.path.join(self.dir, "config.h"), "w") as f: f.write(VARIANTS[variant])
    def incs(self):
        return ["-DKVTREE_VERIF_SEGSIZE=({ extern unsigned long vm_segsize; vm_segsize; })", "-I" + self.dir, "-I" + os.path.join(V, "models", "include"), "-I" + os.path.join(V, "models"), "-I" + os.path.join(V, "harness"), "-I" + os.path.join(REPO, "src")]
    def bitcode(self):
        cc = ["clang-18", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-c", "-emit-llvm", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-builtin", "-ffreestanding", "-fno-pic"]
        objs, jobs = [], []
        def one(src, extra):
            o = os.path.join(self.dir, os.path.basename(src)[:-2] + ".bc")
            objs.append(o)
            jobs.append(lambda: (run(cc + extra + self.incs() + [src, "-o", o + ".0"]), run(["opt-18", "-passes=mem2reg", o + ".0", "-o", o])))
        for s in repo_sources(self.printer): one(s, ["-Dmain=kvtree_print_main"] if s.endswith("kvtree_print.c") else [])
        for m in MODELS: one(os.path.join(V, "models", m + ".c"), [])
        one(os.path.join(V, "harness", self.harness + ".c"), self.defines)
        par(jobs)
        self.bc = os.path.join(self.dir, "all.bc")
        run(["llvm-link-18"] + sorted(objs) + ["-o", self.bc])
    def native(self, entry, init="pattern"):
        """AddressSanitizer build for replay; returns the executable"""
        exe = os.path.join(self.ndir, entry + "_" + init)
        with self.lock:
            if exe in self.native_done: return exe
            base = os.path.join(self.ndir, init)
            cc = ["gcc", "-O1", "-g", "-w", "-fno-builtin", "-fno-omit-frame-pointer", "-fsanitize=address", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"]
            if init == "valgrind": cc = [x for x in cc if not x.startswith(("-fsanitize", "-O1"))] + ["-O0", "-DNO_ASAN"]
            elif init != "none": cc += ["-ftrivial-auto-var-init=" + init]
            if not os.path.isdir(base):
                os.makedirs(base)
                names = open(os.path.join(V, "models", "syms.txt")).read().split()
                with open(os.path.join(base, "redef"), "w") as f:
                    for n in names: f.write("%s vm_%s\n" % (n, n))
                jobs = []; self.nobjs = getattr(self, "nobjs", {}); objs = self.nobjs[init] = []
                def one(src, extra, redef=True):
                    o = os.path.join(base, os.path.basename(src)[:-2] + ".o"); objs.append(o)
                    def f():
                        run(cc + extra + self.incs() + ["-c", src, "-o", o])
                        if redef: run(["objcopy", "--redefine-syms=" + os.path.join(base, "redef"), o])
                    jobs.append(f)
                for s in repo_sources(self.printer): one(s, ["-Dmain=kvtree_print_main"] if s.endswith("kvtree_print.c") else [])
                for m in NATIVE_MODELS: one(os.path.join(V, "models", m + ".c"), [])
                one(os.path.join(V, "harness", self.harness + ".c"), self.defines)
                par(jobs)
            rt = os.path.join(base, "rt_" + entry + ".o")
            run(cc + self.incs() + ["-DSX_ENTRY=" + entry, "-c", os.path.join(V, "models", "rt.c"), "-o", rt])
            run(cc + sorted(self.nobjs[init]) + [rt, "-o", exe, "-lz"])
            self.native_done.add(exe)
        return exe

def replay(exe, case, tmp, fill=None, timeout=20):
    """run a recorded case natively: (verdict, text); verdict in violation/ok/diverged/hang"""
    fd, p = tempfile.mkstemp(dir=tmp)
    with os.fdopen(fd, "w") as f:
        f.write("%d\n" % len(case["params"]) + "\n".join(str(x) for x in case["params"]) + "\n")
        f.write("\n".join(str(int(x) & (2**64 - 1)) for x in case["values"]) + "\n")
    env = {"PATH": os.environ.get("PATH", ""), "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:exitcode=99:abort_on_error=0:max_allocation_size_mb=8192:allocator_release_to_os_interval_ms=-1"}
    if case.get("reuse"): env["VM_REUSE"] = "1"
    vg = exe.endswith("_valgrind")
    try:
        q = subprocess.run((["valgrind", "-q", "--error-exitcode=98", "--main-stacksize=8388608"] if vg else []) + [exe, p] + ([str(fill)] if fill is not None else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=tmp)
        out, rc = q.stdout.decode("latin-1"), q.returncode
    except subprocess.TimeoutExpired as e:
        return "hang", "no termination within %d s" % timeout
    finally:
        os.unlink(p)
    if vg: return ("violation" if "uninitialised value" in out else "diverged"), out
    if "REPLAY-VIOLATION" in out: return "violation", out
    if rc == 99 or rc < 0 or "ERROR: AddressSanitizer" in out: return "violation", out
    if rc == 0 and "REPLAY-OK" in out: return "ok", out
    return "diverged", out + "\n(exit %d)" % rc

class Job:
    def __init__(self, prop, spec, idx):
        self.prop, self.spec, self.idx = prop, spec, idx
        self.name = spec["entry"] + "".join("_%s" % p for p in spec.get("params", [])) + ("" if spec.get("variant", "flock") == "flock" else "@" + spec["variant"]) + ("+reuse" if spec.get("reuse") else "") + ("+fd0" if spec.get("fd0") else "")

PROCS = set()
def cleanup_on(sig, frame):
    for p in list(PROCS):
        try: os.killpg(p, signal.SIGKILL)
        except OSError: pass
    if TMP: shutil.rmtree(TMP[0], ignore_errors=True)
    os._exit(2)
TMP = []

def main():
    signal.signal(signal.SIGTERM, cleanup_on); signal.signal(signal.SIGINT, cleanup_on)
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    if len(args) < 2: print(__doc__); return 2
    pid, tier = args[0], args[1]
    only = None; keep = "--keep" in sys.argv; verbose = "-v" in sys.argv or "--verbose" in sys.argv
    for a in sys.argv[1:]:
        if a.startswith("--job="): only = a[6:]
    if len(args) > 2 and only is None: only = args[2]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    known = []
    kf = os.path.join(V, "known_findings.json")
    if os.path.exists(kf): known = [k for k in json.load(open(kf)) if k.get("property") == pid and k.get("status") == "open"]
    symx = ensure_engine()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid); TMP.append(tmp)
    try:
        return check(pid, tier, only, P, known, symx, tmp, seed, t0, verbose)
    finally:
        if keep: print("kept", tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)

def check(pid, tier, only, P, known, symx, tmp, seed, t0, verbose):
    jobs = []
    for i, s in enumerate(P["jobs"]):
        if tier not in s.get("tiers", ("quick", "thorough")): continue
        j = Job(pid, s, i)
        if only and only not in j.name: continue
        jobs.append(j)
    if not jobs: print("ERROR: no job selected"); return 2
    total_budget = float(os.environ.get("VERIF_BUDGET", P.get("budget", {}).get(tier, 600 if tier == "quick" else 3600)))
    deadline = t0 + total_budget
    builds = {}
    for j in jobs:
        k = (j.spec.get("variant", "flock"), j.spec.get("harness", pid))
        if k not in builds: builds[k] = Build(tmp, k[0], k[1], j.spec.get("printer", P.get("printer", False)))
        j.build = builds[k]
    try:
        par([b.bitcode for b in builds.values()], 2)
    except Fail as e:
        print("ERROR: %s: cannot build the code under test\n%s" % (pid, e)); return 2
    cores = os.cpu_count() or 8
    slots = [min(8, cores)]; cv = threading.Condition()
    errors, viols, knowns = [], [], []
    stop = threading.Event()
    def one(j):
        s = j.spec
        want = min(s.get("cores", 2), min(8, cores))
        with cv:
            while slots[0] < want: cv.wait()
            slots[0] -= want
        try:
            if stop.is_set(): j.skipped = True; return
            j.out = os.path.join(tmp, "job%d" % j.idx); os.makedirs(j.out)
            left = deadline - time.time()
            bud = min(s.get("budget", 1e9), left)
            if bud < 5: errors.append("%s: no time left" % j.name); return
            cmd = [symx, "--bc", j.build.bc, "--entry", s["entry"], "--out", j.out, "--jobs", str(want), "--repo", REPO + "/", "--max-viol", str(s.get("max_viol", 1)),
                   "--max-steps", str(s.get("max_steps", 200000000)), "--budget", str(bud), "--rlimit", str(s.get("rlimit", 60000000)), "--samples", str(s.get("samples", 6 if tier == "quick" else 12))]
            if s.get("reuse"): cmd.append("--reuse")
            ps = s.get("params", [])
            if s.get("fd0"): ps = ps + [0] * (15 - len(ps)) + [1]
            for p in ps: cmd += ["--param", str(p)]
            if os.environ.get("VERIF_DUMP"): cmd += ["--dump-every", os.environ.get("VERIF_DUMP_EVERY", "50"), "--dump-dir", os.environ["VERIF_DUMP"]]
            pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
            PROCS.add(pr.pid)
            try: o, _ = pr.communicate(timeout=bud + 60)
            except subprocess.TimeoutExpired:
                os.killpg(pr.pid, signal.SIGKILL); o = "engine timeout"
            PROCS.discard(pr.pid)
            j.log = o
            try: j.sum = json.load(open(os.path.join(j.out, "summary.json")))
            except Exception: errors.append("%s: engine failed: %s" % (j.name, o[-1500:])); return
            if verbose: print("  [%s] paths=%d queries=%d sat=%d unsat=%d unknown=%d solver=%.1fs wall=%.1fs viol=%d steps=%d incomplete=%d %s" % (j.name, j.sum["paths"], j.sum["queries"], j.sum["sat"], j.sum["unsat"], j.sum["unknown"], j.sum["solver_s"], j.sum["wall_s"], j.sum["violations"], j.sum["max_path_steps"], j.sum["incomplete"], j.sum["incomplete_reasons"][:3]), j.sum["covers"], flush=True)
            if j.sum["crashed"]: errors.append("%s: %d engine processes died" % (j.name, j.sum["crashed"]))
            j.cases = []
            for f in sorted(glob.glob(os.path.join(j.out, "viol-*.json"))):
                c = json.load(open(f)); c["job"] = j.name; c["variant"] = s.get("variant", "flock"); c["harness"] = j.build.harness; c["reuse"] = s.get("reuse", False)
                confirm(j, c, tmp, tier, viols, knowns, known, errors)
            if viols: stop.set()
            j.validated = 0; j.samples = []
            if not viols and not stop.is_set():
                for f in sorted(glob.glob(os.path.join(j.out, "sample-*.json"))):
                    c = json.load(open(f)); c["reuse"] = s.get("reuse", False)
                    validate(j, c, tmp, viols, errors)
                if viols: stop.set()
        except Fail as e: errors.append("%s: %s" % (j.name, e))
        except Exception as e:
            import traceback; errors.append("%s: %s" % (j.name, traceback.format_exc()))
        finally:
            with cv: slots[0] += want; cv.notify_all()
    ts = [threading.Thread(target=one, args=(j,)) for j in jobs]
    [t.start() for t in ts]; [t.join() for t in ts]
    # vacuity and completeness
    truncated = []
    for j in jobs:
        if not hasattr(j, "sum"): continue
        for c in j.spec.get("covers", []):
            if not j.sum["covers"].get(c) and not viols: errors.append("%s: vacuous: '%s' was never reached" % (j.name, c))
        if j.sum["paths"] == 0 and not viols: errors.append("%s: vacuous: no path reached the end" % j.name)
        for r in j.sum["incomplete_reasons"]:
            if "time budget" in r: truncated.append("%s: %s" % (j.name, r))
            else: errors.append("%s: not decided: %s" % (j.name, r))
    for t in truncated: errors.append(t)
    ev = evidence(pid, tier, seed, P, jobs, viols, knowns, errors, truncated, time.time() - t0)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in sorted(set(knowns)): print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if viols:
        c = viols[0]
        rd = os.path.join(V, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s.json" % pid)
        json.dump(c, open(rp, "w"), indent=1)
        print("%s: %s" % (pid, c["message"])); print("  job %s, %s" % (c["job"], c.get("where", "")))
        print("  native replay: %s" % c["replay"].strip()[:600])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        for e in errors: print("ERROR: %s: %s" % (pid, e))
        return 2
    cov = ev["coverage"]
    print("%s %s: held. %d jobs, %d paths, %d solver queries (%d unsat), %.1f s solver, %d real traces, %.0f s" % (pid, tier, len(jobs), cov["states"], cov["queries"], cov["queries_unsat"], cov["solver_s"], cov["traces_validated_against_impl"], time.time() - t0))
    return 0

def confirm(j, c, tmp, tier, viols, knowns, known, errors):
    """replay a solver counterexample on the natively compiled code"""
    for k in known:
        if re.search(k["match"], c["message"] + " | " + c.get("where", "")) and (not k.get("job") or k["job"] in j.name):
            knowns.append(k["what"]); return
    tries = [("pattern", None)]
    if c.get("uninit") or True: tries += [("zero", 0), ("none", -1), ("pattern", 1), ("zero", 127)]
    last = ""
    for init, fill in tries:
        exe = j.build.native(j.spec["entry"], init)
        v, out = replay(exe, c, tmp, fill)
        last = v + ": " + out
        if v == "violation" or (v == "hang" and ("hang" in c["message"] or "deadlock" in c["message"])):
            c["replay"] = out[-3000:]; c["replay_cmd"] = "python3 /verif/check.py %s %s %s" % (j.prop, tier, j.name)
            viols.append(c); return
    if "uninitialised" in c["message"] and shutil.which("valgrind"):
        v, out = replay(j.build.native(j.spec["entry"], "valgrind"), c, tmp, -1, 120)
        last = v + ": " + out
        if v == "violation":
            c["replay"] = out[-3000:]; c["replay_cmd"] = "python3 /verif/check.py %s %s %s" % (j.prop, tier, j.name)
            viols.append(c); return
    errors.append("%s: counterexample not reproduced natively: %s at %s [%s] values=%s" % (j.name, c["message"], c.get("where", ""), last[-800:], str(c["values"])[:300]))

def validate(j, c, tmp, viols, errors):
    exe = j.build.native(j.spec["entry"])
    v, out = replay(exe, c, tmp)
    if v == "ok":
        obs = [tuple(l[4:].rsplit(" ", 1)) for l in out.split("\n") if l.startswith("OBS ")]
        exp = [(n, str(int(x) & (2**64 - 1))) for n, x in c.get("observed", [])]
        obs = [(a.replace(" ", "_"), b) for a, b in obs]; exp = [(a.replace(" ", "_"), b) for a, b in exp]
        if obs != exp: errors.append("%s: engine and real code observe different values: engine %s, real %s" % (j.name, exp[:8], obs[:8])); return
        j.validated += 1
        if len(j.samples) < 2: j.samples.append({"job": j.name, "inputs": dict(list(zip(c.get("names", []), c["values"]))[:24]), "observed": c.get("observed", [])[:12], "verdict": "held in the engine and natively"})
    elif v in ("violation", "hang"):
        c["message"] = "real code violates the property on a path the engine passed: " + out[-300:]; c["job"] = j.name; c["replay"] = out[-3000:]; c["where"] = ""
        viols.append(c)
    else: errors.append("%s: sample path does not replay: %s" % (j.name, out[-600:]))

def evidence(pid, tier, seed, P, jobs, viols, knowns, errors, truncated, wall):
    S = [j.sum for j in jobs if hasattr(j, "sum")]
    tot = lambda k: sum(s[k] for s in S)
    fns = sorted(set(f for s in S for f in s["functions"]))
    samples = [x for j in jobs for x in getattr(j, "samples", [])][:12]
    return {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2), "violations": len(viols),
      "assumptions": P.get("assumptions", []),
      "coverage": {
        "states": tot("paths"), "transitions": tot("forks") + tot("paths"), "traces_validated_against_impl": sum(getattr(j, "validated", 0) for j in jobs),
        "samples": samples, "exhaustive": not truncated and not errors and not viols,
        "explanation": "states = symbolic path classes run to the end (each stands for every input satisfying its path condition); transitions = branch decisions on symbolic data plus path ends; the solver decides every branch feasibility and every assertion",
        "functions_encoded": fns, "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"), "query_cache_hits": tot("cache_hits"),
        "solver_s": round(tot("solver_s"), 2), "instructions_executed": tot("instructions"), "assertions_evaluated": tot("checks"), "assertions_sent_to_solver": tot("checks_solver"), "infeasible_paths": tot("infeasible"),
        "bounds": [{"job": j.name, "bound": j.spec.get("bound", ""), "paths": j.sum["paths"], "unsat": j.sum["unsat"], "wall_s": j.sum["wall_s"], "covers": j.sum["covers"]} for j in jobs if hasattr(j, "sum")],
        "errors": errors[:10], "truncated": truncated, "known_findings": sorted(set(knowns)),
      }}

if __name__ == "__main__":
    try: sys.exit(main())
    except Fail as e: print("ERROR:", e); sys.exit(2)
