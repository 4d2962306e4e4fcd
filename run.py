#!/usr/bin/env python3
"""Solver-based checks of argtable3: drives the symbolic executor (engine/vsym) over /repo's current source.

  run.py setup                       build the executor
  run.py check ID [--tier quick|thorough] [--only RUN]
  run.py replay FILE                 re-run a reported counterexample against the real code
  run.py list
"""
import concurrent.futures as cf
import glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VSYM = os.path.join(HERE, "engine", "build", "vsym")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))
LIBSTD = ["-std=gnu89", "-D_XOPEN_SOURCE=700"]  # as in the repository's own build
IRFLAGS = ["-w", "-O0", "-fno-builtin", "-Xclang", "-disable-O0-optnone", "-g", "-D__NO_CTYPE", "-emit-llvm", "-c"]
REDIRECT = ["-D%s=vsn_%s" % (f, f) for f in ("malloc", "calloc", "realloc", "free", "exit", "abort")]


class Broken(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    return p.stdout


def setup():
    sh(["make", "-s", "-C", os.path.join(HERE, "engine")])


def lib_sources():
    src = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
    if not src:
        raise Broken("no sources in %s/src" % REPO)
    return src


class Builder:
    """Compiles /repo's current sources, once per set of library defines, in a scratch directory."""

    def __init__(self, scratch):
        self.scratch, self.cache, self.inc = scratch, {}, ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(HERE, "harness")]

    def _many(self, cmds):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(sh, cmds))

    def lib_bc(self, libdefs):
        key = ("bc",) + tuple(libdefs)
        if key not in self.cache:
            d = tempfile.mkdtemp(dir=self.scratch)
            cmds, outs = [], []
            for f in lib_sources():
                o = os.path.join(d, os.path.basename(f) + ".bc")
                outs.append(o)
                cmds.append(["clang"] + LIBSTD + IRFLAGS + ["-Dexit=vsn_exit", "-Dabort=vsn_abort"] + ["-D" + x for x in libdefs] + [f, "-o", o])
            o = os.path.join(d, "libc_model.bc")
            cmds.append(["clang", "-std=gnu99"] + IRFLAGS + self.inc + [os.path.join(HERE, "models", "libc.c"), "-o", o])
            self._many(cmds)
            self.cache[key] = outs + [o]
        return self.cache[key]

    def module(self, run):
        d = tempfile.mkdtemp(dir=self.scratch)
        h = os.path.join(d, "harness.bc")
        sh(["clang", "-std=gnu99"] + IRFLAGS + self.inc + ["-D" + x for x in run.get("lib", [])] + ["-D" + x for x in run.get("D", [])]
           + [os.path.join(HERE, "harness", run["h"]), "-o", h])
        a, m = os.path.join(d, "all.bc"), os.path.join(d, "m.bc")
        sh(["llvm-link", h] + self.lib_bc(run.get("lib", [])) + ["-o", a])
        sh(["opt", "-passes=sroa,mem2reg", a, "-o", m])
        return m

    def native(self, run, san):
        key = (san, run["h"], tuple(run.get("lib", [])), tuple(run.get("D", [])))
        if key in self.cache:
            return self.cache[key]
        flags = {"asan": ["-fsanitize=address,undefined", "-fno-sanitize=alignment,pointer-overflow,function,nonnull-attribute,null", "-fno-sanitize-recover=undefined"],
                 "msan": ["-fsanitize=memory"]}[san]
        cc = ["clang", "-O1", "-g", "-w", "-fno-omit-frame-pointer", "-fno-builtin"] + flags
        lk = (san, "lib", tuple(run.get("lib", [])))
        if lk not in self.cache:
            d = tempfile.mkdtemp(dir=self.scratch)
            cmds, outs = [], []
            for f in lib_sources():
                o = os.path.join(d, os.path.basename(f) + ".o")
                outs.append(o)
                cmds.append(cc + LIBSTD + REDIRECT + ["-D" + x for x in run.get("lib", [])] + ["-c", f, "-o", o])
            self._many(cmds)
            self.cache[lk] = outs
        d = tempfile.mkdtemp(dir=self.scratch)
        exe = os.path.join(d, "replay")
        h = os.path.join(d, "h.o")
        sh(cc + ["-std=gnu99"] + REDIRECT + self.inc + ["-D" + x for x in run.get("lib", [])] + ["-D" + x for x in run.get("D", [])]
           + ["-c", os.path.join(HERE, "harness", run["h"]), "-o", h])
        sh(cc + ["-std=gnu99"] + self.inc + [h, os.path.join(HERE, "harness", "native.c")] + self.cache[lk] + ["-lm", "-o", exe])
        self.cache[key] = exe
        return exe


def native_run(exe, inputs, scratch, timeout):
    fd, f = tempfile.mkstemp(dir=scratch)
    with os.fdopen(fd, "w") as h:
        for name, hx in inputs:
            h.write("%s %s\n" % (name, hx))
    o = f + ".out"
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=1:exitcode=77", MSAN_OPTIONS="exitcode=78")
    env.pop("POSIXLY_CORRECT", None)
    try:
        p = subprocess.run([exe, f, o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env,
                           text=True, errors="replace", cwd=scratch, stdin=subprocess.DEVNULL)
        rc, txt = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, txt = "timeout", ""
    outs = []
    if os.path.exists(o):
        with open(o, errors="replace") as h:
            outs = [l.rstrip("\n") for l in h]
        os.unlink(o)
    os.unlink(f)
    return rc, txt, outs


REPRODUCED = lambda rc: rc not in (0, 43, 44)


def replay_one(b, run, v, scratch):
    """Run one counterexample against the real code. -> (reproduced, description)"""
    rc, txt, outs = native_run(b.native(run, "asan"), v["inputs"], scratch, 20)
    if not REPRODUCED(rc) and v["kind"] == "uninit":
        rc, txt, outs = native_run(b.native(run, "msan"), v["inputs"], scratch, 20)
    why = {"timeout": "did not terminate within 20 s", 42: "harness assertion failed", 45: "exit() called", 46: "abort() called", 77: "AddressSanitizer/UBSan report", 78: "MemorySanitizer report"}.get(rc, "ended with status %s" % rc)
    return REPRODUCED(rc), why, txt[-4000:]


def fmt_out(o):
    out = []
    for label, val in o:
        if isinstance(val, str):
            out.append("%s=%s" % (label, "".join("%02x" % ord(c) for c in val)))
        else:
            out.append("%s=%d" % (label, val))
    return out


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def known_match(pid, run, v):
    for k in load_known():
        if k.get("status") == "known" and k["property"] == pid and k["run"] == run["name"] and k["kind"] == v["kind"] and k["msg"] == v["msg"] and k["function"] == v["site"].split(":")[0]:
            if "inputs" in k and not re.search(k["inputs"], json.dumps(v["inputs"])):
                continue
            return k
    return None


def one_run(pid, run, b, scratch, tier):
    t0 = time.time()
    m = b.module(run)
    od = tempfile.mkdtemp(dir=scratch)
    cmd = [VSYM, m, od, "lib=" + os.path.join(REPO, "src"), "jobs=%d" % JOBS, "viol=%d" % run.get("viol", 4), "samples=%d" % run.get("samples", 120),
           "time=%d" % run.get("time", 500 if tier == "quick" else 3000), "limit=%d" % run.get("limit", 2000000)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    rj = os.path.join(od, "result.json")
    if p.returncode not in (0, 1, 2) or not os.path.exists(rj):
        raise Broken("executor failed (%s) on run %s: %s" % (p.returncode, run["name"], p.stdout[-2000:]))
    r = json.load(open(rj))
    r["name"], r["D"], r["lib"] = run["name"], run.get("D", []), run.get("lib", [])
    viols = [json.load(open(f)) for f in sorted(glob.glob(os.path.join(od, "viol.*.json")))]
    confirmed, unconfirmed, known = [], [], []
    for v in viols:
        ok, why, txt = replay_one(b, run, v, scratch)
        v.update(native=why, native_output=txt)
        if not ok:
            unconfirmed.append(v)
            continue
        k = known_match(pid, run, v)
        (known if k else confirmed).append((v, k) if k else v)
    # validation: sampled completed paths, executed by the real code, must show the same observations
    r["validated"], mismatches, r["sample_inputs"] = 0, [], []
    files = sorted(glob.glob(os.path.join(od, "path.*.json")))
    if files and not run.get("novalidate"):
        exe = b.native(run, "asan")

        def val(f):
            s = json.load(open(f))
            rc, txt, outs = native_run(exe, s["inputs"], scratch, 30)
            return s, rc, txt, outs
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for s, rc, txt, outs in ex.map(val, files):
                if len(r["sample_inputs"]) < 3:
                    r["sample_inputs"].append(s)
                if REPRODUCED(rc):
                    confirmed.append(dict(kind="native", msg="a path the executor completed fails when run natively", site="native", where="", inputs=s["inputs"], native="status %s" % rc, native_output=txt[-3000:]))
                elif rc != 0 or outs != fmt_out(s["outs"]):
                    mismatches.append((s["inputs"], rc, fmt_out(s["outs"]), outs))
                else:
                    r["validated"] += 1
    r["elapsed"] = time.time() - t0
    problems = []
    if unconfirmed:
        problems.append("counterexample not reproduced natively: %s" % json.dumps(unconfirmed[0])[:1500])
    if mismatches:
        problems.append("executor and native run disagree: inputs=%s status=%s executor=%s native=%s" % mismatches[0])
    if r["unsupported"]:
        problems.append("unsupported: " + r["unsup"])
    if r["unknown"]:
        problems.append("%d solver queries undecided" % r["unknown"])
    if r["crashed"]:
        problems.append("%d worker processes died" % r["crashed"])
    if r["stop"] == 2:
        problems.append("time limit reached before the exploration was complete")
    if not confirmed and not known:
        missing = [l for l, ok in r["reach"].items() if not ok and l not in run.get("noreach", [])]
        if missing and r["complete"]:
            problems.append("vacuity: never reached: " + ", ".join(missing))
        if r["paths"] == 0:
            problems.append("vacuity: no path completed")
    return r, confirmed, known, problems


def check(pid, tier, only=None):
    from checks import CHECKS
    c = CHECKS[pid]
    t0 = time.time()
    setup()
    runs = c["quick"] if tier == "quick" else c.get("thorough", c["quick"])
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    os.makedirs(EVID, exist_ok=True)
    results, confirmed, known, problems = [], [], [], []
    try:
        b = Builder(scratch)
        for run in runs:
            if only and run["name"] != only:
                continue
            r, cf_, kn, pr = one_run(pid, run, b, scratch, tier)
            results.append(r)
            known += [(run, v, k) for v, k in kn]
            confirmed += [(run, v) for v in cf_]
            problems += ["run %s: %s" % (run["name"], x) for x in pr]
            print("[%s] %s: %d paths, %d branches, %d solver queries (%d to z3, %.1f s), %d/%d sampled paths replayed natively with equal observations, %.1f s%s" % (
                pid, run["name"], r["paths"], r["branches"], r["queries"], r["z3calls"], r["z3_s"], r["validated"], r["validated"] + len([0]) - 1 if False else r["validated"], r["elapsed"], "" if r["complete"] else " (stopped early)"))
            sys.stdout.flush()
            if cf_:
                break
    except Broken as e:
        problems.append(str(e))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    fns = {}
    for r in results:
        for k, (a, n) in r["functions"].items():
            fns[k] = [max(a, fns.get(k, [0, n])[0]), n]
    tot = lambda k: sum(r[k] for r in results)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("assumed") + tot("failed"), "transitions": tot("branches"),
            "traces_validated_against_impl": tot("validated"),
            "samples": [{"run": r["name"], "inputs": s["inputs"], "observations": s["outs"]} for r in results for s in r["sample_inputs"]][:8],
            "explanation": "states = symbolic paths explored to their end; transitions = branches executed; every feasible path within the bounds was enumerated by the solver and all assertions and memory/arithmetic checks on it decided",
            "exhaustive": bool(results) and all(r["complete"] for r in results) and not problems,
            "bounds": c["bounds"],
            "functions_encoded": {k: "%d/%d instructions executed" % (a, n) for k, (a, n) in sorted(fns.items())},
            "queries_discharged": tot("queries"), "queries_sent_to_z3": tot("z3calls"), "z3_sat": tot("z3sat"), "z3_unsat": tot("z3unsat"), "solver_time_s": round(tot("z3_s"), 2),
            "assertions_evaluated": tot("asserts"), "assertions_decided_by_solver": tot("symbolic_asserts"), "memory_accesses_checked": tot("memchecks"), "instructions": tot("insts"),
            "witnesses": {r["name"]: r["reach"] for r in results},
            "runs": [{k: r[k] for k in ("name", "D", "lib", "paths", "assumed", "failed", "branches", "queries", "z3calls", "z3_s", "max_constraints", "max_insts", "complete", "validated")} for r in results],
        },
        "assumptions": COMMON + c.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for run, v, k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if confirmed:
        run, v = confirmed[0]
        rp = os.path.join(EVID, "%s.replay.json" % pid)
        with open(rp, "w") as f:
            json.dump({"property": pid, "run": {k: run[k] for k in ("name", "h", "D", "lib") if k in run}, "counterexample": v, "others": [x for _, x in confirmed[1:6]]}, f, indent=1)
        print("counterexample: %s: %s at %s\n  call stack: %s\n  inputs: %s\n  native replay: %s" % (v["kind"], v["msg"], v["site"], v["where"], v["inputs"], v["native"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if problems:
        for p in problems:
            print("INCONCLUSIVE property=%s %s" % (pid, p))
        return 2
    print("OK property=%s tier=%s %.1f s" % (pid, tier, wall))
    return 0


COMMON = [
    "the sources in /repo/src are compiled by clang 18 at -O0 (as GNU C89 with the repository's defines); only SSA construction (sroa, mem2reg) is applied to the IR",
    "libc is replaced by the C-locale models in models/libc.c; sampled paths are re-run natively against glibc and must show the same observations",
    "x86-64 Linux data model; pointer alignment is not checked; distinct allocations never share or reuse addresses; allocations above 64 MiB fail",
    "bounded: nothing is claimed for inputs, tables or histories larger than the stated bounds",
]


def replay(path):
    d = json.load(open(path))
    run, v = d["run"], d["counterexample"]
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        ok, why, txt = replay_one(Builder(scratch), run, v, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(txt)
    print("%s: %s" % ("REPRODUCED" if ok else "not reproduced", why))
    return 1 if ok else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        setup()
        return 0
    if a[:1] == ["list"]:
        from checks import CHECKS
        for k, c in CHECKS.items():
            print(k, [r["name"] for r in c["quick"]], [r["name"] for r in c.get("thorough", [])])
        return 0
    if a[:1] == ["replay"]:
        return replay(a[1])
    if a[:1] == ["adhoc"]:  # adhoc HARNESS [DEF=VAL ...] [lib:DEF ...] [opt:key=int ...]: one run outside the registered checks
        import checks
        run = dict(name="adhoc", h=a[1], D=[x for x in a[2:] if x[:4] not in ("lib:", "opt:")], lib=[x[4:] for x in a[2:] if x.startswith("lib:")])
        run.update({x[4:].split("=")[0]: int(x.split("=")[1]) for x in a[2:] if x.startswith("opt:")})
        checks.CHECKS["adhoc"] = dict(bounds="", quick=[run])
        return check("adhoc", "quick")
    if a[:1] == ["check"]:
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        only = a[a.index("--only") + 1] if "--only" in a else None
        return check(a[1], tier, only)
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("ERROR", e)
        sys.exit(2)
