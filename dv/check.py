"""Driver of one property check.   python3-vt dv/check.py PROPERTY [quick|thorough]

1. compiles /repo's current sources to LLVM IR and generates + discharges the proof obligations of every function the
   property lists (one worker process per function);
2. builds the property's harness against /repo's current sources (ASan+UBSan) and runs it: the contracts as executable
   oracle, labelled bounded, also the concretiser for failed obligations;
3. writes evidence/<id>.json; prints VIOLATION lines; exit 0 / 1.
"""
import sys, os, time, json, subprocess, shutil, tempfile, importlib, glob, signal, hashlib
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF + "/dv", VERIF + "/specs", VERIF + "/props"]
sys.setrecursionlimit(20000)
REPO = os.environ.get("SATYR_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", VERIF)   # (used by tools/seedtest.sh only)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

G = {}


def work(i, patience=1):
    import z3
    import sym
    from engine import verify
    import trusted
    sym.PATIENCE = patience
    job = G["jobs"][i]
    t0 = time.time()
    try:
        r = verify(G["prog"], job.contracts, trusted.T, job.fn, job.opts, job.loops, job.spec)
    except RecursionError as e:
        r = {"fn": job.fn, "obs": [], "status": "limit", "error": "recursion"}
    except Exception as e:
        import traceback
        r = {"fn": job.fn, "obs": [], "status": "error", "error": repr(e), "tb": traceback.format_exc()}
    r["job"] = job.name
    r["wall"] = time.time() - t0
    r["obs"] = [{"name": o.name, "fn": o.fn, "line": o.line, "status": o.status, "time": round(o.time, 4),
                 "backend": o.backend, "detail": o.detail if o.status != "ok" else "",
                 "model": str(o.model)[:3000] if (o.status != "ok" and o.model is not None) else ""} for o in r["obs"]]
    return r


CC = ["gcc"]
SAN = ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment,pointer-overflow,float-cast-overflow,nonnull-attribute,vptr,shift",
       "-fno-omit-frame-pointer", "-w", "-D_GNU_SOURCE", "-std=gnu99"]
LIBS = ["-ldw", "-lelf", "-lglib-2.0", "-ljson-c", "-lrpm", "-lrpmio", "-lpopt", "-lstdc++", "-ldl", "-lbfd", "-lopcodes", "-lm"]


def generated():
    """the table generated from normalize_hash.gperf (ignored by git) follows its source"""
    src, dst = REPO + "/lib/normalize_hash.gperf", REPO + "/lib/normalize_hash.h"
    gp = shutil.which("gperf")
    if not gp or not os.path.exists(src):
        return
    r = subprocess.run([gp, os.path.basename(src)], capture_output=True, text=True, cwd=REPO + "/lib")
    strip = lambda t: [l for l in t.split("\n") if "Command-line:" not in l]
    old = open(dst).read() if os.path.exists(dst) else ""
    if r.returncode == 0 and strip(r.stdout) != strip(old):
        with open(dst, "w") as f:
            f.write(r.stdout)


def build_lib(dirn):
    """objects of /repo's current lib/*.c, instrumented; returns list or raises"""
    import irparse
    objs = []
    procs = []
    os.makedirs(dirn, exist_ok=True)
    for c in sorted(glob.glob(REPO + "/lib/*.c")):
        o = os.path.join(dirn, os.path.basename(c)[:-2] + ".o")
        procs.append((c, subprocess.Popen(CC + SAN + irparse.cflags() + ["-c", c, "-o", o], cwd=REPO + "/lib",
                                          stderr=subprocess.PIPE)))
        objs.append(o)
        while sum(p.poll() is None for _, p in procs) >= JOBS:
            time.sleep(0.01)
    for c, p in procs:
        _, err = p.communicate()
        if p.returncode != 0:
            raise RuntimeError("build of %s failed:\n%s" % (c, err.decode()[:1500]))
    lib = os.path.join(dirn, "libsatyr-san.a")
    subprocess.check_call(["ar", "rcs", lib] + objs)
    return lib


def build_harness(src, lib, out, extra=()):
    import irparse
    cmd = CC + SAN + irparse.cflags() + ["-I" + VERIF + "/harness", src, "-o", out] + list(extra) + [lib] + LIBS
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("harness build failed: %s\n%s" % (" ".join(cmd), r.stderr[:3000]))


def run_harness(exe, seed, secs, first=0, count=0):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=0",
               UBSAN_OPTIONS="print_stacktrace=1")
    args = [exe, str(seed), str(secs)]
    if count:
        args += [str(first), str(count)]
    return subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True, errors="replace")


def finish(p, timeout):
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return "timeout", out, err
    if p.returncode == 0 and "DONE" in out:
        return "ok", out, err
    return "fail", out, err


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop = importlib.import_module(pid)
    outdir = os.path.join(OUT, "out", pid)
    if os.path.isdir(outdir):
        shutil.rmtree(outdir)
    os.makedirs(outdir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="satyr-%s-" % pid)
    try:
        rc = run(pid, tier, seed, prop, outdir, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(pid, tier, seed, prop, outdir, scratch, t0):
    generated()
    from sym import Program
    import spec
    # ---- sanitised library + harness (built first, in parallel with nothing: a few seconds)
    harness = getattr(prop, "HARNESS", None)
    exe = None
    lib_err = None
    try:
        lib = build_lib(scratch + "/obj")
        if harness:
            exe = scratch + "/harness"
            build_harness(os.path.join(VERIF, "harness", harness), lib, exe)
    except RuntimeError as e:
        print("check %s: cannot build: %s" % (pid, e))
        return 2
    # ---- proofs
    jobs = prop.jobs()
    files = sorted(set(prop.FILES))
    prog = Program([os.path.join(REPO, "lib", f) for f in files], scratch + "/ir")
    G["prog"], G["jobs"] = prog, jobs
    results = []
    sec = getattr(prop, "SECONDS", 20) if tier == "quick" else getattr(prop, "THOROUGH_SECONDS", 240)
    hp = [run_harness(exe, seed + 1000 * i, sec) for i in range(getattr(prop, "HPROCS", 2) if tier == "quick" else 6)] if exe else []
    tp = time.time()
    if jobs:
        ctx = mp.get_context("fork")
        limit = 500 if tier == "quick" else 3000
        with ctx.Pool(min(JOBS, max(1, len(jobs))), maxtasksperchild=1) as pool:
            order = sorted(range(len(jobs)), key=lambda i: -jobs[i].cost)
            pend = [(i, pool.apply_async(work, (i,))) for i in order]
            for i, a in pend:
                left = max(5, limit - (time.time() - tp))
                try:
                    r = a.get(left)
                except mp.TimeoutError:
                    r = {"fn": jobs[i].fn, "job": jobs[i].name, "obs": [], "status": "limit", "error": "wall clock limit"}
                results.append(r)
            pool.terminate()
    hres = []
    for p in hp:
        stt, out, err = finish(p, sec + 120)
        hres.append((stt, out, err))
    # a proof that failed may have run out of solver time: once more with longer limits (unless the code is shown wrong already)
    again = [i for i, r in enumerate(results) if r["status"] == "failed"]
    if again and len(again) <= 6 and all(h[0] == "ok" for h in hres):
        names = {jobs[i].name: i for i in range(len(jobs))}
        with mp.get_context("fork").Pool(min(JOBS, len(again)), maxtasksperchild=1) as pool:
            end = time.time() + (180 if tier == "quick" else 900)
            pend = [(i, pool.apply_async(work, (names[results[i]["job"]], 4))) for i in again]
            for i, a in pend:
                try:
                    r = a.get(max(5, end - time.time()))
                    if r["status"] == "ok":
                        results[i] = r
                except mp.TimeoutError:
                    pass
            pool.terminate()
    lem = getattr(prop, "LEMMAS", [])
    if lem:
        import ghost
        lr = ghost.prove(lem)
        results.append({"fn": "lemma", "job": "(lemmas)", "status": "ok" if all(x[1] == "ok" for x in lr) else "failed",
                        "solver_time": sum(x[2] for x in lr),
                        "obs": [{"name": "lemma/" + n, "fn": "ghost lemma", "line": "dv/ghost.py", "status": s_, "time": round(t, 4), "backend": "z3",
                                 "detail": "", "model": ""} for n, s_, t in lr]})
    tproof = time.time() - tp
    results.sort(key=lambda r: r["job"])
    # ---- harness results
    known = load_known(pid)
    viol = []
    cases = nontriv = 0
    samples = []
    for stt, out, err in hres:
        for line in out.split("\n"):
            if line.startswith("DONE"):
                cases += int(line.split("cases=")[1].split()[0])
                nontriv += int(line.split("nontrivial=")[1].split()[0])
            if line.startswith("SAMPLE") and len(samples) < 4:
                samples.append(line[7:])
    hfail = next(((o, e, s) for s, o, e in hres if s != "ok"), None)
    failed, undecided = [], []
    for r in results:
        if r["status"] in ("failed",):
            failed.append(r)
        elif r["status"] == "ok":
            pass
        else:
            undecided.append(r)
    obs = [o for r in results for o in r["obs"]]
    nfail = [o for o in obs if o["status"] != "ok"]
    # ---- concretise failed / undecided obligations
    hunted = 0
    if (failed or undecided) and exe and not hfail:
        hs = getattr(prop, "HUNT_SECONDS", 60) if tier == "quick" else 240
        ps = [run_harness(exe, seed + 77 + 13 * i, hs) for i in range(JOBS)]
        for p in ps:
            stt, out, err = finish(p, hs + 120)
            hunted += 1
            if stt != "ok" and not hfail:
                hfail = (out, err, stt)
    if hfail:
        out, err, stt = hfail
        path = os.path.join(outdir, "failing-input.txt")
        with open(path, "w") as f:
            f.write("property %s: failing input found by running the real code (harness/%s)\n" % (pid, harness))
            f.write(out[-8000:] + "\n--- stderr ---\n" + err[:12000] + "\n")
            f.write("\nreplay: build harness/%s against /repo/lib/*.c (see dv/check.py build_harness) and run: harness SEED 0 CASE 1\n" % harness)
            for o in nfail:
                f.write("failed obligation: %s\n" % json.dumps(o))
        msg = next((l for l in out.split("\n") if l.startswith("FAIL")), stt)
        viol.append((path, msg, ""))
    elif failed:
        path = os.path.join(outdir, "failed-obligations.txt")
        with open(path, "w") as f:
            f.write("property %s: obligations generated from /repo's current source that the verifier does not accept\n" % pid)
            for o in nfail:
                f.write("\nFAILED OBLIGATION [%s] in %s at %s (%s, %s)\n  %s\n  counterexample candidate: %s\n" % (
                    o["name"], o["fn"], o["line"], o["status"], o["backend"], o["detail"], o["model"]))
        viol.append((path, "%d obligation(s) not discharged, first: %s at %s" % (len(nfail), nfail[0]["name"], nfail[0]["line"]),
                     " no-failing-input-found"))
    # ---- known findings
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    # ---- evidence
    proved = [r for r in results if r["status"] == "ok"]
    backends = {}
    for o in obs:
        if o["status"] == "ok":
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    trusted_used = sorted({t for r in results for t in r.get("trusted", [])})
    ass = list(getattr(prop, "ASSUMPTIONS", [])) + GENERAL_ASSUMPTIONS
    ass += sorted({a for r in results for a in r.get("assumptions", [])})
    level = getattr(prop, "LEVEL", "proof")
    cov = {
        "obligations": len(obs), "discharged": len(obs) - len(nfail),
        "checker_cmd": "python3-vt dv/check.py %s %s" % (pid, tier),
        "trusted_base": ["VC generator dv/*.py (this repository)", "clang-18 front end (C to LLVM IR)", "z3 5.3.2, cvc5 1.4.2"] +
                        ["trusted contract: " + t for t in trusted_used],
        "functions_under_contract": [{"job": r["job"], "status": r["status"], "obligations": len(r["obs"]),
                                      "paths": r.get("paths"), "solver_s": round(r.get("solver_time", 0), 2),
                                      "queries": r.get("queries"), "inlined": r.get("inlined"), "callee_contracts": r.get("contracts"),
                                      "loops": [{"at": l[1], "invariants": len(l[2])} for l in r.get("loops", [])],
                                      "note": r.get("error")} for r in results],
        "functions_proved": len(proved), "undecided": [r["job"] for r in undecided],
        "discharged_by_backend": backends,
        "solver_time_s": round(sum(r.get("solver_time", 0) for r in results), 2),
        "evaluations": cases, "distinct_nontrivial": nontriv,
        "rule": "bounded stand-in, not counted as proof: " + getattr(prop, "RULE", "cases generated by harness/%s from the seed" % harness),
        "samples": samples[:3] or ["(no harness case sampled)"],
        "bounded_functions": getattr(prop, "BOUNDED", []),
        "explanation": getattr(prop, "EXPLANATION", ""),
    }
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "assumptions": ass, "violations": len(viol)}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in results:
        print("%-44s %-11s %4d obligations %5s paths %7.2fs %s" % (r["job"], r["status"], len(r["obs"]), r.get("paths", "-"),
                                                              r.get("wall", 0), r.get("error") or ""))
        if r.get("tb") and os.environ.get("VERIF_DEBUG"):
            print(r["tb"])
    for o in nfail[:12]:
        print("  not discharged: %s %s [%s] %s" % (o["fn"], o["line"], o["name"], o["detail"][:300]))
    print("%s: %d/%d obligations discharged over %d functions (%d undecided) in %.1fs; %d cases run on the real code; total %.1fs" % (
        pid, len(obs) - len(nfail), len(obs), len(results), len(undecided), tproof, cases, time.time() - t0))
    if viol:
        for path, msg, suffix in viol:
            print("  " + msg)
            print("VIOLATION property=%s replay=%s%s" % (pid, path, suffix))
        return 1
    if jobs and not obs and not exe:
        print("check %s: nothing could be decided" % pid)
        return 2
    return 0


def load_known(pid):
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                out.append(l[len("finding: property=%s " % pid):])
    return out


GENERAL_ASSUMPTIONS = [
    "effective types: a memory cell is read with the width and kind (integer/pointer/float) it was written with",
    "distinct objects do not overlap; pointers into freed memory are never equal to later allocations",
    "GLib allocation never returns NULL for a non-zero size (it aborts)",
    "C locale for <ctype.h>; clang's LLVM IR at -O0 is a faithful reading of the C source; GLib's inline macros replaced by calls to the same functions (dv/preinclude.h)",
    "strings are shorter than 2^31 bytes where a precondition says so",
    "partial correctness: termination is not proved (bounded: harness cases run under a 20 s alarm)",
]


class Job:
    def __init__(self, fn, name=None, spec=None, opts=None, loops=None, contracts=None, cost=1):
        import spec as S
        self.fn = fn
        self.name = name or fn
        self.spec = spec or S.CONTRACTS[fn]
        self.opts = dict(S.INFO.get(fn, {}).get("opts", {}))
        self.opts.update(opts or {})
        self.loops = loops if loops is not None else S.LOOPS.get(fn, [])
        self.contracts = contracts if contracts is not None else S.CONTRACTS
        self.cost = cost


if __name__ == "__main__":
    # make `import check` refer to this very module
    sys.modules["check"] = sys.modules["__main__"]
    main()
