"""check runner:  python -m gtv.run <property> [--tier quick|thorough]"""
import os, sys, time, json, subprocess, importlib, hashlib, traceback, shutil, tempfile, signal, argparse

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GTV_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

from gtv import ir, vc
from gtv.exec import Unsupported

NPROC = int(os.environ.get("GTV_JOBS", "8"))


def compile_driver(work, driver, flags):
    tag = hashlib.md5((driver + "|" + " ".join(flags)).encode()).hexdigest()[:10]
    out = os.path.join(work, tag + ".ll")
    cmd = ["clang++", "-std=c++14", "-I" + REPO + "/src", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
           "-ffp-contract=off", "-S", "-emit-llvm", "-w", "-o", out] + list(flags) + [os.path.join(VERIF, "drivers", driver)]
    err = open(out + ".err", "w")
    return out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err)


def run_entry(e, ll, jobs, deadline, outp):
    """executed in a forked child: writes a json report"""
    rep = {"name": e.name, "obligations": [], "error": None, "functions": [], "contracts": {}, "solver_s": 0, "covers": {}}
    t0 = time.time()
    try:
        from gtv.spec import Ctx
        mod = ir.parse_module(ll)
        ctx = Ctx(mod, e.fmode)
        ctx.ex.deadline = min(deadline, time.time() + e.timeout)
        try:
            e.fn(ctx)
        except (Unsupported, ir.IRError) as x:
            rep["error"] = "%s: %s" % (type(x).__name__, x)
            rep["trace"] = traceback.format_exc()[-1500:]
        except RecursionError as x:
            rep["error"] = "recursion"
        except Exception as x:
            rep["error"] = "internal: %s: %s" % (type(x).__name__, x)
            rep["trace"] = traceback.format_exc()[-3000:]
        ex = ctx.ex
        rep["exec_s"] = round(time.time() - t0, 2)
        covers = {n: c for n, c in ex.covers_d.items() if not any(r.search(n) for r in ctx.skip)}
        cov = vc.discharge(ex.obls, covers, e.budget, jobs, deadline)
        rep["covers"] = cov
        rep["functions"] = sorted(ex.fns_entered)
        rep["contracts"] = dict(ex.contracts_used)
        for o in ex.obls:
            d = {"name": o.name, "result": o.result, "solver": o.solver, "time": round(o.time, 3)}
            if o.result != "valid":
                d["model"] = o.model
                d["goal"] = str(o.goal)[:2500]
                d["pc"] = [str(f)[:600] for f in o.pc[-60:]]
            rep["obligations"].append(d)
        rep["solver_s"] = round(sum(o.time for o in ex.obls) + ex.tq, 2)
    except Exception as x:
        rep["error"] = "internal: %s: %s" % (type(x).__name__, x)
        rep["trace"] = traceback.format_exc()[-3000:]
    with open(outp, "w") as f:
        json.dump(rep, f)


DUMP = os.environ.get("GTV_DUMP")


def die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)      # PR_SET_PDEATHSIG
    except Exception:
        pass


def own_group():
    os.setpgid(0, 0)
    die_with_parent()


def run_entries(entries, work, deadline, found=lambda: False):
    lls = {}
    errs = {}
    procs = []
    need = {}
    for e in entries:
        need.setdefault((e.driver, e.flags), []).append(e)
    running = []

    def finish(k, out, p):
        lls[k] = out if p.wait() == 0 else None
        errs[k] = open(out + ".err").read()[-4000:]
    for k in need:
        running.append((k,) + compile_driver(work, *k))
        if len(running) >= NPROC:
            finish(*running.pop(0))
    for r in running:
        finish(*r)
    reps = []
    todo = list(entries)
    active = {}
    jobs = max(1, NPROC // max(1, min(NPROC, len(todo))))
    n = 0
    stop = 0
    t_first = 150 if time.time() + 500 < deadline + 60 else 90
    while todo or active:
        while todo and len(active) < NPROC:
            e = todo.pop(0)
            lim = getattr(e, "limit", None) or max(t_first, e.timeout if e.tier != "quick" else 0)
            lim = max(15, min(lim, deadline + 20 - time.time()))
            ll = lls[(e.driver, e.flags)]
            if ll is None:
                reps.append({"name": e.name, "obligations": [], "error": "driver %s does not compile: %s" % (e.driver, errs[(e.driver, e.flags)]),
                             "functions": [], "contracts": {}, "solver_s": 0, "covers": {}})
                continue
            outp = os.path.join(work, "rep%d.json" % n)
            n += 1
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    own_group()
                    if DUMP:
                        import faulthandler
                        faulthandler.dump_traceback_later(lim - 5, file=open(os.path.join(DUMP, "hang.%s.%d" % (e.name, os.getpid())), "w"))
                    if getattr(e, "retried", False):
                        import z3
                        z3.set_param("smt.random_seed", 7)
                    run_entry(e, ll, jobs if len(entries) < NPROC else (1 if todo else 2), deadline, outp)
                finally:
                    os._exit(0)
            active[pid] = (e, outp, time.time() + lim)
        if not active:
            continue
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if not stop and found():
                stop = time.time() + 12       # a failing input is known: the proof needs no more time
                for e in todo:
                    reps.append({"name": e.name, "obligations": [], "error": "not attempted: the concrete supplement had already found a failing input", "functions": [], "contracts": {}, "solver_s": 0, "covers": {}})
                todo = []
            if stop and time.time() > stop:
                active = {q: (e, outp, 0) for q, (e, outp, t) in active.items()}
                for e, _, _ in active.values():
                    e.retried = True
            for q, (e, outp, t) in list(active.items()):
                if time.time() > t:
                    try:
                        os.killpg(q, 9)
                    except OSError:
                        try:
                            os.kill(q, 9)
                        except OSError:
                            pass
            time.sleep(0.02)
            continue
        if pid in active:
            e, outp, t = active.pop(pid)
            try:
                reps.append(json.load(open(outp)))
            except Exception:
                if not getattr(e, "retried", False) and time.time() < deadline - 30:
                    e.retried = True      # a solver crashed or hung: once more in a fresh process
                    e.limit = 250
                    todo.append(e)
                    continue
                reps.append({"name": e.name, "obligations": [], "error": "verifier process ended abnormally (status %d)" % status,
                             "functions": [], "contracts": {}, "solver_s": 0, "covers": {}})
    order = {e.name: i for i, e in enumerate(entries)}
    reps.sort(key=lambda r: order.get(r["name"], 0))
    return reps


def run_harness(spec, work, tier, seed, deadline):
    """compile and run the concrete supplement; returns dict"""
    res = {"ran": False, "cases": 0, "fails": [], "error": None, "notes": []}
    hs = getattr(spec, "HARNESS", None)
    if not hs:
        return res
    if isinstance(hs, str):
        hs = [(hs, [])]
    procs = []
    for i, (src, flags) in enumerate(hs):
        exe = os.path.join(work, "h%d" % i)
        cmd = ["g++", "-std=c++14", "-I" + REPO + "/src", "-I" + os.path.join(VERIF, "harness"), "-O1", "-g0", "-w", "-fsanitize=address,undefined",
               "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-o", exe, os.path.join(VERIF, "harness", src)] + list(flags) + ["-lstdc++fs"]
        procs.append((src, exe, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for src, exe, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            res["error"] = "harness %s does not compile: %s" % (src, out[-2500:])
            continue
        scratch = tempfile.mkdtemp(prefix="scratch", dir=work)
        to = max(20, min((120 if tier == "quick" else 500), deadline - time.time()))
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=2000"
        try:
            r = subprocess.run([exe, str(seed), tier], capture_output=True, text=True, timeout=to, cwd=scratch, env=env, errors="replace")
        except subprocess.TimeoutExpired as x:
            so = x.stdout.decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
            last = [l for l in so.split("\n") if l.startswith("CASE ")][-1:]
            res["fails"].append({"key": "hang", "what": "harness %s did not finish within %d s; last case: %s" % (src, to, last)})
            res["ran"] = True
            continue
        res["ran"] = True
        last = ""
        done = False
        for ln in r.stdout.split("\n"):
            if ln.startswith("FAIL "):
                k, _, w = ln[5:].partition(" ")
                res["fails"].append({"key": k, "what": w})
            elif ln.startswith("CASES "):
                res["cases"] += int(ln.split()[1])
                done = True
            elif ln.startswith("CASE "):
                last = ln
            elif ln.startswith("NOTE "):
                res["notes"].append(ln[5:])
        if r.returncode != 0 or not done:
            res["fails"].append({"key": "crash", "what": "harness %s ended abnormally (status %d) in: %s; stderr: %s" % (src, r.returncode, last, r.stderr[-1500:])})
    return res


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % pid):
                rest = ln[len("known: property=%s " % pid):]
                key, _, what = rest.partition(" ")
                out[key.split("=", 1)[1]] = what
    return out


def main():
    if os.environ.get("PYTHONHASHSEED") != "0":      # same run every time
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "gtv.run"] + sys.argv[1:])
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--no-harness", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--limit", type=int, default=None)
    a = ap.parse_args()
    t0 = time.time()
    pid = a.pid
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    limit = a.limit or (760 if a.tier == "quick" else 3300)
    deadline = t0 + limit
    spec = importlib.import_module("specs." + pid.lower())
    work = tempfile.mkdtemp(prefix="gtv_%s_" % pid)
    code = 0
    try:
        entries = [e for e in spec.entries() if a.tier == "thorough" or e.tier == "quick"]
        if a.only:
            entries = [e for e in entries if a.only in e.name]
        if a.tier == "thorough":
            for e in entries:
                e.budget *= 4
                e.timeout *= 4
        # the concrete supplement runs beside the proof
        hpid, hout = 0, os.path.join(work, "harness.json")
        if not a.no_harness:
            sys.stdout.flush()
            hpid = os.fork()
            if hpid == 0:
                try:
                    die_with_parent()
                    r = run_harness(spec, work, a.tier, seed, deadline)
                    with open(hout, "w") as fo:
                        json.dump(r, fo)
                finally:
                    os._exit(0)
        known = known_findings(pid)

        def found():
            try:
                return any(f["key"] not in known for f in json.load(open(hout))["fails"])
            except Exception:
                return False
        reps = [] if a.no_proof else run_entries(entries, work, deadline, found)
        hres = {"ran": False, "cases": 0, "fails": [], "error": None, "notes": []}
        if hpid:
            try:
                os.waitpid(hpid, 0)
            except ChildProcessError:
                pass
            try:
                hres = json.load(open(hout))
            except Exception:
                hres["error"] = "harness runner ended abnormally"
        code = report(pid, a, spec, entries, reps, hres, seed, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def report(pid, a, spec, entries, reps, hres, seed, t0):
    known = known_findings(pid)
    nob = sum(len(r["obligations"]) for r in reps)
    ndis = sum(1 for r in reps for o in r["obligations"] if o["result"] == "valid")
    bad = []
    for r in reps:
        if r["error"]:
            bad.append({"entry": r["name"], "obligation": "verification conditions of %s generated" % r["name"], "why": r["error"], "trace": r.get("trace", "")})
        for o in r["obligations"]:
            if o["result"] != "valid":
                bad.append({"entry": r["name"], "obligation": o["name"], "why": o["result"], "detail": o})
        for n, c in r["covers"].items():
            if c == "vacuous":
                bad.append({"entry": r["name"], "obligation": "cover: " + n, "why": "contradictory premises"})
        if not r["error"] and not r["obligations"]:
            bad.append({"entry": r["name"], "obligation": "obligations generated", "why": "none"})
    conc = []
    kf = []
    for f in hres["fails"]:
        if f["key"] in known:
            kf.append(f)
        else:
            conc.append(f)
    if hres["error"]:
        bad.append({"entry": "harness", "obligation": "concrete supplement builds against the current tree", "why": hres["error"]})
    solvers = {}
    for r in reps:
        for o in r["obligations"]:
            if o["result"] == "valid":
                solvers[o["solver"]] = solvers.get(o["solver"], 0) + 1
    fns = sorted({f for r in reps for f in r["functions"] if not f.startswith(("drv_", "ob_"))})
    repo_fns = [f for f in fns if not f.startswith(("std::", "__gnu_cxx::", "void std::", "bool std::"))]
    trusted = sorted({"%s  [contract %s]" % (k[:160], v) for r in reps for k, v in r["contracts"].items()})
    viol = 0
    replay = os.path.join(VERIF, "evidence", pid + ".replay.txt")
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    code = 0
    for f in sorted({x["key"] for x in kf}):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, f, known[f]))
    if bad or conc:
        code = 1
        with open(replay, "w") as fo:
            fo.write("property %s\n" % pid)
            for f in conc:
                fo.write("\n== concrete failing input on the real code (harness %s, seed %d, tier %s)\n%s: %s\n" % (getattr(spec, "HARNESS", ""), seed, a.tier, f["key"], f["what"]))
            for b in bad:
                fo.write("\n== failed obligation [%s] %s : %s\n" % (b["entry"], b["obligation"], b["why"]))
                if b.get("trace"):
                    fo.write(b["trace"] + "\n")
                d = b.get("detail")
                if d:
                    fo.write("goal: %s\nlast premises:\n  %s\nverifier output: %s by %s\nmodel: %s\n" % (d.get("goal"), "\n  ".join(d.get("pc", [])), d["result"], d["solver"], d.get("model")))
        viol = len(conc) + len(bad)
        for b in bad[:8]:
            print("failed obligation: [%s] %s: %s" % (b["entry"], b["obligation"][:200], str(b["why"])[:300]))
        for c in conc[:8]:
            print("failing input: %s %s" % (c["key"], c["what"][:400]))
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if conc else " no-failing-input-found"))
    elif os.path.exists(replay):
        os.unlink(replay)
    ev = {
        "property": pid, "tier": a.tier, "seed": seed, "level": getattr(spec, "LEVEL", "proof"),
        "coverage": {
            "obligations": nob, "discharged": ndis,
            "checker_cmd": "python3-vt -m gtv.run %s --tier %s" % (pid, a.tier),
            "trusted_base": ["gtv verification-condition generator over clang-18 -O0 LLVM IR (/verif/gtv)", "clang 18 front end", "z3 5.3.2 / cvc5 1.1.2"] + trusted,
            "entries": [{"name": r["name"], "obligations": len(r["obligations"]), "discharged": sum(1 for o in r["obligations"] if o["result"] == "valid"),
                         "solver_s": r["solver_s"], "exec_s": r.get("exec_s")} for r in reps],
            "functions_under_contract": repo_fns,
            "functions_verified_count": len(repo_fns),
            "by_back_end": solvers,
            "solver_s": round(sum(r["solver_s"] for r in reps), 2),
            "covers_reached": sum(1 for r in reps for c in r["covers"].values() if c == "reached"),
            "bounded_supplement": {"label": "bounded, not counted as proved", "ran": hres["ran"], "cases": hres["cases"], "what": getattr(spec, "HARNESS_WHAT", ""), "notes": hres["notes"]},
            "known_findings_seen": sorted({x["key"] for x in kf}),
            "explored": getattr(spec, "EXPLORED", ""),
        },
        "assumptions": getattr(spec, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": viol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    print("%s %s: %d/%d obligations discharged over %d entries, %d repository functions, %d concrete cases, %.1f s -> %s" %
          (pid, a.tier, ndis, nob, len(reps), len(repo_fns), hres["cases"], time.time() - t0, "exit %d" % code))
    if a.v:
        for r in reps:
            print("  ", r["name"], "ob", len(r["obligations"]), "exec", r.get("exec_s"), "solver", r["solver_s"], r["error"] or "")
            if r.get("trace") and r["error"]:
                print(r["trace"])
            sl = sorted(r["obligations"], key=lambda o: -o["time"])[:3]
            for o in sl:
                if o["time"] > 1:
                    print("       slow", o["time"], o["solver"], o["name"][:120])
    return code


COMMON_ASSUMPTIONS = [
    "C++ objects with value semantics occupy disjoint storage unless reached through the same access path (ownership memory model of gtv)",
    "contracts of the standard library functions listed in trusted_base are assumed",
    "container sizes stay below 2^60; allocation does not fail",
    "the proof covers the template instantiations in the named driver files",
]

if __name__ == "__main__":
    main()
