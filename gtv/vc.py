"""Discharge of verification conditions: forked z3 workers, cvc5 / z3 CLI as
second back ends."""
import os
import signal, sys, time, json, subprocess, tempfile, pickle, select
import z3

CVC5 = "cvc5"
NONLINEAR = False       # real arithmetic with products: try the nonlinear solver first


def smt2(pc, goal):
    s = z3.Solver()
    for f in pc:
        s.add(f)
    s.add(z3.Not(goal))
    return s.to_smt2()


FORK = False      # set by specifications on whose queries the solver ignores its time limit now and then


def forked(pc, goal, ms, mbqi):
    """z3_check in a child process with a hard limit: unsat or unknown"""
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, 0.5 + 2 * ms / 1000)
            os._exit(0 if z3_check(pc, goal, ms, mbqi)[0] == z3.unsat else 1)
        finally:
            os._exit(2)
    _, rc = os.waitpid(pid, 0)
    return (z3.unsat if rc == 0 else z3.unknown), None


def z3_check(pc, goal, ms, mbqi=None, seed=0, arith=2, ext=True):
    s = z3.Solver()
    if not ext:
        s.set("smt.array.extensional", False)
    s.set("timeout", int(ms))
    s.set("smt.arith.solver", arith)
    if mbqi is not None:
        s.set("smt.mbqi", mbqi)
    if seed:
        s.set("smt.random_seed", seed)
    for f in pc:
        s.add(f)
    s.add(z3.Not(goal))
    r = s.check()
    m = None
    if r == z3.sat:
        try:
            m = str(s.model())[:6000]
        except z3.Z3Exception:
            m = None
    return r, m


def cli(cmd, text, secs):
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(text)
        r = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=secs + 5)
        o = r.stdout.strip().split("\n")[0]
        return o
    except subprocess.TimeoutExpired:
        return "timeout"
    finally:
        os.unlink(p)


def has_quant(e, seen=None):
    seen = seen if seen is not None else set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def relevant(pc, goal, rounds=2):
    """premises sharing symbols with the goal (unused by default)"""
    return pc


_symc = {}


def slice_pc(pc, goal, depth):
    """keep the premises reachable from the goal's symbols within `depth` hops (sound: dropping premises)"""
    def syms(e):
        r = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                st.append(x.body())
                continue
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    r.add(d.name())
                st.extend(x.children())
        return r
    ps = []
    for f in pc:
        i = f.get_id()
        c = _symc.get(i)
        if c is None or not c[0].eq(f):
            c = (f, syms(f))
            _symc[i] = c
        ps.append(c)
    cur = syms(goal)
    keep = set()
    for _ in range(depth):
        add = set()
        for i, (f, s) in enumerate(ps):
            if i not in keep and s & cur:
                keep.add(i)
                add |= s
        if not add - cur:
            break
        cur |= add
    return [f for i, (f, s) in enumerate(ps) if i in keep]


def subterms(e, out, by):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in out or z3.is_quantifier(x) or z3.is_var(x):
            continue
        out[i] = x
        if z3.is_app(x) and x.num_args():
            by.setdefault(x.decl().name(), []).append(x)
            st.extend(x.children())


def match(p, t, sub):
    """one-way matching of a pattern with de Bruijn variables against a ground term"""
    if z3.is_var(p):
        i = z3.get_var_index(p)
        if i in sub:
            return sub[i].eq(t)
        if p.sort() != t.sort():
            return False
        sub[i] = t
        return True
    if z3.is_quantifier(p) or z3.is_quantifier(t):
        return False
    if p.num_args() == 0:
        return p.eq(t)
    if t.num_args() != p.num_args() or not p.decl().eq(t.decl()):
        return False
    return all(match(a, b, sub) for a, b in zip(p.children(), t.children()))


_inst = {}


def beta(e, memo=None):
    """expand select-of-store / select-of-constant-array in ground terms"""
    memo = {} if memo is None else memo

    def sel(a, i):
        if z3.is_store(a):
            b, j, v = a.children()
            if i.eq(j):
                return v
            if z3.is_int_value(i) and z3.is_int_value(j):
                return sel(b, i)
            return z3.If(i == j, v, sel(b, i))
        if z3.is_K(a):
            return a.arg(0)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(a.arg(0), sel(a.arg(1), i), sel(a.arg(2), i))
        return z3.Select(a, i)

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        if not z3.is_app(x) or x.num_args() == 0:
            r = x
        else:
            ch = [go(c) for c in x.children()]
            if z3.is_select(x) and len(ch) == 2:
                r = sel(ch[0], ch[1])
                if not z3.is_select(r) or not r.arg(0).eq(ch[0]):
                    r = go(r) if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_ITE and z3.is_array(r) else r
            elif all(a.eq(b) for a, b in zip(ch, x.children())):
                r = x
            elif x.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                r = (z3.And if x.decl().kind() == z3.Z3_OP_AND else z3.Or)(*ch)
            else:
                r = x.decl()(*ch)
        memo[i] = (x, r)
        return r
    return go(e)


def negate(goal):
    """conjuncts of the negated goal, outer universal quantifiers skolemised"""
    n = 0
    out = []
    todo = [goal]
    while todo:
        g = todo.pop()
        if z3.is_quantifier(g) and g.is_forall():
            vs = [z3.Const("sk!%d!%s" % (n + i, g.var_name(i)), g.var_sort(i)) for i in range(g.num_vars())]
            n += len(vs)
            todo.append(z3.substitute_vars(g.body(), *reversed(vs)))
        elif z3.is_implies(g):
            out.append(g.arg(0))
            todo.append(g.arg(1))
        else:
            out.append(z3.Not(g))
    return out


def ground(pc, goal, rounds=2, limit=600):
    """quantifier-free consequence of premises and negated goal obtained by
    syntactic E-matching (sound: only instances of premises are used)"""
    neg = [z3.simplify(beta(x)) for x in negate(goal)]
    if any(has_quant(x) for x in neg):
        return None
    qf, qs = [], []
    for f in slice_pc(pc, z3.And(neg) if len(neg) > 1 else neg[0], 2):
        (qs if has_quant(f) else qf).append(f)
    seen, by = {}, {}
    for x in neg:
        subterms(x, seen, by)
    inst = {}
    for rd in range(rounds):
        new = []
        for q in qs:
            if not (z3.is_quantifier(q) and q.is_forall() and q.num_patterns() >= 1):
                continue
            nv = q.num_vars()
            for pi in range(q.num_patterns()):
                mp = q.pattern(pi)
                if mp.num_args() != 1:
                    continue
                pt = mp.arg(0)
                for t in by.get(pt.decl().name(), ()):
                    sub = {}
                    if match(pt, t, sub) and len(sub) == nv:
                        k = (q.get_id(), tuple(sub[i].get_id() for i in range(nv)))
                        if k not in inst:
                            inst[k] = z3.simplify(beta(z3.substitute_vars(q.body(), *[sub[i] for i in range(nv)])))
                            new.append(inst[k])
            if len(inst) > limit:
                break
        if rd == 0:
            for f in qf:
                subterms(f, seen, by)
        for x in new:
            if not has_quant(x):
                subterms(x, seen, by)
    return qf, [x for x in inst.values() if not has_quant(x)], neg


def ground_check(pc, goal, ms):
    try:
        g = ground(pc, goal)
    except z3.Z3Exception:
        return False
    if g is None:
        return False
    qf, ins, neg = g
    for prem, t in ((ins, ms), (qf + ins, ms)):
        s = z3.Solver()
        s.set("timeout", int(t))
        s.set("smt.arith.solver", 2)
        for f in prem:
            s.add(f)
        for f in neg:
            s.add(f)
        if s.check() == z3.unsat:
            return True
    return False


def z3old(pc, goal, secs, opts=("smt.mbqi=false",)):
    """the other installed release of z3: its quantifier instantiation differs
    enough to settle many goals at once on which the first one runs away"""
    try:
        return cli(["/usr/bin/z3", "-T:%d" % max(1, int(secs))] + list(opts), smt2(pc, goal), secs) == "unsat"
    except Exception:
        return False


def nonlinear(pc, goal, ms, seeds=6):
    """products of reals and abstract inner products"""
    if not (SETNAMES & symnames(goal)):
        pc = [f for f in pc if not (z3.is_quantifier(f) and SETNAMES & symnames(f))]
    if z3_check(pc, goal, 60, False, arith=6, ext=False)[0] == z3.unsat:
        return True
    if z3old(pc, goal, 1):
        return True
    for seed in range(seeds):
        if z3_check(pc, goal, ms, False, seed, arith=6, ext=False)[0] == z3.unsat:
            return True
    return False


SETNAMES = {"mem", "ins", "rem", "card", "emptyset"}


def symnames(e):
    i = e.get_id()
    c = _symc.get(i)
    if c is None or not c[0].eq(e):
        slice_pc([e], z3.BoolVal(True), 1)
        c = _symc[i]
    return c[1]


def quick(pc, goal, ms):
    """sliced premises first, then all of them"""
    n = len(pc)
    tt = []
    nl = NONLINEAR
    try:
        if nl and not (symnames(goal) & {"DOT", "MUL"}):
            # plain facts need no product reasoning
            sp = [f for f in pc if not z3.is_quantifier(f) or not (SETNAMES & symnames(f))]
            return ground_check(sp, goal, 250) or z3_check(sp, goal, 100, False)[0] == z3.unsat
        if nl:
            t0 = time.time()
            if nonlinear(pc, goal, min(ms, 150), 2):
                return True
            tt.append((-1, "", round(time.time() - t0, 2)))
            return ground_check(pc, goal, min(ms, 250))
        t0 = time.time()
        if ground_check(pc, goal, min(ms, 250)):
            return True
        tt.append((0, "", round(time.time() - t0, 2)))
        for d, t in ((1, 250), (2, 700)):
            if t > ms:
                break
            sp = slice_pc(pc, goal, d)
            if len(sp) < n:
                t0 = time.time()
                r, m = (forked if FORK else z3_check)(sp, goal, t, False)
                tt.append((d, r, round(time.time() - t0, 2)))
                if r == z3.unsat:
                    return True
        t0 = time.time()
        r, m = (forked if FORK else z3_check)(pc, goal, ms, False)
        tt.append((99, r, round(time.time() - t0, 2)))
        return r == z3.unsat
    finally:
        if os.environ.get("GTV_Q"):
            print("Q", tt, str(z3.simplify(goal))[:300].replace("\n", " "))


def attempt(pc, goal, budget):
    """-> (status, solver, seconds, model)"""
    t0 = time.time()
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "valid", "simplify", time.time() - t0, None
    r, m = z3_check(pc, goal, 120, False, arith=6)
    if r == z3.unsat:
        return "valid", "z3", time.time() - t0, None
    if NONLINEAR:
        if nonlinear(pc, goal, 150, 8) or nonlinear(pc, goal, 1000, 6):
            return "valid", "z3", time.time() - t0, None
    if ground_check(pc, goal, 400):
        return "valid", "z3", time.time() - t0, None
    for d, t in ((1, 300), (2, 800)):
        sp = slice_pc(pc, goal, d)
        if len(sp) < len(pc):
            r, m = (forked if FORK else z3_check)(sp, goal, t, False)
            if r == z3.unsat:
                return "valid", "z3", time.time() - t0, None
    for ar in (2, 6):
        r, m = z3_check(pc, goal, min(2500, budget * 1000), False, arith=ar)
        if r == z3.unsat:
            return "valid", "z3", time.time() - t0, None
    sat_m = m if r == z3.sat else None
    quant = any(has_quant(f) for f in pc) or has_quant(goal)
    if r == z3.sat and not quant:
        return "invalid", "z3", time.time() - t0, sat_m
    r, m = z3_check(pc, goal, budget * 400, None, arith=6)
    if r == z3.unsat:
        return "valid", "z3", time.time() - t0, None
    if r == z3.sat:
        return "invalid", "z3", time.time() - t0, m
    for d in (3, 5):
        sp = slice_pc(pc, goal, d)
        if len(sp) < len(pc):
            r, m2 = z3_check(sp, goal, budget * 200, False)
            if r == z3.unsat:
                return "valid", "z3(sliced)", time.time() - t0, None
    if z3old(pc, goal, budget * 0.4):
        return "valid", "z3 4.8", time.time() - t0, None
    txt = None
    try:
        txt = "(set-logic ALL)\n" + smt2(pc, goal)
        o = cli([CVC5, "--tlimit=%d" % int(budget * 800)], txt, budget)
        if o == "unsat":
            return "valid", "cvc5", time.time() - t0, None
    except Exception:
        pass
    r, m2 = z3_check(pc, goal, budget * 1000, False, 7, arith=6)
    if r == z3.unsat:
        return "valid", "z3", time.time() - t0, None
    return "unknown", "z3,cvc5", time.time() - t0, sat_m or m


def discharge(obls, covers, budget=20, jobs=8, deadline=None, verbose=False):
    """obls: list of Obligation; covers: dict name -> list of pc.  Sets result fields."""
    tasks = [("o", i) for i in range(len(obls))] + [("c", n) for n in covers]
    if not tasks:
        return {}
    jobs = max(1, min(jobs, len(tasks)))
    import multiprocessing as mp
    q = mp.Value("i", 0)
    pipes = []
    pids = []
    sys.stdout.flush()
    sys.stderr.flush()
    fails = mp.Value("i", 0)
    for w in range(jobs):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                import ctypes
                ctypes.CDLL(None).prctl(1, 9)
            except Exception:
                pass
            out = os.fdopen(wr, "w")
            try:
                while True:
                    with q.get_lock():
                        n = q.value
                        q.value += 1
                    if n >= len(tasks):
                        break
                    k, i = tasks[n]
                    if deadline and time.time() > deadline:
                        res = ("timeout", "-", 0, None)
                    elif k == "o":
                        # after several failures the remaining obligations get small budgets
                        b = budget if fails.value < 4 else 4
                        try:
                            res = attempt(obls[i].pc, obls[i].goal, b)
                        except z3.Z3Exception as e:
                            res = ("unknown", "z3 error " + str(e)[:200], 0, None)
                        if res[0] != "valid":
                            with fails.get_lock():
                                fails.value += 1
                    else:
                        t0 = time.time()
                        st = "vacuous"
                        for pc in covers[i][:6]:
                            s = z3.Solver()
                            s.set("timeout", 250)
                            s.set("smt.mbqi", False)
                            for f in pc:
                                s.add(f)
                            if s.check() != z3.unsat:
                                st = "reached"
                                break
                        res = (st, "z3", time.time() - t0, None)
                    out.write(json.dumps([n, list(res)]) + "\n")
                    out.flush()
            finally:
                out.flush()
                os._exit(0)
        os.close(wr)
        pipes.append(os.fdopen(r))
        pids.append(pid)
    cov = {}
    for p in pipes:
        for ln in p:
            n, res = json.loads(ln)
            k, i = tasks[n]
            if k == "o":
                o = obls[i]
                o.result, o.solver, o.time, o.model = res
            else:
                cov[i] = res[0]
        p.close()
    for pid in pids:
        os.waitpid(pid, 0)
    for o in obls:
        if o.result is None:
            o.result, o.solver = "timeout", "worker died"
    for n in covers:
        cov.setdefault(n, "unknown")
    return cov
