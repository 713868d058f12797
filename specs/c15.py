"""Arithmetic over described classes."""
from .meshlib import *
from .c12 import eqv
HARNESS = [("h_c15.cpp", [])]
HARNESS_WHAT = "random expressions over classes with plain, nested, vector, array and integer members against the same expression on every member"
EXPLORED = "proved: every operator and function, every category of operands (constant, modifiable, temporary), aliased operands, scalars on both sides, for all member values; bounded (harness): members in arrays and lists, chains of operators, members of other arithmetic types"
ASSUMPTIONS = ["pow, exp, log, log2, log10, cbrt are functions of their arguments", "the results hold for the machine's floating-point operations (uninterpreted operations); maximum, minimum and sum of members are proved over the reals"]
LEVEL = "proved"
NAMES = {0: ["a", "b"], 1: ["a", "b", "in.p", "in.q"], 2: ["a", "b"], 3: ["a", "v[0]", "v[1]", "v[2]"], 4: ["a"]}
CLASS = {0: "plain", 1: "nested", 2: "integer", 3: "vector", 4: "single"}
ty = lambda c, k: "i" if c == 2 and k == 0 else "d"


def setup(ctx, c, R):
    w = type("W", (), {})()
    for f in ("pow", "exp", "log", "log2", "log10", "cbrt"):
        def con(C, f=f):
            a = [C.ex.flit(x) for x in C.args]
            return z3.Function(f, *([C.ex.F] * (len(a) + 1)))(*a)
        ctx.contract("^%s$" % f, con)
    n = len(NAMES[c])
    w.n = n
    o = {v: [ctx.obs("ob_%s%d" % (v, k)) for k in range(n)] for v in "xyz"}
    h = {v: ctx.obs("ob_h" + v) for v in "xyz"}
    w.s = ctx.obs("ob_s")
    w.v0 = v0 = View(ctx.ex, ctx.st.clone())
    w.S = w.s(v0)
    w.get = lambda vw, v, k: o[v][k](vw)
    w.A = [o["x"][k](v0) for k in range(n)]
    w.B = [o["y"][k](v0) for k in range(n)]
    E = lambda a, b: eqv(ctx, a, b)
    w.E = E
    w.keep = lambda vw, vs: [("operands untouched", z3.And(*[E(o[v][k](vw), o[v][k](v0)) for v in vs for k in range(n)], *[E(h[v](vw), h[v](v0)) for v in "xy"], E(w.s(vw), w.S)))]
    w.res = lambda vw, e: [("member " + NAMES[c][k], E(o["z"][k](vw), e(k))) for k in range(n)]
    w.x = lambda vw, e: [("member %s of the object" % NAMES[c][k], E(o["x"][k](vw), e(k))) for k in range(n)]
    cache = {}

    def sc(op, k, *a):
        f = "sc_%s%s" % (op, ty(c, k))
        if f not in cache:
            cache[f] = ctx.obs(f)
        return cache[f](v0, *a)
    w.sc = sc
    return w


def entry(c, what, body, flags, R="double", fmode="uf"):
    def fn(ctx):
        ctx.spec.unroll_const = True
        body(ctx, setup(ctx, c, R))
    return Entry("%s/%s%s" % (what, CLASS[c], "" if R == "double" else "/" + R), "arith.cpp", fn, ("-DGV_C=%d" % c, "-DGV_R=" + R) + flags, fmode=fmode)


def pair(op, forms):
    def body(ctx, w):
        if op == "mul" or True:
            for f in forms:
                ctx.run("drv_%s_%s" % (op, f), [], lambda vw, rv: w.res(vw, lambda k: w.sc(op, k, w.A[k], w.A[k] if f == "same" else w.B[k])) + w.keep(vw, "xy"))
        i = "drv_i" + op
        ctx.run(i, [], lambda vw, rv: w.res(vw, lambda k: w.sc(op, k, w.A[k], w.B[k])) + w.x(vw, lambda k: w.sc(op, k, w.A[k], w.B[k])) + w.keep(vw, "y"))
        ctx.run(i + "_l", [], lambda vw, rv: w.x(vw, lambda k: w.sc(op, k, w.A[k], w.B[k])) + w.keep(vw, "y"))
        ctx.run(i + "_self", [], lambda vw, rv: w.x(vw, lambda k: w.sc(op, k, w.A[k], w.A[k])) + w.keep(vw, "y"))
        ctx.run(i + "_ref", [], lambda vw, rv: [("the compound form returns its object", zb(rv))] + w.keep(vw, "y"))
    return body


def scalars(op, drvs, comp=None):
    def body(ctx, w):
        if op == "divs" and False:
            ctx.assume(zi(w.S) != 0)
        for d in drvs:
            ctx.run("drv_" + d, [], lambda vw, rv: w.res(vw, lambda k: w.sc(op, k, w.A[k], w.S)) + w.keep(vw, "xy"))
        if comp:
            ctx.run("drv_" + comp, [], lambda vw, rv: w.res(vw, lambda k: w.sc(op, k, w.A[k], w.S)) + w.x(vw, lambda k: w.sc(op, k, w.A[k], w.S)) + w.keep(vw, "y"))
    return body


def unary(ops):
    def body(ctx, w):
        for op in ops:
            for f in "clr":
                ctx.run("drv_%s_%s" % (op, f), [], lambda vw, rv: w.res(vw, lambda k: w.sc(op, k, w.A[k])) + w.keep(vw, "xy"))
    return body


def aggregate(ctx, w):
    A = [z3.ToReal(zi(a)) if False else a for a in w.A]
    zr = lambda a: a if isinstance(a, z3.ExprRef) else z3.RealVal(a)
    A = [zr(a) for a in A]
    ctx.run("drv_max", [], lambda vw, rv: [("not below any member", z3.And(*[zr(rv) >= a for a in A])), ("value of some member", z3.Or(*[zr(rv) == a for a in A]))] + w.keep(vw, "xy"))
    ctx.run("drv_min", [], lambda vw, rv: [("not above any member", z3.And(*[zr(rv) <= a for a in A])), ("value of some member", z3.Or(*[zr(rv) == a for a in A]))] + w.keep(vw, "xy"))
    ctx.run("drv_sum", [], lambda vw, rv: [("sum of the members", zr(rv) == sum(A))] + w.keep(vw, "xy"))


def entries():
    E = []
    two = ["cc", "ll", "cr", "rc", "lr", "rl", "same"]
    for c in range(5):
        for op in ("add", "sub"):
            E.append(entry(c, op, pair(op, two + ["rr"]), ("-DGV_ADD",)))
        if c != 3:
            E.append(entry(c, "mul", pair("mul", two), ("-DGV_MUL",)))
        for R in ("double", "int"):
            E.append(entry(c, "scalar", scalars("muls", ["muls_c", "muls_l", "muls_r", "lmuls_c", "lmuls_l", "lmuls_r"], "imuls"), ("-DGV_SC",), R))
            if not (R == "int" and c == 2):
                E.append(entry(c, "division", scalars("divs", ["divs_c", "divs_l", "divs_r"]), ("-DGV_SC",), R))
        E.append(entry(c, "pow", scalars("pow", ["pow_c", "pow_l", "pow_r"]), ("-DGV_POW",)))
        if c != 3:
            E.append(entry(c, "base", scalars("base", ["base_c", "base_l", "base_r"]), ("-DGV_BASE",)))
        E.append(entry(c, "abs", unary(["abs"]), ("-DGV_ABS",)))
        if c not in (3,):
            E.append(entry(c, "neg", unary(["neg"]), ("-DGV_NEG",)))
            E.append(entry(c, "sqrt", unary(["sqrt"]), ("-DGV_SQRT",)))
        if c in (0, 2, 4):
            E.append(entry(c, "functions", unary(["exp", "log", "log2", "log10", "cbrt"]), ("-DGV_FUN",)))
        if c != 2:
            E.append(entry(c, "aggregate", aggregate, ("-DGV_AGG",), fmode="real"))
    return E
