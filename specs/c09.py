"""Vector arithmetic."""
from .meshlib import *
HARNESS = [("h_c09.cpp", ["-DPART=%d" % i]) for i in range(3)]
HARNESS_WHAT = "random vectors of every dimension 1..8 and types double, float, int, long, short, unsigned char and a user type; aliasing operands; lists of every length"
LEVEL = "proved"
EXPLORED = ""
BITS = {"int": 32, "long": 64, "unsigned char": 8, "short": 16, "unsigned": 32}
SIZE = {"int": 4, "long": 8, "unsigned char": 1, "short": 2, "double": 8, "float": 4}
TYN = {"int": "i32", "long": "i64", "unsigned char": "i8", "short": "i16", "double": "double", "float": "float"}
SIGNED = {"int", "long", "short"}


def setup(ctx, T):
    FL[0] = ctx.ex.flit
    ctx.ex.ptr_targets["@g_l"] = (SIZE[T], TYN[T])
    return ctx.obs("ob_a"), ctx.obs("ob_b"), ctx.obs("ob_c"), View(ctx.ex, ctx.st.clone())


def scalar(ctx, T, n):
    if T in BITS:
        return ctx.fresh(n, bits=BITS[T])
    return z3.Const(n, ctx.ex.F)


def signed(v, T):
    n = BITS[T]
    v = zi(v)
    return z3.If(v >= (1 << (n - 1)), v - (1 << n), v) if T in SIGNED else v


def elementwise(D, T, S, op):
    # a vector of at most 16 bytes travels in registers, which splits its coordinates: such
    # vectors of small coordinate types are verified in their in-place forms only
    byval = T in ("double", "long") or D * SIZE[T] > 16

    def fn(ctx):
        oa, ob, oc, v0 = setup(ctx, T)
        R = range(D)
        run = ctx.run

        def valrun(*a):
            if byval:
                ctx.run(*a)
        f = {n: ctx.obs("op_" + n) for n in ("add", "sub", "mul", "muls", "divs", "divt", "eq", "zero")}
        A = [oa(v0, i) for i in R]
        B = [ob(v0, i) for i in R]
        if T in SIGNED:       # sums and differences that overflow are undefined in the coordinate type
            for i in R:
                a, b = signed(A[i], T), signed(B[i], T)
                lim = 1 << (BITS[T] - 2)
                ctx.assume(a < lim, a >= -lim, b < lim, b >= -lim)

        def keep(vw, what):
            r = []
            if "a" in what:
                r.append(("left operand untouched", z3.And(*[zz(oa(vw, i)) == zz(A[i]) for i in R])))
            if "b" in what:
                r.append(("right operand untouched", z3.And(*[zz(ob(vw, i)) == zz(B[i]) for i in R])))
            return r

        def comp(o, g, k):
            return lambda vw, rv: [("coordinate %d" % i, zz(o(vw, i)) == zz(g(vw, i))) for i in R] + keep(vw, k)
        if op in ("add", "sub"):
            valrun("drv_" + op, [], comp(oc, lambda vw, i: f[op](vw, A[i], B[i]), "ab"))
            ctx.run("drv_i" + op, [], comp(oa, lambda vw, i: f[op](vw, A[i], B[i]), "b"))
            ctx.run("drv_al_" + op, [], comp(oa, lambda vw, i: f[op](vw, A[i], A[i]), "b"))
            if op == "add":
                valrun("drv_al_add3", [], comp(oa, lambda vw, i: f[op](vw, A[i], A[i]), "b"))
            else:
                valrun("drv_al_sub3", [], comp(oa, lambda vw, i: f[op](vw, B[i], A[i]), "b"))
        elif op in ("mul", "div"):
            s = scalar(ctx, S, "s")
            g = f["muls" if op == "mul" else "divs"]
            if op == "div" and S in BITS:
                ctx.assume(s != 0)
                if T in SIGNED and S in SIGNED:
                    ctx.assume(signed(s, S) > 0)
            valrun("drv_%ss" % op, [s], comp(oc, lambda vw, i: g(vw, A[i], s), "ab"))
            ctx.run("drv_i%ss" % op, [s], comp(oa, lambda vw, i: g(vw, A[i], s), "b"))
            if op == "mul":
                t = scalar(ctx, T, "t")
                valrun("drv_lmul", [t], comp(oc, lambda vw, i: f["mul"](vw, t, A[i]), "ab"))
                ctx.run("drv_ref", [s] if True else [], lambda vw, rv: [("in-place forms return the object", zi(rv) != 0)])
        elif op == "alm":
            for k, i0 in (("0", 0), ("k", D // 2), ("l", D - 1)):
                ctx.run("drv_al_mul" + k, [], comp(oa, lambda vw, i: f["mul"](vw, A[i], A[i0]), "b"))
            valrun("drv_al_mul3", [], comp(oa, lambda vw, i: f["mul"](vw, A[i], A[0]), "b"))
            valrun("drv_al_lmul", [], comp(oa, lambda vw, i: f["mul"](vw, A[i], A[0]), "b"))
        elif op == "ald":
            if T in BITS:
                for x in A:
                    ctx.assume(signed(x, T) > 0)
            for k, i0 in (("0", 0), ("k", D // 2), ("l", D - 1)):
                ctx.run("drv_al_div" + k, [], comp(oa, lambda vw, i: f["divt"](vw, A[i], A[i0]), "b"))
            valrun("drv_al_div3", [], comp(oa, lambda vw, i: f["divt"](vw, A[i], A[D - 1]), "b"))
        elif op == "eq":
            e = [tb(f["eq"](v0, A[i], B[i])) for i in R]
            ctx.run("drv_eq", [], lambda vw, rv: [("true exactly when all coordinates agree", tb(rv) == z3.And(*e))] + keep(vw, "ab"))
            ctx.run("drv_ne", [], lambda vw, rv: [("true exactly when some coordinate differs", tb(rv) == z3.Not(z3.And(*e)))] + keep(vw, "ab"))
        elif op == "list":
            ol, ln = ctx.obs("ob_l"), zi(ctx.obs("ob_ln")(v0))
            z = f["zero"](v0)
            L = [ol(v0, i) for i in R]

            def post(vw, rv):
                return [("coordinate %d" % i, zz(oc(vw, i)) == z3.If(ln > i, zz(L[i]), zz(z))) for i in R] + keep(vw, "ab")
            ctx.run("drv_list", [], post)
            valrun("drv_ctorl", [], post)
            zero = lambda vw, rv: [("coordinate %d" % i, zz(oc(vw, i)) == zz(z)) for i in R] + keep(vw, "ab")
            valrun("drv_l0", [], zero)
            valrun("drv_v0", [], zero)
            valrun("drv_copy", [], comp(oc, lambda vw, i: A[i], "ab"))
            ctx.run("drv_assign", [], comp(oc, lambda vw, i: A[i], "ab"))
            ctx.run("drv_size", [], lambda vw, rv: [("size is the dimension", zi(rv) == D)])
            i = ctx.fresh("i")
            ctx.assume(i < D)
            ctx.run("drv_at", [i], lambda vw, rv: [("reads coordinate %d" % j, z3.Implies(i == j, zz(rv) == zz(A[j]))) for j in R] + keep(vw, "ab"))
            x = scalar(ctx, T, "x")
            ctx.run("drv_set", [i, x], lambda vw, rv: [("coordinate %d" % j, zz(oa(vw, j)) == z3.If(i == j, zz(x), zz(A[j]))) for j in R] + keep(vw, "b"))
        elif op == "dot":         # integers: modulo the width of the type
            n = BITS[T]
            Mx = 1 << n
            lim = {8: 1 << 4, 16: 1 << 7, 32: 1 << 13, 64: 1 << 29}[n]

            def post(X, Y):
                return lambda vw, rv: [("sum of the products of the coordinates", zi(rv) == sum(zi(f["mul"](vw, X[i], Y[i])) for i in R) % Mx)] + keep(vw, "ab")
            if T in SIGNED:
                for x, y in ((A, B), (A, A)):
                    for i in R:     # the products are in range by assumption
                        p = signed(f["mul"](v0, x[i], y[i]), T)
                        m = (1 << (n - 1)) // (2 * D)
                        ctx.st.assume(z3.And(p < m, p > -m))
            ctx.run("drv_dot", [], post(A, B))
            ctx.run("drv_dot_al", [], post(A, A))
            ctx.run("drv_sos", [], post(A, A))
    return Entry("%s/%d/%s%s" % (op, D, T, "*" + S if op in ("mul", "div") else ""), "vec.cpp", fn, ("-DGV_D=%d" % D, "-DGV_T=" + T, "-DGV_S=" + S), fmode="uf")


def reals(D, T, op):
    def fn(ctx):
        oa, ob, oc, v0 = setup(ctx, T)
        R = range(D)
        A = [oa(v0, i) for i in R]
        B = [ob(v0, i) for i in R]

        def keep(vw):
            return [("operands untouched", z3.And(*[zz(oa(vw, i)) == zz(A[i]) for i in R], *[zz(ob(vw, i)) == zz(B[i]) for i in R]))]

        def dot(X, Y):
            return sum(zz(X[i]) * zz(Y[i]) for i in R)
        if op == "dot":
            ctx.run("drv_dot", [], lambda vw, rv: [("sum of the products of the coordinates", zz(rv) == dot(A, B))] + keep(vw))
            ctx.run("drv_dot_al", [], lambda vw, rv: [("sum of the products of the coordinates", zz(rv) == dot(A, A))] + keep(vw))
            ctx.run("drv_sos", [], lambda vw, rv: [("sum of the squares of the coordinates", zz(rv) == dot(A, A))] + keep(vw))
            ctx.run("drv_norm", [], lambda vw, rv: [("not negative", zz(rv) >= 0), ("its square is the scalar product with itself", zz(rv) * zz(rv) == dot(A, A))] + keep(vw))
        else:
            C = [zz(A[(i + 1) % 3]) * zz(B[(i + 2) % 3]) - zz(A[(i + 2) % 3]) * zz(B[(i + 1) % 3]) for i in R]
            ctx.run("drv_cross", [], lambda vw, rv: [("coordinate %d" % i, zz(oc(vw, i)) == C[i]) for i in R] + keep(vw))
            ctx.run("drv_cross_al", [], lambda vw, rv: [("coordinate %d" % i, zz(oa(vw, i)) == C[i]) for i in R])
            ctx.run("drv_cross_al2", [], lambda vw, rv: [("coordinate %d" % i, zz(oa(vw, i)) == -C[i]) for i in R])
    return Entry("%s-real/%d/%s" % (op, D, T), "vec.cpp", fn, ("-DGV_D=%d" % D, "-DGV_T=" + T, "-DGV_S=" + T), fmode="real")


def vertex_element(D, T):
    def fn(ctx):
        FL[0] = ctx.ex.flit
        om, mi, oa = ctx.obs("ob_m"), ctx.obs("ob_mi"), ctx.obs("ob_a")
        ctx.ex.ptr_targets["@g_l"] = (SIZE[T], TYN[T])
        v0 = View(ctx.ex, ctx.st.clone())
        ol, ln, z = ctx.obs("ob_l"), zi(ctx.obs("ob_ln")(v0)), ctx.obs("op_zero")(v0)
        R = range(D)
        L = [ol(v0, i) for i in R]
        A = [oa(v0, i) for i in R]
        i0 = zi(mi(v0))
        ctx.run("drv_me_list", [], lambda vw, rv: [("coordinate %d" % i, zz(om(vw, i)) == z3.If(ln > i, zz(L[i]), zz(z))) for i in R] + [("index kept", zi(mi(vw)) == i0)])
        i = ctx.fresh("i")
        if T == "double":
          ctx.run("drv_me_ctor", [i], lambda vw, rv: [("coordinate %d" % j, zz(om(vw, j)) == zz(A[j])) for j in R] + [("index set", zi(mi(vw)) == i)])
    return Entry("vertex/%d/%s" % (D, T), "vec.cpp", fn, ("-DGV_D=%d" % D, "-DGV_T=" + T, "-DGV_S=" + T, "-DGV_ME"), fmode="uf")


FL = [None]


def zz(v):
    if isinstance(v, (int,)):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v) if FL[0] is None else FL[0](v)
    return v


def tb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(v != 0)
    return v if z3.is_bool(v) else v != 0


COMBOS = [(1, "double", "double"), (2, "double", "float"), (3, "double", "double"), (3, "float", "double"), (4, "double", "int"), (7, "double", "double"),
          (1, "int", "int"), (2, "int", "int"), (3, "int", "double"), (5, "int", "long"), (3, "long", "int"), (17, "unsigned char", "float"), (3, "unsigned char", "unsigned char"), (6, "float", "float"), (9, "short", "double")]


def entries():
    E = []
    for D, T, S in COMBOS:
        for op in ("add", "sub", "mul", "div", "alm", "ald", "eq", "list"):
            E.append(elementwise(D, T, S, op))
        if T in BITS:
            if D <= 3:
                E.append(elementwise(D, T, S, "dot"))
        else:
            E.append(reals(D, T, "dot"))
    E += [reals(3, "double", "cross")]
    E += [vertex_element(3, "double"), vertex_element(2, "float"), vertex_element(3, "float")]
    return E
