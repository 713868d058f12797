"""Gram-Schmidt orthogonalisation."""
from .veclib import *
HARNESS = [("h_c10.cpp", ["-DPART=%d" % i]) for i in range(4)]
HARNESS_WHAT = "random independent lists of 1..D vectors of every dimension 1..6 (and some of dimension 12, 40 and 300), double, float and long double, well and badly scaled, nearly orthogonal and skewed; all four variants compared"
LEVEL = "proved"


import gtv.vc
from gtv.vc import beta
gtv.vc.NONLINEAR = True


def gs(D, N, norm, it="size_t"):
    def fn(ctx):
        ex, st = ctx.ex, ctx.st
        p, on, onrm, onn = ctx.obs("ob_p"), ctx.obs("ob_n"), ctx.obs("ob_norm"), ctx.obs("ob_nn")
        v0 = View(ex, st.clone())
        n = zi(on(v0))
        ctx.assume(n >= (1 if N else 0), n < (1 << (31 if it != "size_t" else 60)))

        # the vectors are linearly independent: a vector reduced by the preceding ones is not zero
        def positive(C, r):
            C.st.assume(r > 0)
        install(ctx, D, positive)
        q = ctx.fresh("q*")                        # an arbitrary vector of the list ...
        ctx.assume(q < n)
        x = z3.Const("x*", VA)                     # ... and an arbitrary test vector

        def A(vw):
            a = p(vw, z3.IntVal(0))
            k, ix = cell(a)
            assert len(ix) == 1, ix
            m = vw.st.mem.get(k)
            if m is None:
                m = ex.mat_in(vw.st.mem, vw.st.rules, k, vw.st)
            return m
        KEY = [None]

        def key():
            return cell(p(v0, z3.IntVal(0)))[0]
        A0 = A(v0)
        KEY = key()
        i_, j_ = z3.Ints("i!g j!g")

        def V(a, i):
            return z3.Select(a, i)

        def ortho(a, i):
            return z3.ForAll([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < j_, j_ < i), DOT(V(a, i_), V(a, j_)) == 0), patterns=[DOT(V(a, i_), V(a, j_))])

        def unit(a, i):
            return z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < i), DOT(V(a, i_), V(a, i_)) == 1), patterns=[DOT(V(a, i_), V(a, i_))])

        def hyp(a, i):
            """x is orthogonal to the vectors before i"""
            return z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < i), DOT(V(a, i_), x) == 0), patterns=[V(a, i_)])

        def outer(L):
            def inv(L, v, k):
                a = A(v)
                i = k + 1
                r = [("iteration bounded (termination)", i <= n),
                     ("processed vectors are mutually orthogonal", ortho(a, i)),
                     ("later vectors untouched", z3.ForAll([i_], z3.Implies(i_ >= i, V(a, i_) == V(A0, i_)), patterns=[V(a, i_)]))]
                if not norm:
                    r += [("first vector untouched", V(a, z3.IntVal(0)) == V(A0, z3.IntVal(0)))]
                if norm:
                    r += [("processed vectors have unit length", unit(a, i))]
                else:
                    r += [("a processed vector differs from the original by a combination of the preceding ones", z3.Implies(z3.And(q < i, hyp(a, q)), DOT(V(a, q), x) == DOT(V(A0, q), x)))]
                return r

            def offers(L, ex, key, w0):
                if key[3] != "f64" or len(key[1]) != 1 or ".ref.tmp" in key[0]:
                    return []

                def form_inv(k, S):
                    a = A(View(ex, S))
                    s = S.mem[key]
                    return z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < k + 1), z3.Select(s, i_) * DOT(V(a, i_), V(a, i_)) == 1), patterns=[z3.Select(s, i_)])

                def form_pos(k, S):
                    s = S.mem[key]
                    return z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < k + 1), z3.Select(s, i_) > 0), patterns=[z3.Select(s, i_)])

                def form_rest(k, S):
                    a, s = A(View(ex, S)), S.mem[key]
                    return z3.Implies(z3.And(q < k + 1, hyp(a, q)), MUL(z3.Select(s, q), DOT(V(a, q), x)) == DOT(V(A0, q), x))

                def form_first(k, S):
                    a, s = A(View(ex, S)), S.mem[key]
                    return MUL(z3.Select(s, 0), DOT(V(a, z3.IntVal(0)), x)) == DOT(V(A0, z3.IntVal(0)), x)
                if norm:
                    return [Offer("norms are positive", form_pos), Offer("norm times vector is the original up to the preceding ones", form_rest), Offer("norm times first vector is the original", form_first)]
                return [Offer("stored value is the inverse of the squared norm", form_inv)]
            return LoopSpec(inv, None, None, None, offers)

        def inner(L):
            i = L.parent.k + 1
            e = L.entry
            ae = A(e)

            def offers(L, ex, key, w0):
                if key == KEY:
                    def form_u(k, S):
                        a = S.mem[key]
                        return a == z3.Store(ae, i, V(a, i))

                    def form_o(k, S):
                        a = S.mem[key]
                        return z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < i), DOT(V(a, i), V(ae, i_)) == z3.If(i_ < k, 0, DOT(V(ae, i), V(ae, i_)))), patterns=[V(ae, i_)])

                    def form_s(k, S):
                        a = S.mem[key]
                        return z3.Implies(hyp(ae, i), DOT(V(a, i), x) == DOT(V(ae, i), x))
                    return [Offer("the other vectors are untouched", form_u), Offer("the vector is orthogonal to the vectors subtracted so far", form_o), Offer("the vector changes only along the preceding ones", form_s)]
                if key[3] == "f64" and len(key[1]) == 1 and ".ref.tmp" not in key[0]:
                    def form2(k, S):
                        s = S.mem[key]
                        a = A(View(ex, S))
                        return z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < k), MUL(z3.Select(s, i_), DOT(V(a, i_), V(a, i_))) == DOT(V(a, i), V(a, i_))), patterns=[z3.Select(s, i_)])

                    def facts2(k, S):
                        # the product of the coefficient stored last
                        s = S.mem[key]
                        a = A(View(ex, S))
                        return [mul_is_product(z3.simplify(beta(z3.Select(s, k - 1))), DOT(V(a, k - 1), V(a, k - 1)))]
                    return [Offer("coefficients are the projections on the preceding vectors", form2, facts2)]
                return []
            return LoopSpec(lambda L, v, k: [("iteration bounded (termination)", k <= i)], None, None, None, offers)

        def loop(L):
            return outer(L) if L.parent is None else inner(L)
        ctx.spec.loopfn = loop
        i, j = ctx.fresh("i*"), ctx.fresh("j*")
        if N == 1:
            ctx.nocover("loop")
        else:
            ctx.assume(i < j, j < n)

        def post(vw, rv):
            a = A(vw)
            r = [("number of vectors kept", zi(on(vw)) == n),
                 ("vectors are mutually orthogonal", z3.Implies(z3.And(i < j, j < n), DOT(V(a, i), V(a, j)) == 0)),
                 ("first direction kept", V(a, z3.IntVal(0)) == V(A0, z3.IntVal(0)) if not norm else MUL(onrm(vw, z3.IntVal(0)), DOT(V(a, z3.IntVal(0)), x)) == DOT(V(A0, z3.IntVal(0)), x))]
            if norm:
                r += [("one norm per vector", zi(onn(vw)) == n), ("unit length", DOT(V(a, q), V(a, q)) == 1), ("norms are positive", onrm(vw, q) > 0),
                      ("norm times vector differs from the original by a combination of the preceding ones", z3.Implies(hyp(a, q), MUL(onrm(vw, q), DOT(V(a, q), x)) == DOT(V(A0, q), x)))]
            else:
                r += [("differs from the original by a combination of the preceding ones", z3.Implies(hyp(a, q), DOT(V(a, q), x) == DOT(V(A0, q), x)))]
            return r
        ctx.run("drv_gsn" if norm else "drv_gs", [], post)
    fl = ["-DGV_D=%d" % D] + (["-DGV_N=%d" % N] if N else ["-DGV_DYN"]) + (["-DGV_IT=" + it] if it != "size_t" else [])
    return Entry("gs%s/%s/%d%s" % ("n" if norm else "", N or "dynamic", D, "" if it == "size_t" else "/" + it), "gs.cpp", fn, fl, fmode="real", budget=30)


def bilinear(D):
    """the contracts of the vector operations, from the code"""
    def fn(ctx):
        oa, ob, oc = ctx.obs("ob_a"), ctx.obs("ob_b"), ctx.obs("ob_c")
        v0 = View(ctx.ex, ctx.st.clone())
        R = range(D)

        def zr(v):
            return v if z3.is_expr(v) else z3.RealVal(v)
        A, B = [zr(oa(v0, i)) for i in R], [zr(ob(v0, i)) for i in R]
        X = [z3.Real("x%d" % i) for i in R]
        s = z3.Real("s")

        def dot(a, b):
            return sum(x * y for x, y in zip(a, b))

        def keep(vw, what):
            return [("operands untouched", z3.And(*[zr(o(vw, i)) == old[i] for o, old, n in ((oa, A, "a"), (ob, B, "b")) if n in what for i in R]))]

        def lin(o, rhs, k):
            return lambda vw, rv: [("linear in the scalar product with any vector", dot([zr(o(vw, i)) for i in R], X) == rhs)] + keep(vw, k)
        ctx.run("drv_add", [], lin(oc, dot(A, X) + dot(B, X), "ab"))
        ctx.run("drv_sub", [], lin(oc, dot(A, X) - dot(B, X), "ab"))
        ctx.run("drv_iadd", [], lin(oa, dot(A, X) + dot(B, X), "b"))
        ctx.run("drv_isub", [], lin(oa, dot(A, X) - dot(B, X), "b"))
        ctx.run("drv_muls", [s], lin(oc, s * dot(A, X), "ab"))
        ctx.run("drv_lmul", [s], lin(oc, s * dot(A, X), "ab"))
        ctx.run("drv_imuls", [s], lin(oa, s * dot(A, X), "b"))

        def quot(o, k):
            def post(vw, rv):
                N = [zr(o(vw, i)) for i in R]
                # lemma: the coordinates of the quotient times the divisor
                r = [("coordinate %d of the quotient" % i, s * N[i] == A[i]) for i in R]
                for n, g in r:
                    ctx.ex.oblige(vw.st, n, g)
                    vw.st.assume(g)
                    vw.st.assume(s * N[i_of(n)] * X[i_of(n)] == A[i_of(n)] * X[i_of(n)])
                g = s * dot(N, X) == dot(A, X)
                return [("linear in the scalar product with any vector", g)] + keep(vw, k)
            return post

        def i_of(n):
            return int(n.split()[1])
        ctx.assume(s != 0)
        ctx.run("drv_divs", [s], quot(oc, "ab"))
        ctx.run("drv_idivs", [s], quot(oa, "b"))
        for n, xs, ys in (("drv_dot", A, B), ("drv_dot_al", A, A), ("drv_sos", A, A)):
            ctx.run(n, [], lambda vw, rv, xs=xs, ys=ys: [("the scalar product", zr(rv) == dot(xs, ys))] + keep(vw, "ab"))
        ctx.run("drv_norm", [], lambda vw, rv: [("not negative", zr(rv) >= 0), ("its square is the scalar product with itself", zr(rv) * zr(rv) == dot(A, A))] + keep(vw, "ab"))
    return Entry("bilinear/%d" % D, "vec.cpp", fn, ("-DGV_D=%d" % D, "-DGV_T=double", "-DGV_S=double"), fmode="real")


def abstract(ctx_name="quotient"):
    """consequences of linearity used for quotients: dividing by the norm gives
    a unit vector, and keeps orthogonality"""
    def fn(ctx):
        s, nv, nn, vv, vn, nx, vx = z3.Reals("s NV NN VV VN NX VX")      # N = v / s
        st = ctx.st
        st.assume(z3.And(s != 0, s * nv == vv, s * nn == vn, vn == nv, s * nx == vx))
        b = st.clone()
        b.assume(s * s == vv)
        ctx.ex.oblige(b, "a vector divided by its norm has unit length", nn == 1)
        b = st.clone()
        b.assume(vx == 0)
        ctx.ex.oblige(b, "a multiple of a vector is orthogonal to what the vector is orthogonal to", nx == 0)
    return Entry("quotient", "gs.cpp", fn, ["-DGV_D=3", "-DGV_N=3"], fmode="real")


def empty(norm):
    def fn(ctx):
        on, onn = ctx.obs("ob_n"), ctx.obs("ob_nn")
        v0 = View(ctx.ex, ctx.st.clone())
        ctx.assume(zi(on(v0)) == 0)
        ctx.nocover("loop")
        ctx.run("drv_gsn" if norm else "drv_gs", [], lambda vw, rv: [("stays empty", zi(on(vw)) == 0)] + ([("no norms", zi(onn(vw)) == 0)] if norm else []))
    return Entry("empty/%d" % norm, "gs.cpp", fn, ["-DGV_D=3", "-DGV_DYN"], fmode="real")


def entries():
    E = [empty(0), empty(1)]
    for D in (3, 4, 5):
        E.append(bilinear(D))
    E.append(abstract())
    for norm in (0, 1):
        for D in (3, 4):
            E.append(gs(D, None, norm))
        for N, D in ((1, 3), (2, 3), (3, 3), (3, 4), (4, 4)):
            E.append(gs(D, N, norm))
        E.append(gs(3, None, norm, "int"))
        E.append(gs(3, 3, norm, "unsigned"))
    return E
