"""Centers, measures, normals, distances, orientation."""
from .meshlib import *
from fractions import Fraction
HARNESS = [("h_c11.cpp", ["-DP2"]), ("h_c11.cpp", ["-DP3"]), ("h_c11.cpp", [])]
HARNESS_WHAT = "random polygonal and prismatic meshes under random affine maps, permuted, with free sides and with boundary cells; every method, against Newell area vectors and the divergence theorem"
LEVEL = "proved"
EXPLORED = "proved: centers, distances, center differences, edge orientation (every mesh); bounded only (harness): measures and normals"
ASSUMPTIONS = ["the measures and normals are compared with exact area vectors and volumes on random meshes only (bounded)"]
import gtv.vc


def zr(v):
    return z3.RealVal(v) if isinstance(v, (int, Fraction)) else v


def args(dim, res, extra):
    return tuple(["-DGV_DIM=%d" % dim] + (["-DGV_RES=%d" % res] if res else []) + list(extra))


def between(op, dim, bnd, res=None):
    def fn(ctx):
        m = Mesh(ctx, dim)
        ob = {k: ctx.obs("ob_" + k) for k in ("ccen", "bcen", "fcen", "fidx", "dn", "d", "wn", "w")}
        v0 = View(ctx.ex, ctx.st.clone())
        R = range(dim)
        nf, nc, nb = zi(m.nf(v0)), zi(m.nc(v0)), zi(m.nb(v0))
        f = ctx.fresh("f*")
        ctx.assume(nf < (1 << 60), nc < (1 << 60), nb < (1 << 60), f < nf, nb > 0 if bnd else nb == 0)

        def wf(i):
            """a face: its index is its position; its sides hold cells, or are free
            (without boundary cells), or tagged boundary cells; not both open"""
            l, r = zi(m.left(v0, i)), zi(m.right(v0, i))

            def side(x):
                return z3.Or(z3.And(x >= 0, x < nc), z3.And(x >= BOUND, x < BOUND + nb) if bnd else x == INV)
            return z3.Implies(z3.And(i >= 0, i < nf), z3.And(zi(ob["fidx"](v0, i)) == i, side(l), side(r), z3.Not(z3.And(l >= BOUND, r >= BOUND))))
        ctx.assume(wf(f))
        l, r = zi(m.left(v0, f)), zi(m.right(v0, f))
        A, B = [z3.Real("left%d" % d) for d in R], [z3.Real("right%d" % d) for d in R]
        for P, x in ((A, l), (B, r)):
            for d in R:
                ctx.assume(z3.Implies(x < BOUND, P[d] == zr(ob["ccen"](v0, x, d))))
                ctx.assume(z3.Implies(x >= BOUND, P[d] == (zr(ob["bcen"](v0, x - BOUND, d)) if bnd else zr(ob["fcen"](v0, f, d)))))
        D = [z3.Real("dif%d" % d) for d in R]
        for d in R:
            ctx.assume(D[d] == B[d] - A[d])
        q = z3.Real("q")
        ctx.assume(q == sum(x * x for x in D))

        def offers(L, ex, key, w0):
            if key[3] != "f64":
                return []
            sh = [s[0] for s in key[1]]
            if op == "dist" and len(sh) == 1:
                def form(k, S):
                    x = z3.Select(S.mem[key], f)
                    return z3.Implies(f < k, z3.And(x >= 0, x * x == q))
                return [Offer("the distance of a processed face is that of its centers", form)]
            if op == "diff" and len(sh) == 2 and key[0][0] != "@":
                return [Offer("coordinate %d of a processed face" % d, lambda k, S, d=d: z3.Implies(f < k, seln(S.mem[key], [f, z3.IntVal(d)]) == D[d])) for d in R]
            return []

        def inv(L, vw, k):
            return [("iteration bounded (termination)", k <= nf)]

        def facts(L, vw, k):
            return [wf(k)]
        ctx.spec.loopfn = lambda L: LoopSpec(inv, facts, facts, None, offers) if L.parent is None else None
        ctx.nocover("runtime|exceptional|loop 1" if bnd else "loop 1")

        def post(vw, rv):
            same = ("mesh untouched", z3.And(zi(m.left(vw, f)) == l, zi(m.right(vw, f)) == r, zi(m.nf(vw)) == nf, *[zr(ob["fcen"](vw, f, d)) == zr(ob["fcen"](v0, f, d)) for d in R]))
            if op == "dist":
                x = zr(ob["d"](vw, f))
                return [("one distance per face", zi(ob["dn"](vw)) == nf), ("not negative", x >= 0), ("its square is that of the difference of the centers", x * x == q), same]
            return [("one vector per face", zi(ob["wn"](vw)) == nf)] + [("coordinate %d: right center minus left center" % d, zr(ob["w"](vw, f, d)) == D[d]) for d in R] + [same]
        ctx.run("drv_" + op, [], post)
    return Entry("%s/%dD%s%s" % (op, dim, "/boundary" if bnd else "", "/res%d" % res if res else ""), "geom.cpp", fn, args(dim, res, ["-DGV_BETWEEN"]))


def left(dim, idx):
    """the orientation of an edge is the sign of the triple product"""
    def fn(ctx):
        m = Mesh(ctx, dim)
        ob = {k: ctx.obs("ob_" + k) for k in ("ccen", "fcen", "vert") + (("n",) if dim == 3 else ())}
        v0 = View(ctx.ex, ctx.st.clone())
        f, e = ctx.fresh("f*"), ctx.fresh("e*")
        nfc = m.nc(v0) if dim == 2 else m.nf(v0)
        ne = m.nf(v0) if dim == 2 else m.ne(v0)
        ctx.assume(f < zi(nfc), e < zi(ne))
        a, b = zi(m.ea(v0, e)), zi(m.eb(v0, e))
        ctx.assume(a < zi(m.nv(v0)), b < zi(m.nv(v0)))
        R = range(dim)
        cen = ob["ccen"] if dim == 2 else ob["fcen"]
        P = [zr(ob["vert"](v0, a, d)) - zr(cen(v0, f, d)) for d in R]
        Q = [zr(ob["vert"](v0, b, d)) - zr(cen(v0, f, d)) for d in R]
        if dim == 2:
            g = P[0] * Q[1] - P[1] * Q[0]
        else:
            N = [zr(ob["n"](v0, d)) for d in R]
            g = sum(N[d] * (P[(d + 1) % 3] * Q[(d + 2) % 3] - P[(d + 2) % 3] * Q[(d + 1) % 3]) for d in R)
        g = z3.simplify(g, som=True)

        def post(vw, rv):
            rb = rv if z3.is_expr(rv) and z3.is_bool(rv) else (z3.BoolVal(rv) if isinstance(rv, bool) else rv != 0)
            return [("left exactly when the first vertex, the second vertex and the normal are oriented positively around the center", rb == (g > 0))]
        ctx.run("drv_left" + ("i" if idx else ""), [f, e], post)
    return Entry("edgeIsLeft/%dD%s" % (dim, "/indices" if idx else ""), "geom.cpp", fn, args(dim, None, ["-DGV_LEFT"]))


def centers(dim, res=None):
    def fn(ctx):
        m = Mesh(ctx, dim)
        vert = ctx.obs("ob_vert")
        kn, k1, k2 = ctx.obs("ob_kn"), ctx.obs("ob_k1"), ctx.obs("ob_k2")
        k3 = ctx.obs("ob_k3") if dim == 3 else None
        v0 = View(ctx.ex, ctx.st.clone())
        R = range(dim)
        F = lambda n, *a: [z3.Function("%s_%d" % (n, d), *([INT] * len(a)), z3.RealSort()) for d in R]
        C1, C2, C3 = F("center1", 0), F("center2", 0), F("center3", 0)
        S2, S3 = F("sum2", 0, 0), F("sum3", 0, 0)
        ne = zi(m.nf(v0) if dim == 2 else m.ne(v0))
        n2 = zi(m.nc(v0) if dim == 2 else m.nf(v0))
        nc, nv = zi(m.nc(v0)), zi(m.nv(v0))
        ctx.assume(ne < (1 << 60), n2 < (1 << 60), nc < (1 << 60), nv < (1 << 60))
        w2 = Walk(m, 2, 1, None, tag="c2", base="1")
        w3 = Walk(m, 3, 2, None, tag="c3", base="2") if dim == 3 else None
        for w in (w2, w3):
            if w:
                w.lv = [l for l in w.lv if l[0] != "full"]
        cnt2 = (lambda i: rlen(i)) if dim == 2 else (lambda i: zi(m.nsub(v0, i)))
        sub2 = (lambda i, j: ring(i, j)) if dim == 2 else (lambda i, j: zi(m.sub(v0, i, j)))

        def def1(e):
            a, b = zi(m.ea(v0, e)), zi(m.eb(v0, e))
            return [C1[d](e) == (zr(vert(v0, a, d)) + zr(vert(v0, b, d))) * z3.Q(1, 2) for d in R] + [z3.Implies(z3.And(e >= 0, e < ne), z3.And(a < nv, b < nv))]

        def defc(C, S, i, n):
            return [C[d](i) == S[d](i, n) / z3.ToReal(n) for d in R] + [S[d](i, z3.IntVal(0)) == 0 for d in R]

        def unf(S, C, i, k, sub):
            return [S[d](i, k + 1) == S[d](i, k) + C[d](sub(i, k)) for d in R]
        if dim == 2:
            stages = {"0": (C1, ne), "1": (C2, n2)}
        else:
            stages = {"0": (C1, ne), "1": (C2, n2), "2": (C3, nc)}
        i_ = z3.Int("i!c")

        def is_arr(key):
            return key[3] == "f64" and [s[0] for s in key[1]] == ["buf", "arr"]

        def outer(L):
            C, n = stages[L.name]

            def offers(L, ex, key, w0):
                if not is_arr(key):
                    return []
                r = []
                for d in R:
                    r.append(Offer("coordinate %d of the centers of the processed elements" % d, lambda k, S, d=d: z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < k), seln(S.mem[key], [i_, z3.IntVal(d)]) == C[d](i_)), patterns=[z3.Select(S.mem[key], i_)])))
                    r.append(Offer("coordinate %d of the remaining elements is zero" % d, lambda k, S, d=d: z3.ForAll([i_], z3.Implies(z3.And(k <= i_, i_ < n), seln(S.mem[key], [i_, z3.IntVal(d)]) == 0), patterns=[z3.Select(S.mem[key], i_)])))
                return r

            def facts(L, vw, k):
                if L.name == "0":
                    return def1(k)
                i = int(L.name)
                r = defc(C, S2 if i == 1 else S3, k, cnt2(k) if i == 1 else rlen(k))
                if i == dim - 1:
                    r += [m.wf_cell(v0, k), m.wf_ring(v0, k, z3.IntVal(0))]
                else:
                    r += [m.wf_sub(v0, k, z3.IntVal(0))]
                return r
            return LoopSpec(lambda L, vw, k: [("iteration bounded (termination)", k <= n)], facts, facts, None, offers)

        def inner(L):
            two = L.name.startswith("1")
            w, S, Cs, sub = (w2, S2, C1, sub2) if two else (w3, S3, C2, lambda i, j: ring(i, j))
            i = w.one = L.parent.k

            def offers(L, ex, key, w0):
                if key[3] == "f64" and not key[1]:
                    return [Offer("number of visited sub-elements", lambda k, St: St.mem[key] == z3.ToReal(k))]
                if not is_arr(key):
                    return []
                r = [Offer("other elements untouched", lambda k, St: z3.ForAll([i_], z3.Implies(i_ != i, z3.Select(St.mem[key], i_) == z3.Select(ex.lift(w0, St.mem[key].sort()), i_)), patterns=[z3.Select(St.mem[key], i_)]))]
                for d in R:
                    r.append(Offer("coordinate %d: sum over the visited sub-elements" % d, lambda k, St, d=d: seln(St.mem[key], [i, z3.IntVal(d)]) == S[d](i, k),
                                   lambda k, St, d=d: [S[d](i, z3.IntVal(0)) == 0] + unf(S, Cs, i, k, sub) + [z3.Implies(k > 0, x) for x in unf(S, Cs, i, k - 1, sub)]))
                return r
            return w.loopspec(L, None, more_offers=offers)

        def loop(L):
            if L.name in stages:
                return outer(L)
            if "." in L.name and L.name.split(".")[0] in stages and L.name.split(".")[0] != "0":
                return inner(L)
            return None
        ctx.spec.loopfn = loop

        def post(vw, rv):
            r = []
            for D, C, n, ob in [(1, C1, ne, k1), (2, C2, n2, k2)] + ([(3, C3, nc, k3)] if dim == 3 else []):
                x = z3.Int("x%d*" % D)
                vw.st.assume(z3.And(x >= 0, x < n))
                r.append(("one center per element of dimension %d" % D, zi(kn(vw, D)) == n))
                r += [("dimension %d, coordinate %d: average of the centers of the sub-elements" % (D, d), zr(ob(vw, x, d)) == C[d](x)) for d in R]
            return r
        ctx.run("drv_centers", [], post)
    return Entry("centers/%dD%s" % (dim, "/res%d" % res if res else ""), "geom.cpp", fn, args(dim, res, ["-DGV_CENTERS"]))


def entries():
    E = []
    for dim, res in ((2, None), (3, None), (3, 6)):
        E.append(centers(dim, res))
        for op in ("dist", "diff"):
            for bnd in (0, 1):
                E.append(between(op, dim, bnd, res))
    E += [left(2, 0), left(2, 1), left(3, 0)]
    return E
