"""Signature of a mesh: a function of the values stored in the elements."""
import re
from gtv import ir
from .meshlib import *
from .c12 import eqv
HARNESS = [("h_c20.cpp", ["-DP2"]), ("h_c20.cpp", ["-DP3"]), ("h_c20.cpp", ["-DPR"])]
HARNESS_WHAT = "equal random meshes built in memory with different previous contents, in different ways of construction (growing, copying, assigning, moving), and meshes differing in one element"
EXPLORED = "proved: for meshes of any size the signature is the fold of one step over the values stored in the elements, so it is equal for two meshes with equal elements, it is the value reported afterwards, and no element is modified; bounded (harness): meshes with equal elements built in memory with different previous contents"
ASSUMPTIONS = ["std::hash of a double is a function of its value (contract)", "one step of the hash (an expression over two words) is compared with itself, no property of the mixing function is assumed or proved (collisions are possible)"]
LEVEL = "proved"
F1 = {"c": ["ci", "cb", "cf"], "f": ["fi", "fl", "fr", "fnl", "fnr", "ff"], "e": ["ei", "ea", "eb"], "v": ["vi"]}
FK = {"c": ["cc"], "f": ["fc"], "v": ["vx"], "e": []}


def hash_contract(ctx):
    hd = z3.Function("hash_double", ctx.ex.F, INT)
    ctx.contract(r"^std::hash<double>::operator\(\)", lambda C: hd(C.ex.flit(C.args[1])) % (1 << 64))


def step_contract(ctx):
    """one step writes only the hash, its new value is a function of the old one and of the added value (proved by the entries step/*)"""
    ex = ctx.ex
    fns = {"long": z3.Function("step_l", INT, INT, INT), "int": z3.Function("step_i", INT, INT, INT), "double": z3.Function("step_d", INT, ex.F, INT)}

    def con(C):
        ty = re.search(r"addToHash<(?:unsigned )?(\w+)", C.dem).group(1)
        t = {"long": ir.IntTy(64), "int": ir.IntTy(32), "double": ir.F64}[ty]
        h, v = ex.load(C.st, C.args[0], ir.IntTy(64)), ex.load(C.st, C.args[1], t)
        ex.store(C.st, C.args[0], ir.IntTy(64), fns[ty](zi(h), ex.flit(v) if ty == "double" else zi(v)) % (1 << 64))
    ctx.contract(r"::addToHash<", con)


def step(T, k, a, b):
    def fn(ctx):
        hash_contract(ctx)
        o = {n: ctx.obs("ob_" + n) for n in "hkvwxyij"}
        v0 = View(ctx.ex, ctx.st.clone())
        ctx.assume(zi(o["h"](v0)) == zi(o["k"](v0)), eqv(ctx, o[a](v0), o[b](v0)))
        ctx.run("st_" + T, [], lambda vw, rv: [("equal hashes stay equal", zi(o["h"](vw)) == zi(o["k"](vw)))] + [("%s untouched" % n, eqv(ctx, o[n](vw), o[n](v0))) for n in "vwxyij"])
    return Entry("step/" + k, "sig.cpp", fn, ("-DGV_DIM=3",), fmode="uf")


def mk(dim, res=None):
    kinds = ["c", "f", "e", "v"] if dim == 3 else ["c", "f", "v"]
    F = dict(F1, f=["fi", "ea", "eb", "fl", "fr", "fnl", "fnr", "ff"]) if dim == 2 else F1

    def fn(ctx):
        ctx.spec.unroll_const = True
        ex = ctx.ex
        step_contract(ctx)
        names = ["n" + k for k in kinds] + sum([F[k] + FK[k] for k in kinds], []) + (["ns", "s"] if dim == 3 else []) + ["sig"]
        A = {n: ctx.obs("a_" + n) for n in names}
        B = {n: ctx.obs("b_" + n) for n in names}
        SP = {t: ctx.obs("sp_" + t) for t in "lid"}
        v0 = View(ex, ctx.st.clone())
        a = {n: (lambda *i, n=n: A[n](v0, *i)) for n in names}
        N = {k: zi(a["n" + k]()) for k in kinds}
        for k in kinds:
            ctx.assume(N[k] < (1 << 40))
        H = {k: z3.Function("fold_" + k, INT, INT) for k in kinds}
        G = z3.Function("fold_sub", INT, INT, INT)
        Z = z3.IntVal

        def stp(t, h, v):
            return zi(SP[t](v0, h, v))

        def chain(k, h, i):
            """the hash extended by element i of a kind; sub-elements by the inner fold"""
            cons = []
            if k == "v":
                h = stp("l", h, a["vi"](i))
                for q in range(dim):
                    h = stp("d", h, a["vx"](i, Z(q)))
                return h, cons
            if k == "e":
                for n in ("ei", "ea", "eb"):
                    h = stp("l", h, a[n](i))
                return h, cons
            if k == "c":
                h = stp("l", stp("l", h, a["ci"](i)), a["cb"](i))
            else:
                h = stp("l", h, a["fi"](i))
                if dim == 2:
                    h = stp("l", stp("l", h, a["ea"](i)), a["eb"](i))
                else:
                    ns = zi(a["ns"](i))
                    cons += [G(i, 0) == stp("l", h, ns), ns >= 0, ns < (1 << 40)]
                    h = G(i, ns)
                for n in ("fl", "fr", "fnl", "fnr"):
                    h = stp("l", h, a[n](i))
            for q in range(dim):
                h = stp("d", h, a[k + "c"](i, Z(q)))
            return stp("i", h, a[k + "f"](i)), cons
        base, h = [], Z(0)
        for k in kinds:
            base.append(H[k](0) == stp("l", h, N[k]))
            h = H[k](N[k])
        final = h
        ctx.assume(*base)

        def eqs(k, i):
            """element i of the other mesh equals that of the first"""
            r = [eqv(ctx, B[n](v0, i), A[n](v0, i)) for n in F[k]] + [eqv(ctx, B[n](v0, i, Z(q)), A[n](v0, i, Z(q))) for n in FK[k] for q in range(dim)]
            if k == "f" and dim == 3:
                r.append(zi(B["ns"](v0, i)) == zi(A["ns"](v0, i)))
            return r

        def spec(other):
            def loop(L):
                d = L.fn.dem
                m = re.search(r"HashOfMeshElements<(\d)u", d)
                kind = {dim: "c", dim - 1: "f", 0: "v"}.get(int(m.group(1)), "e") if m else None
                if kind:
                    n = N[kind]

                    def facts(L, vw, k):
                        v, cons = chain(kind, H[kind](k), k)
                        return cons + [H[kind](k + 1) == v] + (eqs(kind, k) if other else [])

                    def offers(L, ex, key, w0):
                        if key[3] == "i64" and not key[1]:
                            return [Offer("hash of the processed elements", lambda k, S: S.mem[key] == H[kind](k))]
                        return []
                    return LoopSpec(lambda L, vw, k: [("iteration bounded (termination)", k <= n)], facts, facts, None, offers)
                if dim == 3 and "addContentToHash" in d and "MeshElement<3u, 2u" in d and L.parent is not None:
                    i = L.parent.k
                    ns = zi(a["ns"](i))

                    def facts(L, vw, k):
                        return [G(i, k + 1) == stp("l", G(i, k), a["s"](i, k))] + ([zi(B["s"](v0, i, k)) == zi(A["s"](v0, i, k)), zi(B["ns"](v0, i)) == ns] if other else [])

                    def offers(L, ex, key, w0):
                        if key[3] == "i64" and not key[1]:
                            return [Offer("hash of the processed sub-elements", lambda k, S: S.mem[key] == G(i, k))]
                        return []
                    return LoopSpec(lambda L, vw, k: [("iteration bounded (termination)", k <= ns)], facts, facts, None, offers)
                return LoopSpec(lambda L, vw, k: [], None, None, None, lambda *x: [])
            return loop
        P = {k: ctx.fresh(k + "*") for k in kinds}
        q = ctx.fresh("q*")

        def same(vw, O, w):
            r = []
            for k in kinds:
                r.append(("number of %s untouched" % w[k], zi(O["n" + k](vw)) == zi(O["n" + k](v0))))
                r += [("%s of the elements untouched" % n, eqv(ctx, O[n](vw, P[k]), O[n](v0, P[k]))) for n in F[k]]
                r += [("%s of the elements untouched" % n, eqv(ctx, O[n](vw, P[k], Z(c)), O[n](v0, P[k], Z(c)))) for n in FK[k] for c in range(dim)]
            if dim == 3:
                r += [("number of sub-elements untouched", zi(O["ns"](vw, P["f"])) == zi(O["ns"](v0, P["f"]))), ("sub-elements untouched", zi(O["s"](vw, P["f"], q)) == zi(O["s"](v0, P["f"], q)))]
            return r
        W = {"c": "cells", "f": "faces", "e": "edges", "v": "vertices"}

        def post(O):
            return lambda vw, rv: [("signature is the fold over the stored values", zi(rv) == final), ("reported afterwards", zi(O["sig"](vw)) == zi(rv))] + same(vw, A, W) + same(vw, B, W)
        ctx.spec.loopfn = spec(False)
        ctx.run("drv_a", [], post(A))
        for k in kinds:
            ctx.assume(zi(B["n" + k](v0)) == N[k])
        ctx.spec.loopfn = spec(True)
        ctx.run("drv_b", [], post(B))
    return Entry("signature/%d%s" % (dim, "" if res is None else "/" + res), "sig.cpp", fn, ("-DGV_DIM=%d" % dim,) + (() if res is None else ("-DGV_RES=" + res,)), fmode="uf")


def entries():
    return [step("l", "index", "v", "w"), step("d", "coordinate", "x", "y"), step("i", "flag", "i", "j"), mk(3), mk(2), mk(3, "6")]
