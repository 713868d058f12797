"""Sub-element lists: sequence contracts, overflow and out-of-range refusal, iteration."""
from .meshlib import *
HARNESS = [("h_c06.cpp", [])]
HARNESS_WHAT = "random append/remove/iterate sequences against std::vector, capacities 1..300 and dynamic"
app1 = z3.Function("app1", Tr, INT, Tr)
SEQ = z3.Function("SEQ", INT, Tr)      # trace after the first k entries


def mk(op, R, bits):
    IN = (1 << bits) - 1

    def fn(ctx):
        st = ctx.st
        v0 = View(ctx.ex, st)
        on, oe = ctx.obs("ob_n"), ctx.obs("ob_e")
        n0 = zi(on(v0))
        ctx.assume(n0 >= 0, n0 <= R if R else n0 < (1 << 31))
        j = z3.Int("j*")
        e0 = z3.Function("e0", INT, INT)

        def old(i):
            return e0(i)
        q = z3.Int("q")
        s0 = v0

        def E(vw, i):
            return zi(oe(vw, i))
        b0 = z3.Int("b0")

        def inrange(x):
            return z3.And(x >= 0, x <= IN)
        st0 = ctx.st.clone()
        v0 = View(ctx.ex, st0)

        def old(vw, i):       # the old entry, with its range
            x = E(v0, i)
            vw.st.assume(inrange(x))
            return x

        def seq(vw, n1, f, nm):
            vw.st.assume(z3.And(j >= 0, j < n1))
            return [("number of entries", zi(on(vw)) == n1), (nm, E(vw, j) == f(vw, j))]
        args, throws = [], None
        if op in ("add", "push"):
            x = ctx.fresh("x", bits=bits)
            args = [x]
            full = (n0 >= R) if R else z3.BoolVal(False)

            def post(vw, rv):
                o = old(vw, j)
                return [("appending succeeds only below the capacity", z3.Not(full))] + seq(vw, n0 + 1, lambda vw, i: z3.If(i == n0, x, o), "entries are the old ones followed by the new one")
            if R:
                def throws(vw):
                    o = old(vw, j)
                    return [("refused only when full", full)] + seq(vw, n0, lambda vw, i: o, "unchanged")
        elif op == "remove":
            i = ctx.fresh("i", bits=32)
            args = [i]

            def post(vw, rv):
                a, b = old(vw, j), old(vw, j + 1)
                return [("removal succeeds only for an existing position", i < n0)] + seq(vw, n0 - 1, lambda vw, k: z3.If(k < i, a, b), "later entries move down by one, earlier ones stay")

            def throws(vw):
                o = old(vw, j)
                return [("refused only for a missing position", i >= n0)] + seq(vw, n0, lambda vw, k: o, "unchanged")

            def loop(L):
                # entries below the current position are shifted, the others are the old ones
                def offers(L, ex, key, w0):
                    if key[3] not in ("i64", "i32") or len(key[1]) < 1:
                        return []
                    a0 = ex.lift(w0, ex.st_sort(key) if hasattr(ex, "st_sort") else None) if False else w0
                    t = z3.Int("t!o")

                    def form(k, S):
                        A = S.mem[key]
                        if not (is_sym(A) and z3.is_array(A)):
                            return z3.BoolVal(True)
                        A0 = ex.lift(a0, A.sort())
                        return z3.ForAll([t], z3.Select(A, t) == z3.If(z3.And(t >= i, t < i + k), z3.Select(A0, t + 1), z3.Select(A0, t)), patterns=[z3.Select(A, t)])
                    return [Offer("removed position filled from the right up to here", form)]
                return LoopSpec(lambda L, v, k: [("iteration bounded (termination)", i + k <= n0 - 1)], None, None, None, offers)
            ctx.spec.loopfn = loop
        elif op == "count":
            def post(vw, rv):
                o = old(vw, j)
                return [("reports the number of entries", zi(rv) == n0)] + seq(vw, n0, lambda vw, i: o, "unchanged")
        elif op == "reserve":
            def post(vw, rv):
                return [("reports the capacity", zi(rv) == R)]
        elif op == "get":
            i = ctx.fresh("i")
            ctx.assume(i < n0)
            args = [i]

            def post(vw, rv):
                return [("reads the entry", zi(rv) == old(vw, i))]
        elif op in ("iter", "citer", "cciter"):
            t0 = z3.Const("t0", Tr)
            ctx.assume(SEQ(0) == t0)
            st.ghost["tr"] = t0

            def gv(C):
                C.st.ghost["tr"] = app1(C.st.ghost["tr"], zi(C.args[0]))
            ctx.contract(r"^gv_visit$", gv)

            def loop(L):
                def facts(L, v, k):
                    return [SEQ(k + 1) == app1(SEQ(k), E(v0, k)), inrange(E(v0, k))]
                return LoopSpec(lambda L, v, k: [("visited exactly the first entries in order", v.ghost["tr"] == SEQ(k)), ("iteration bounded (termination)", k <= n0)], facts)
            ctx.spec.loopfn = loop

            def post(vw, rv):
                o = old(vw, j)
                return [("iteration visits exactly the entries in order", vw.ghost["tr"] == SEQ(n0))] + seq(vw, n0, lambda vw, i: o, "unchanged")
        elif op == "addremove":
            x = ctx.fresh("x", bits=bits)
            args = [x]
            if R:
                ctx.assume(n0 < R)
            ctx.spec.loopfn = lambda L: LoopSpec(lambda L, v, k: [])

            def post(vw, rv):
                o = old(vw, j)
                return seq(vw, n0, lambda vw, i: o, "appending and removing the last entry changes nothing")
        elif op == "fresh":
            def post(vw, rv):
                return [("a fresh list is empty", zi(on(vw)) == 0)]
        if op == "addremove" or (op == "remove" and R == 1):
            ctx.nocover(r"^loop .*an iteration completes")      # nothing is left to move
        ctx.run("drv_" + op, args, post, throws)
    return Entry("sub_%s_R%d_%d" % (op, R, bits), "sub.cpp", fn, ("-DGV_R=%d" % R,) + (("-DGV_IT=unsigned",) if bits == 32 else ()))


def entries():
    r = []
    for R, bits in ((0, 64), (1, 64), (6, 64), (6, 32), (300, 64), (0, 32)):
        for op in ("add", "push", "remove", "count", "get", "iter", "citer", "cciter", "addremove", "fresh") + (("reserve",) if R else ()):
            r.append(mk(op, R, bits))
    return r
