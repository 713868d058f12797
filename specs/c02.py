from .meshlib import *
from gtv.stdlib import card, enum_, EMPTY, ins
HARNESS = [("h_c02.cpp", []), ("h_c02.cpp", ["-DRES6"])]
SetS = SetSort
SetA = z3.ArraySort(INT, SetS)


def out_offers(expect_len, expect_elem):
    """candidate invariants for the result container: entries of the processed
    elements are final, the others untouched"""
    def offers(L, ex, key, v0):
        kinds = [s[0] for s in key[1]]
        i, j = z3.Ints("i!o j!o")
        r = []
        if key[3] == "len" and kinds == ["buf"]:
            r.append(Offer("list lengths of the processed elements", lambda k, S: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.Select(S.mem[key], i) == expect_len(i)), patterns=[z3.Select(S.mem[key], i)])))
            r.append(Offer("lists of the remaining elements untouched", lambda k, S: z3.ForAll([i], z3.Implies(i >= k, z3.Select(S.mem[key], i) == z3.Select(ex.lift(v0, S.mem[key].sort()), i)), patterns=[z3.Select(S.mem[key], i)])))
        if key[3] == "i64" and kinds == ["buf", "buf"]:
            r.append(Offer("lists of the processed elements", lambda k, S: z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < k, 0 <= j, j < expect_len(i)), z3.Select(z3.Select(S.mem[key], i), j) == expect_elem(i, j)), patterns=[z3.Select(z3.Select(S.mem[key], i), j)])))
        return r
    return offers


def mk_asc(dim, S, T, res=None):
    H, Lo = max(S, T), min(S, T)

    def fn(ctx):
        m = Mesh(ctx, dim)
        st = ctx.st
        v = View(ctx.ex, st)
        on, olen, oel = ctx.obs("ob_on"), ctx.obs("ob_olen"), ctx.obs("ob_o")
        n = zi(m.n(v, S))
        if S >= T:
            w = Walk(m, S, T, lambda acc, o, x: ins(acc, x), SetS, one=None, tag="c", base="0")
            w.lv = [l for l in w.lv if l[0] != "full"]

            def D(i):
                return w.elem(v, S, i, EMPTY, i)
        else:
            w = Walk(m, H, Lo, lambda acc, o, x: z3.Store(acc, x, ins(z3.Select(acc, x), o)), SetA, tag="c")

            E0 = z3.K(INT, EMPTY)

            def D(i):
                return z3.Select(w.S["full"](zi(m.n(v, H)), E0), i)
        oo = out_offers(lambda i: card(D(i)), lambda i, j: z3.Select(enum_(D(i)), j))

        def loop(L):
            if S >= T:
                if L.name == "0":
                    def facts(L, vv, k):
                        r = [k < (1 << 60)]
                        if S == dim:
                            r += [m.wf_cell(v, k), m.wf_ring(v, k, z3.IntVal(0))]
                        if S == 2 and dim == 3:
                            r += [m.wf_sub(v, k, z3.IntVal(0))]
                        if S == 1:
                            r.append(m.wf_edge(v, k))
                        return r
                    return LoopSpec(lambda L, vv, k: [("iteration bounded (termination)", k <= n)], facts, None, None, oo)
                w.one = L.parent.k if L.name == "0.0" else w.one
                return w.loopspec(L, None, acc_offers=SetS)
            if L.name.split(".")[0] == "0":
                return w.loopspec(L, None, acc_offers=SetA)
            if L.name == "1":
                return LoopSpec(lambda L, vv, k: [("iteration bounded (termination)", k <= n)], None, None, None, oo)
        ctx.spec.loopfn = loop

        def post(vw, r):
            i, j = z3.Ints("i* j*")
            vw.st.assume(z3.And(i >= 0, i < n, j >= 0, j < card(D(i)), card(D(i)) < (1 << 60)))
            return [("result has one list per start element", zi(on(vw)) == n),
                    ("every list has exactly as many entries as there are incident elements", zi(olen(vw, i)) == card(D(i))),
                    ("every list is the ascending enumeration of the incident elements", zi(oel(vw, i, j)) == z3.Select(enum_(D(i)), j))]
        ctx.run("drv_asc", [], post)
    nm = "conn_asc%dD_%d%d%s" % (dim, S, T, "_res%d" % res if res else "")
    return Entry(nm, "conn.cpp", fn, ("-DGV_DIM=%d" % dim, "-DGV_S=%d" % S, "-DGV_T=%d" % T) + (("-DGV_RES=%d" % res,) if res else ()))


def entries():
    r = []
    for dim in (3, 2):
        for res in ((None, 6) if dim == 3 else (None,)):
            for S in range(dim, -1, -1):
                for T in range(dim, -1, -1):
                    r.append(mk_asc(dim, S, T, res))
    return r
