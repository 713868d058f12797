"""Neighborhoods: composition of two incidences."""
from .meshlib import *
from .c02 import out_offers
from gtv import ir
from gtv.stdlib import card, enum_, mem, EMPTY, ins
HARNESS = [("h_c03.cpp", ["-DP0", "-DGV_RESARG="]), ("h_c03.cpp", ["-DGV_RESARG="]), ("h_c03.cpp", ["-DGV_RESARG=,6"]), ("h_c03.cpp", ["-DD2"])]
HARNESS_WHAT = "random 2D and 3D meshes, every combination of start, connecting and connected dimension and both orders against the composition of incidences computed from an independent description"
LEVEL = "proved"
EXPLORED = "proved for all meshes and tables of connections: both orders, every combination of dimensions; the tables are those of C02; bounded (harness): the whole path from the mesh"
ASSUMPTIONS = ["the tables of connections of MeshConnections::connections by contract: one list per element, entries are elements (their contents are the subject of C02)",
               "std::set and std::map by contract (ascending enumeration, insertion keeps an existing entry)"]
SetS = SetSort
G = z3.Function("neigh_in", INT, INT, INT, SetS, SetS)      # element, list position, processed entries of the second list, set before
F = z3.Function("neigh", INT, INT, SetS)                     # element, processed entries of the first list


class Comp:
    """the two tables of connections (contract of MeshConnections::connections: C02) and the set of their composition"""

    def __init__(self, ctx, m, S, Cn, T, order):
        self.ctx, self.S, self.Cn, self.T = ctx, S, Cn, T
        for k in ("alen", "a", "blen", "b", "an", "bn"):
            setattr(self, k, ctx.obs("ob_" + k))
        self.v = View(ctx.ex, ctx.st)
        v = self.v
        self.nS, self.nC = zi(m.n(v, S)), zi(m.n(v, Cn))
        ctx.assume(zi(self.an(v)) == self.nS, zi(self.bn(v)) == self.nC)

        def give(root):
            def f(C):
                if order and "(Order)1" not in C.dem:
                    raise Unsupported("connections in another order")     # ascending neighborhoods may use either order
                C.ex.copy_region(C.st, C.args[0], Ptr(root), 24)
            return f
        if (S, Cn) != (Cn, T):
            ctx.contract(r"MeshConnections<%du, %du, \(Order\)[01]>::connections<" % (Cn, T), give("@g_b"))
        ctx.contract(r"MeshConnections<%du, %du, \(Order\)[01]>::connections<" % (S, Cn), give("@g_a"))
        if (S, Cn) == (Cn, T):
            self.blen, self.b = self.alen, self.a

    def la(self, e):
        return zi(self.alen(self.v, e))

    def first(self, e, j):
        return zi(self.a(self.v, e, j))

    def lb(self, x):
        return zi(self.blen(self.v, x))

    def second(self, x, k):
        return zi(self.b(self.v, x, k))

    def wf(self, e, j, k=None):
        """lengths of lists, entries are elements"""
        r = [self.la(e) < (1 << 60)]
        x = self.first(e, j)
        r += [z3.Implies(z3.And(e >= 0, e < self.nS, j >= 0, j < self.la(e)), z3.And(x >= 0, x < self.nC, self.lb(x) < (1 << 60)))]
        return r

    def gbase(self, e, j, A):
        return G(e, j, 0, A) == A

    def gstep(self, e, j, k, A):
        y = self.second(self.first(e, j), k)
        n = ins(G(e, j, k, A), y)
        return z3.Implies(k >= 0, G(e, j, k + 1, A) == (z3.If(y == e, G(e, j, k, A), n) if self.S == self.T else n))

    def fbase(self, e):
        return F(e, 0) == EMPTY

    def fstep(self, e, j):
        return z3.Implies(j >= 0, F(e, j + 1) == G(e, j, self.lb(self.first(e, j)), F(e, j)))

    def D(self, e):
        return F(e, self.la(e))


def asc(name, dim, S, Cn, T):
    def fn(ctx):
        ex = ctx.ex
        m = Mesh(ctx, dim)
        c = Comp(ctx, m, S, Cn, T, 0)
        on, olen, oel = ctx.obs("ob_on"), ctx.obs("ob_olen"), ctx.obs("ob_o")
        oo = out_offers(lambda i: card(c.D(i)), lambda i, j: z3.Select(enum_(c.D(i)), j))

        def dom_offer(form, facts):
            def offers(L, ex, key, v0):
                if key[3] == "dom" and not key[1]:
                    return [Offer("set holds exactly the incident elements met so far", lambda k, St: St.mem[key] == form(L, ex.lift(v0, SetS), k), lambda k, St: facts(L, ex.lift(v0, SetS), k))]
                return []
            return offers

        def loop(L):
            n = L.name.count(".")
            if n == 0:
                return LoopSpec(lambda L, v, k: [("iteration bounded (termination)", k <= c.nS)], lambda L, v, k: [c.fbase(k)] + c.wf(k, z3.IntVal(0)), None, None, oo)
            if n == 1:
                e = L.parent.k
                f = lambda L, v, k: c.wf(e, k) + c.wf(e, k - 1) + [c.fbase(e), c.fstep(e, k), c.fstep(e, k - 1)]
                return LoopSpec(lambda L, v, k: [("iteration bounded (termination)", k <= c.la(e))], f, f, None, dom_offer(lambda L, A, k: F(e, k), lambda L, A, k: [c.fbase(e), c.fstep(e, k), c.fstep(e, k - 1)]))
            e, j = L.parent.parent.k, L.parent.k
            x = c.first(e, j)
            fa = lambda A, k: [c.gbase(e, j, A), c.gstep(e, j, k, A), z3.Implies(k >= 1, c.gstep(e, j, k - 1, A))]
            return LoopSpec(lambda L, v, k: [("iteration bounded (termination)", k <= c.lb(x))], lambda L, v, k: c.wf(e, j), None, None, dom_offer(lambda L, A, k: G(e, j, k, A), lambda L, A, k: fa(A, k)))
        ctx.spec.ground_discover = True
        ctx.spec.loopfn = loop

        def post(vw, r):
            i, j = z3.Ints("i* j*")
            vw.st.assume(z3.And(i >= 0, i < c.nS, j >= 0, j < card(c.D(i)), card(c.D(i)) < (1 << 60)))
            return [("result has one list per start element", zi(on(vw)) == c.nS),
                    ("every list has exactly as many entries as there are neighbors", zi(olen(vw, i)) == card(c.D(i))),
                    ("every list is the ascending enumeration of the neighbors", zi(oel(vw, i, j)) == z3.Select(enum_(c.D(i)), j))]
        ctx.run("drv_asc", [], post)
    return Entry(name, "neigh.cpp", fn, ("-DGV_DIM=%d" % dim, "-DGV_S=%d" % S, "-DGV_C=%d" % Cn, "-DGV_T=%d" % T))


AI = z3.ArraySort(INT, INT)
GP = z3.Function("first_pos_in", INT, INT, INT, SetS, AI, AI)
GQ = z3.Function("first_seq_in", INT, INT, INT, SetS, AI, AI)
FP = z3.Function("first_pos", INT, INT, AI)                  # element, processed entries of the first list: position of the first meeting
FQ = z3.Function("first_seq", INT, INT, AI)                  # the elements in the order of their first meeting


def order(name, dim, S, Cn, T):
    def fn(ctx):
        ex = ctx.ex
        m = Mesh(ctx, dim)
        c = Comp(ctx, m, S, Cn, T, 1)
        on, olen, oel = ctx.obs("ob_on"), ctx.obs("ob_olen"), ctx.obs("ob_o")
        es, ps = ctx.fresh("e*"), ctx.fresh("p*")
        ctx.assume(es < c.nS)
        la = lambda e: c.la(e)
        D, P, Q = (lambda e: F(e, la(e))), (lambda e: FP(e, la(e))), (lambda e: FQ(e, la(e)))
        ctx.assume(ps < card(D(es)), card(D(es)) < (1 << 60))
        K0 = z3.K(INT, z3.IntVal(-1))

        def gbase(e, j, d, A, B):
            return [G(e, j, 0, d) == d, GP(e, j, 0, d, A) == A, GQ(e, j, 0, d, B) == B]

        def gstep(e, j, k, d, A, B):
            y = c.second(c.first(e, j), k)
            d0, a0, b0 = G(e, j, k, d), GP(e, j, k, d, A), GQ(e, j, k, d, B)
            n = card(d0)
            old = mem(d0, y)
            d1 = z3.If(old, d0, ins(d0, y))
            st = [G(e, j, k + 1, d) == d1, GP(e, j, k + 1, d, A) == z3.If(old, a0, z3.Store(a0, y, n)), GQ(e, j, k + 1, d, B) == z3.If(old, b0, z3.Store(b0, n, y)), card(d1) == n + z3.If(old, z3.IntVal(0), z3.IntVal(1))]
            keep = [G(e, j, k + 1, d) == d0, GP(e, j, k + 1, d, A) == a0, GQ(e, j, k + 1, d, B) == b0]
            return [z3.Implies(k >= 0, z3.And(n >= 0, n < (1 << 60), z3.If(y == e, z3.And(*keep), z3.And(*st)) if S == T else z3.And(*st)))]

        fbase = lambda e: [F(e, 0) == EMPTY, FP(e, 0) == K0, FQ(e, 0) == K0, card(EMPTY) == 0]

        def fstep(e, j):
            n = c.lb(c.first(e, j))
            return [z3.Implies(j >= 0, z3.And(F(e, j + 1) == G(e, j, n, F(e, j)), FP(e, j + 1) == GP(e, j, n, F(e, j), FP(e, j)), FQ(e, j + 1) == GQ(e, j, n, F(e, j), FQ(e, j))))]

        def bij(d, a, b):
            """positions and sequence are inverse"""
            y = z3.Int("y!b")
            return z3.And(z3.ForAll([y], z3.Implies(mem(d, y), z3.And(z3.Select(a, y) >= 0, z3.Select(a, y) < card(d), z3.Implies(z3.Select(a, y) == ps, y == z3.Select(b, ps)))), patterns=[mem(d, y)]),
                          z3.Implies(ps < card(d), z3.And(mem(d, z3.Select(b, ps)), z3.Select(a, z3.Select(b, ps)) == ps)))

        def accs(L, d, a, facts):
            def offers(L, ex, key, v0):
                if key[1] and any(s[0] != "map" for s in key[1]):
                    return []
                if key[3] == "dom" and not key[1]:
                    A = ex.lift(v0, SetS)
                    return [Offer("set holds exactly the incident elements met so far", lambda k, St: St.mem[key] == d(k, A), lambda k, St: facts(k, A))]
                if key[3] == "i64" and len(key[1]) == 1:
                    y = z3.Int("y!m")
                    return [Offer("positions of the first meetings", lambda k, St: z3.ForAll([y], z3.Implies(mem(d(k), y), z3.Select(St.mem[key], y) == z3.Select(a(k), y)), patterns=[z3.Select(St.mem[key], y)]), lambda k, St: facts(k))]
                return []
            return offers

        def outs(L, e, k0):
            """the result container; k0 None: processed elements, else the positions of the map written"""
            def offers(L, ex, key, v0):
                kinds = [s[0] for s in key[1]]
                i = z3.Int("i!o")
                r = []
                if key[3] == "len" and kinds == ["buf"] and e is None:
                    r.append(Offer("length of the list of a processed element", lambda k, St: z3.Implies(es < k, z3.Select(St.mem[key], es) == card(D(es)))))
                    r.append(Offer("lists of the remaining elements untouched", lambda k, St: z3.ForAll([i], z3.Implies(i >= k, z3.Select(St.mem[key], i) == z3.Select(ex.lift(v0, St.mem[key].sort()), i)), patterns=[z3.Select(St.mem[key], i)])))
                if key[3] == "i64" and kinds == ["buf", "buf"]:
                    cell = lambda St: z3.Select(z3.Select(St.mem[key], es), ps)
                    if e is None:
                        r.append(Offer("list of a processed element", lambda k, St: z3.Implies(es < k, cell(St) == z3.Select(Q(es), ps))))
                    else:
                        from gtv.stdlib import rank
                        w = z3.Select(Q(es), ps)
                        r.append(Offer("entries of the list", lambda k, St: z3.Implies(z3.And(e == es, rank(D(es), w) < k), cell(St) == w)))
                        r.append(Offer("lists of other elements", lambda k, St: z3.Implies(e != es, cell(St) == z3.Select(z3.Select(ex.lift(v0, St.mem[key].sort()), es), ps))))
                return r
            return offers

        def loop(L):
            n = L.name.count(".")
            if n == 0:
                f = lambda L, v, k: fbase(k) + fbase(es) + c.wf(k, z3.IntVal(0)) + c.wf(es, z3.IntVal(0))
                return LoopSpec(lambda L, v, k: [("iteration bounded (termination)", k <= c.nS), ("positions and sequence of a processed element", z3.Implies(es < k, bij(D(es), P(es), Q(es))))], f, f, None, outs(L, None, None))
            if n == 1 and L.name.endswith(".0"):
                e = L.parent.k
                f = lambda L, v, k: c.wf(e, k) + c.wf(e, k - 1) + fbase(e) + fstep(e, k) + fstep(e, k - 1)
                return LoopSpec(lambda L, v, k: [("iteration bounded (termination)", k <= la(e)), ("positions and sequence", bij(F(e, k), FP(e, k), FQ(e, k)))], f, f, None, accs(L, lambda k, A=None: F(e, k), lambda k: FP(e, k), lambda k, A=None: fbase(e) + fstep(e, k) + fstep(e, k - 1)))
            if n == 1:
                e = L.parent.k
                from gtv.stdlib import rank
                w = z3.Select(Q(es), ps)
                f = lambda L, v, k: [rank(D(es), w) >= 0, k >= 0]
                return LoopSpec(lambda L, v, k: [("iteration bounded (termination)", k <= card(D(e)))], lambda L, v, k: [], None, None, outs(L, e, 1))
            e, j = L.parent.parent.k, L.parent.k
            x = c.first(e, j)
            d, a, b = F(e, j), FP(e, j), FQ(e, j)
            fa = lambda k, A=d: gbase(e, j, A, a, b) + gstep(e, j, k, A, a, b) + [z3.Implies(k >= 1, q) for q in gstep(e, j, k - 1, A, a, b)]
            return LoopSpec(lambda L, v, k: [("iteration bounded (termination)", k <= c.lb(x)), ("positions and sequence", bij(G(e, j, k, d), GP(e, j, k, d, a), GQ(e, j, k, d, b)))], lambda L, v, k: c.wf(e, j) + fa(k), lambda L, v, k: fa(k), None,
                            accs(L, lambda k, A=d: G(e, j, k, A), lambda k: GP(e, j, k, d, a), fa))
        ctx.spec.loopfn = loop

        def post(vw, r):
            return [("result has one list per start element", zi(on(vw)) == c.nS),
                    ("every list has exactly as many entries as there are neighbors", zi(olen(vw, es)) == card(D(es))),
                    ("every list holds the neighbors in the order of their first meeting", zi(oel(vw, es, ps)) == z3.Select(Q(es), ps))]
        ctx.run("drv_orig", [], post)
    return Entry(name, "neigh.cpp", fn, ("-DGV_DIM=%d" % dim, "-DGV_S=%d" % S, "-DGV_C=%d" % Cn, "-DGV_T=%d" % T))


QUICK_ORDER = ("323", "303", "231", "030", "021", "102", "212", "010")


def entries():
    """the quick tier leaves out combinations where the connecting dimension is the start or connected one, and most of the original order; all of them share one text and are run by the harness"""
    r = []
    for d in (3, 2):
        for s in range(d, -1, -1):
            for c in range(d, -1, -1):
                for t in range(d, -1, -1):
                    q = "%d%d%d" % (s, c, t)
                    a, o = asc("asc%dD_%s" % (d, q), d, s, c, t), order("orig%dD_%s" % (d, q), d, s, c, t)
                    a.tier = "quick" if c not in (s, t) else "thorough"
                    o.tier = "quick" if q in QUICK_ORDER and (d == 2 or q not in ("212", "010")) else "thorough"
                    r += [a, o]
    return r
