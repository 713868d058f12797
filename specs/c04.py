"""Colorings."""
from .meshlib import *
from gtv import ir, vc
from gtv.core import Undef
HARNESS = [("h_c04.cpp", [])]
LEVEL = "proved"
EXPLORED = "proved for all meshes: the greedy coloring gives a color to every element and different colors to two elements at a common connecting element (both traversals, growth of the tables of colors included); for every seed the random method keeps colors of neighbors different and no color above the largest greedy one; bounded (harness): the bound of the greedy colors"
ASSUMPTIONS = ["the connected elements of an element by contract: MeshConnections::connections (C02) and, for descending pairs, MeshApply::apply of one element (C01), as arbitrary lists of elements; for the latter the driver supplies an explicit specialization that runs over the list",
               "random method: the greedy coloring it starts from by the contract proved in the greedy entries; std::max_element by contract (points to a largest element); std::mt19937 and std::uniform_int_distribution by contract (any value of the interval, the state does not matter)",
               "std::valarray by contract: ! and &= element by element, begin and end", "fewer than 2^30 colors", "debugging output (writeMessage, writeVar) has no effect on the data",
               "the bound of the greedy colors is checked on random meshes only (bounded)"]
HARNESS_WHAT = "random 2D and 3D meshes and fans of up to 70 triangles, every pair of dimensions, both methods and several seeds: neighbors differ, the greedy bound, the random method stays within the greedy colors"


def valarrays(ctx):
    """contracts of the expressions of std::valarray<bool>"""
    ex = ctx.ex

    def arr(C, v):
        p = v.step("buf", 0, 1, "i8") if False else None
        from gtv.stdlib import buf
        q = buf(ex, v, 0, ir.IntTy(8))
        q = ex.canon(C.st, q, "i8")
        k = (q.root, q.steps, q.off, "i8")
        m = ex.mat_in(C.st.mem, C.st.rules, k, C.st)
        return k, q, m

    def length(C, v):
        from gtv.stdlib import vlen
        return zi(vlen(C, v))

    def band(C):
        v, w = C.args[0], ex.read(C.st, C.args[1], "ptr")
        n = length(C, v)
        ex.oblige(C.st, "arrays of equal size in valarray &=", length(C, w) >= n, "safety")
        k, q, m = arr(C, v)
        _, p, o = arr(C, w)
        old, oth = seln(m, q.idxs[:-1]), seln(o, p.idxs[:-1])
        new, i = ex.fresh("and", z3.ArraySort(INT, INT)), z3.Int("i!v")
        x = z3.Select(new, i)
        C.st.assume(z3.ForAll([i], x == z3.If(z3.And(z3.Select(old, i) != 0, z3.Select(oth, i) == 0), z3.IntVal(1), z3.IntVal(0)), patterns=[x]))
        C.st.mem[k] = ston(m, q.idxs[:-1], new) if q.idxs[:-1] else new
        return v
    ctx.contract(r"^std::valarray<bool>::operator!\(\) const", lambda C: C.args[0])
    ctx.contract(r"std::valarray<bool>::operator&=<std::__detail::_UnClos<std::__logical_not, std::_ValArray, bool> ?>", band)


def FA(y, body, pat):
    try:
        return z3.ForAll([y], body, patterns=[pat])
    except z3.Z3Exception:
        return z3.ForAll([y], body)


class Two:
    """two elements e1 < e2 of the colored dimension at the positions j1, j2 of a common connecting element"""

    def __init__(self, ctx, m, S, T):
        self.ctx = ctx
        self.alen, self.a, self.an = ctx.obs("ob_alen"), ctx.obs("ob_a"), ctx.obs("ob_an")
        v = self.v = View(ctx.ex, ctx.st)
        self.n, self.nX = zi(m.n(v, S)), zi(m.n(v, T))
        ctx.assume(zi(self.an(v)) == self.n, self.n < (1 << 40), self.nX < (1 << 40))
        self.e1, self.e2, self.j1, self.j2 = (ctx.fresh(x) for x in ("e1*", "e2*", "j1*", "j2*"))
        self.x = self.at(self.e1, self.j1)
        ctx.assume(self.e1 < self.e2, self.e2 < self.n, self.j1 < self.la(self.e1), self.j2 < self.la(self.e2), self.x == self.at(self.e2, self.j2), *(self.wf(self.e1, self.j1) + self.wf(self.e2, self.j2)))

        def give(C):
            C.ex.copy_region(C.st, C.args[0], Ptr("@g_a"), 24)
        ctx.contract(r"MeshConnections<%du, %du, \(Order\)[01]>::connections<" % (S, T), give)

    def la(self, e):
        return zi(self.alen(self.v, e))

    def at(self, e, j):
        return zi(self.a(self.v, e, j))

    def wf(self, e, j):
        x = self.at(e, j)
        return [self.la(e) < (1 << 60), z3.Implies(z3.And(e >= 0, e < self.n, j >= 0, j < self.la(e)), z3.And(x >= 0, x < self.nX))]


def local(S, kinds, ty):
    return [k for k in S.mem if k[3] == ty and [s[0] for s in k[1]] == kinds and k[0].startswith("a")]


def one(S, kinds, ty, pref=""):
    ks = local(S, kinds, ty)
    if len(ks) > 1:
        ks = [k for k in ks if pref in k[0]] or ks
    if len(ks) != 1:
        raise Unsupported("cell %s %s: %s" % (kinds, ty, ks))
    return ks[0]


def greedy(name, dim, S, T):
    def fn(ctx):
        ex = ctx.ex
        vc.FORK = True
        ctx.spec.ground_discover = True
        m = Mesh(ctx, dim)
        t = Two(ctx, m, S, T)
        valarrays(ctx)
        ctx.contract(r"ConsoleLogger.*::write(Message|Var|Variable)<", lambda C: None)        # debugging output
        ctx.contract(r"basic_string<.*>::c_str\(\) const$", lambda C: Ptr("@.text"))
        on, o = ctx.obs("ob_on"), ctx.obs("ob_o")
        col = lambda St, e: z3.Select(St.mem[one(St, ["buf"], "i32")], e)
        att = lambda St, x, c: z3.Select(z3.Select(St.mem[one(St, ["buf", "buf"], "i8")], x), c)

        def root(L):
            while L.parent is not None:
                L = L.parent
            return L

        def offers(L, ex, key, v0):
            kinds, ty = [s[0] for s in key[1]], key[3]
            r = []
            d = L.name.count(".")
            K = (lambda k: k) if d == 0 else (lambda k: root(L).k)
            y = z3.Int("y!c")
            if kinds == ["buf", "buf"] and ty == "i8":
                r.append(Offer("colors of processed elements are attached", lambda k, St: z3.Implies(t.e1 < K(k), z3.Select(z3.Select(St.mem[key], t.x), col(St, t.e1)) == 1)))
                if d:
                    r.append(Offer("color of this element is attached", lambda k, St: z3.Implies(z3.And(t.e1 == K(k), t.j1 < k), z3.Select(z3.Select(St.mem[key], t.x), col(St, t.e1)) == 1)))
            if d == 1 and ty == "i8" and kinds:
                r.append(Offer("iterations bounded by the connected elements", lambda k, St: k <= t.la(K(k))))
                r.append(Offer("iterations bounded by the tables", lambda k, St: k <= t.nX))
            if kinds == ["buf"] and ty == "i8":
                r.append(Offer("attached colors are not free", lambda k, St: z3.Implies(z3.And(t.e2 == K(k), t.j2 < k), z3.Select(St.mem[key], col(St, t.e1)) == 0)))
                if d == 2:
                    r.append(Offer("copied part", lambda k, St: FA(y, z3.Implies(z3.And(y >= 0, y < k, z3.Select(z3.Select(St.mem[one(St, ["buf", "buf"], "i8")], L.parent.k), y) == 1), z3.Select(St.mem[key], y) == 1), z3.Select(St.mem[key], y))))
            if kinds == ["buf"] and ty == "len":
                def ln(i, rng):
                    def f(k, St):
                        E = root(L).entry.st.mem      # variables declared before the loop over the elements
                        cs = sorted((q for q in local(St, [], "i32") if q in E and not isinstance(E[q], Undef)), key=repr)
                        if i >= len(cs):
                            raise Unsupported("no such variable")
                        return FA(y, z3.Implies(rng(k, y), z3.Select(St.mem[key], y) == zi(St.mem[cs[i]])), z3.Select(St.mem[key], y))
                    return f
                for i in range(3):
                    r.append(Offer("sizes of the tables of colors %d" % i, ln(i, lambda k, y: z3.And(y >= 0, y < t.nX))))
                    if d:
                        r.append(Offer("sizes of the grown tables %d" % i, ln(i, lambda k, y: z3.And(y >= 0, y < k))))
                if d:
                    r.append(Offer("remaining tables", lambda k, St: FA(y, z3.Implies(y >= k, z3.Select(St.mem[key], y) == z3.Select(ex.lift(v0, St.mem[key].sort()), y)), z3.Select(St.mem[key], y))))
            if kinds == ["buf"] and ty == "i32" and d == 0:
                r.append(Offer("colors of processed elements differ", lambda k, St: z3.Implies(t.e2 < k, z3.Select(St.mem[key], t.e1) != z3.Select(St.mem[key], t.e2))))
            if not kinds and ty == "i32":
                r.append(Offer("lower bound", lambda k, St: zi(St.mem[key]) >= 1, lambda k, St: [zi(St.mem[key]) < (1 << 31)]))
                r.append(Offer("colors are below the reserve", lambda k, St: z3.Implies(t.e1 < K(k), z3.And(col(St, t.e1) >= 0, col(St, t.e1) < zi(St.mem[key])))))
            for x in r:
                x.ms = 300
            return r

        def loop(L):
            d = L.name.count(".")

            def inv(L, v, k):
                if d == 0:
                    return [("iteration bounded (termination)", k <= t.n)]
                if L.name == "0.1":
                    return [("tried colors are within the free colors", k < zi(v.st.mem[one(v.st, [], "len", "free")]))]
                return []

            def facts(L, v, k):
                K = root(L).k if d else k
                r = t.wf(K, k) + t.wf(t.e1, t.j1) + t.wf(t.e2, t.j2)
                return r
            return LoopSpec(inv, facts, facts, None, offers)
        ctx.spec.loopfn = loop
        ctx.run("drv_color", [], lambda vw, rv: [("every element gets a color", zi(on(vw)) == t.n), ("two elements at a common connecting element have different colors", zi(o(vw, t.e1)) != zi(o(vw, t.e2)))])
    return Entry(name, "color.cpp", fn, ("-DGV_DIM=%d" % dim, "-DGV_S=%d" % S, "-DGV_T=%d" % T))


CNT = z3.Function("cnt", z3.ArraySort(INT, INT), INT, INT)      # true entries before a position


def random(name, dim, S, T):
    def fn(ctx):
        ex = ctx.ex
        vc.FORK = True
        ctx.spec.ground_discover = True
        m = Mesh(ctx, dim)
        t = Two(ctx, m, S, T)
        valarrays(ctx)
        ctx.contract(r"ConsoleLogger.*::write(Message|Var|Variable)<", lambda C: None)
        ctx.contract(r"basic_string<.*>::c_str\(\) const$", lambda C: Ptr("@.text"))
        on, o, cn, c = ctx.obs("ob_on"), ctx.obs("ob_o"), ctx.obs("ob_cn"), ctx.obs("ob_c")
        v = View(ex, ctx.st)
        c0 = lambda e: zi(c(v, e))
        y, best, es = z3.Int("y!c"), ctx.fresh("best*"), ctx.fresh("e*")
        ctx.assume(zi(cn(v)) == t.n, es < t.n, c0(t.e1) != c0(t.e2))
        seen = {}

        def greedy_(C):
            C.ex.copy_region(C.st, C.args[0], Ptr("@g_c"), 24)

        def maxel(C):
            p = C.args[0]
            C.ex.oblige(C.st, "maximum of all colors of a coloring that is not empty", t.n > 0, "safety")
            q = p.withidx(best)
            k = ex.canon(C.st, q, "i32")
            key = (k.root, k.steps, k.off, "i32")
            mm = ex.mat_in(C.st.mem, C.st.rules, key, C.st)
            a = seln(mm, k.idxs[:-1])
            M = z3.Select(a, best)
            C.st.assume(z3.And(best < t.n, M == c0(best), M < (1 << 30)))
            C.st.assume(z3.ForAll([y], z3.Implies(z3.And(y >= 0, y < t.n), z3.And(z3.Select(a, y) >= 0, z3.Select(a, y) <= M)), patterns=[z3.Select(a, y)]))
            return q

        def draw(C):
            r = ex.fresh_int(C.st, "draw", 32)
            a, b = C.st.ghost["dist"]
            C.st.assume(z3.And(r >= a, r <= b))
            return r

        def dist(C):
            a, b = zi(C.args[1]), zi(C.args[2])
            C.ex.oblige(C.st, "interval of the random numbers is not empty", a <= b, "safety")
            C.st.ghost["dist"] = (a, b)

        def va(end):
            def f(C):
                from gtv.stdlib import buf, vlen
                return buf(ex, C.args[0], zi(vlen(C, C.args[0])) if end else 0, ir.IntTy(8))
            return f
        ctx.contract(r"_MeshColoring<%du, %du, \(ColoringMethod\)0, .*>::color<" % (S, T), greedy_)
        ctx.contract(r"std::max_element<", maxel)
        ctx.contract(r"mersenne_twister_engine<.*>::mersenne_twister_engine\(", lambda C: None)
        ctx.contract(r"uniform_int_distribution<unsigned int>::uniform_int_distribution\(", dist)
        ctx.contract(r"uniform_int_distribution<unsigned int>::operator\(\)<", draw)
        ctx.contract(r"std::begin<bool>\(std::valarray<bool>&\)", va(False))
        ctx.contract(r"std::end<bool>\(std::valarray<bool>&\)", va(True))
        col = lambda St, e: z3.Select(St.mem[one(St, ["buf"], "i32")], e)

        def root(L):
            while L.parent is not None:
                L = L.parent
            return L

        def free(St):
            return St.mem[one(St, ["buf"], "i8")]

        def cstep(a, k):
            return [CNT(a, z3.IntVal(0)) == 0, CNT(a, k + 1) == CNT(a, k) + z3.If(z3.Select(a, k) != 0, z3.IntVal(1), z3.IntVal(0)), CNT(a, k) == CNT(a, k - 1) + z3.If(z3.Select(a, k - 1) != 0, z3.IntVal(1), z3.IntVal(0))]

        def offers(L, ex, key, v0):
            kinds, ty = [s[0] for s in key[1]], key[3]
            r = []
            d = L.name.count(".")
            K = (lambda k: k) if d == 0 else (lambda k: root(L).k)
            pairs = ((t.e1, t.j1, t.e2, "first"), (t.e2, t.j2, t.e1, "second"))
            if d == 1 and ty == "i8" and kinds:
                r.append(Offer("iterations bounded by the connected elements", lambda k, St: k <= t.la(K(k))))
            if kinds == ["buf", "buf"] and ty == "i8":
                mark = lambda St, e: z3.Select(z3.Select(St.mem[key], t.x), col(St, e)) == 1
                again = any([x[0] for x in q[1]] == ["buf"] and q[3] == "i8" for q in L.entry.st.mem)       # the free colors exist: colors are chosen
                for e, j, _, w in pairs:
                    if d:
                        r.append(Offer("color of the %s element is marked from its entry on" % w, lambda k, St, e=e, j=j: z3.Implies(z3.And(e == K(k), j < k), mark(St, e))))
                    if again and d:
                        r.append(Offer("color of the %s element stays marked" % w, lambda k, St, e=e: z3.Implies(e != K(k), mark(St, e))))
                    elif not d:
                        r.append(Offer("color of the %s element is marked" % w, lambda k, St, e=e: mark(St, e)))
                    if not again:
                        r.append(Offer("color of the %s element is marked when processed" % w, lambda k, St, e=e: z3.Implies(e < K(k), mark(St, e))))
            if kinds == ["buf"] and ty == "i8" and d:
                r.append(Offer("free is 0 or 1", lambda k, St: FA(y, z3.Or(z3.Select(St.mem[key], y) == 0, z3.Select(St.mem[key], y) == 1), z3.Select(St.mem[key], y))))
                for e, j, f, w in pairs:
                    r.append(Offer("color of the other element is not free for the %s" % w, lambda k, St, e=e, j=j, f=f: z3.Implies(z3.And(e == K(k), j < k), z3.Select(St.mem[key], col(St, f)) == 0)))
            if kinds == ["buf"] and ty == "i32" and d == 0:
                r.append(Offer("colors differ", lambda k, St: z3.Select(St.mem[key], t.e1) != z3.Select(St.mem[key], t.e2)))
                r.append(Offer("colors are those of the greedy coloring at most", lambda k, St: FA(y, z3.Implies(z3.And(y >= 0, y < t.n), z3.And(z3.Select(St.mem[key], y) >= 0, z3.Select(St.mem[key], y) <= c0(best))), z3.Select(St.mem[key], y))))
            if not kinds and ty == "i32" and d == 1:
                E = L.entry.st.mem
                if isinstance(E.get(key), int) or z3.is_int_value(z3.simplify(zi(E[key]))):
                    r.append(Offer("possible colors counted", lambda k, St: z3.And(zi(St.mem[key]) == CNT(free(St), k), CNT(free(St), k) <= k, CNT(free(St), k) >= 0), lambda k, St: cstep(free(St), k)))
                else:
                    def g(k, St):
                        cs = [q for q in local(St, [], "i32") if q != key and q in E and not isinstance(E[q], Undef) and not z3.is_int_value(z3.simplify(zi(E[q])))]
                        cs.sort(key=lambda q: int(re.search(r"\d+", q[0]).group()))
                        if not cs:
                            raise Unsupported("no such variable")
                        return z3.And(zi(St.mem[key]) >= 0, zi(St.mem[key]) + CNT(free(St), k) < zi(St.mem[cs[-1]]))
                    r.append(Offer("chosen color is among the rest", g, lambda k, St: cstep(free(St), k)))
            for q in r:
                q.ms = 300
            return r

        def loop(L):
            d = L.name.count(".")

            def inv(L, v, k):
                if d == 0:
                    return [("iteration bounded (termination)", k <= t.n)]
                if L.name in ("1.1", "1.2"):
                    return [("within the free colors", k <= zi(v.st.mem[one(v.st, [], "len", "free")]))]
                return []

            def facts(L, v, k):
                r = t.wf(root(L).k if d else k, k) + t.wf(t.e1, t.j1) + t.wf(t.e2, t.j2)
                if L.name in ("1.1", "1.2"):
                    r += cstep(free(v.st), k)
                return r
            return LoopSpec(inv, facts, facts, None, offers)
        ctx.spec.loopfn = loop
        ctx.run("drv_color", [ctx.fresh("seed", bits=32)], lambda vw, rv: [("every element has a color", zi(on(vw)) == t.n), ("two elements at a common connecting element have different colors", zi(o(vw, t.e1)) != zi(o(vw, t.e2))), ("no color above those of the greedy coloring", zi(o(vw, es)) <= c0(best))])
    e = Entry(name, "color.cpp", fn, ("-DGV_DIM=%d" % dim, "-DGV_S=%d" % S, "-DGV_T=%d" % T, "-DGV_RANDOM"))
    e.limit = 330
    return e


def entries():
    r = []
    for d in (3, 2):
        for s in range(d + 1):
            for t in range(d + 1):
                if s != t:
                    e = greedy("greedy%dD_%d%d" % (d, s, t), d, s, t)
                    e.tier = "quick" if (d, s, t) in ((3, 2, 3), (2, 2, 1)) else "thorough"
                    e.limit = 330
                    r.append(e)
    for d in (3, 2):
        for s in range(d + 1):
            for t in range(d + 1):
                if s != t:
                    e = random("random%dD_%d%d" % (d, s, t), d, s, t)
                    e.tier = "quick" if (d, s, t) in ((3, 2, 0),) else "thorough"
                    r.append(e)
    return r
