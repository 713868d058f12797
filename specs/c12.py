"""Binary serialization: reading back what was written."""
from .meshlib import *
from fractions import Fraction
HARNESS = [("h_c12.cpp", [])]
HARNESS_WHAT = "random sequences of about 70 types (numbers, enumerations, strings, nested and associative containers, described and custom classes), read back in order into targets that held other values, through memory and files"
LEVEL = "proved"
EXPLORED = "proved: numbers, enumerations, described classes (nested too), pairs, tuples, bounded arrays, and lists of any length of bytes, integers, floating-point numbers, pairs and described classes; bounded (harness): strings, lists of lists, associative containers, custom functions, files"
ASSUMPTIONS = ["an object of n bytes is determined by its n bytes (byte and join functions, inverse of each other; nothing is assumed about the order of bytes)",
               "std::vector::insert, resize and iterators follow their specification (contracts)",
               "strings, associative containers and nested lists are compared on random values only (bounded)"]


def zr(v):
    return z3.RealVal(v) if isinstance(v, (int, Fraction)) else v


def eqv(ctx, a, b):
    return ctx.ex.lift(a, ctx.ex.F) == ctx.ex.lift(b, ctx.ex.F) if any(z3.is_expr(x) and x.sort() == ctx.ex.F for x in (a, b)) else zi(a) == zi(b) if not any(isinstance(x, bool) or (z3.is_expr(x) and z3.is_bool(x)) for x in (a, b)) else zb(a) == zb(b)


def common(ctx):
    ln, by, end = ctx.obs("ob_len"), ctx.obs("ob_byte"), ctx.obs("ob_end")
    v0 = View(ctx.ex, ctx.st.clone())
    n = zi(ln(v0))
    ctx.assume(n < (1 << 56))
    p = ctx.fresh("p*")
    ctx.assume(p < n)
    return ln, by, end, v0, n, p


def fixed(name, T, proj, size, flags=()):
    """objects of fixed size: size bytes are appended, read back equal"""
    def fn(ctx):
        ln, by, end, v0, n, p = common(ctx)
        obs = [(k, ctx.obs("ob_a" + k), ctx.obs("ob_b" + k)) for k in proj]

        def post(vw, rv):
            return [("bytes appended: %d" % size, zi(ln(vw)) == n + size), ("earlier bytes untouched", zi(by(vw, p)) == zi(by(v0, p))), ("reading consumes exactly what was written", zi(end(vw)) == n + size)] \
                + [("component %s restored" % (k or "value"), eqv(ctx, b(vw), a(v0))) for k, a, b in obs] + [("component %s of the source untouched" % (k or "value"), eqv(ctx, a(vw), a(v0))) for k, a, b in obs]
        ctx.run("drv_rt", [], post)
    return Entry(name, "serial.cpp", fn, ("-DGV_TYPE=%s" % T,) + tuple(flags))


def listed(name, T, elem, proj, compact, tys, flags=()):
    """lists of any length of elements of fixed size"""
    def fn(ctx):
        ex = ctx.ex
        ln, by, end, v0, n, p = common(ctx)
        na, nb = ctx.obs("ob_na"), ctx.obs("ob_nb")
        obs = [(k, ctx.obs("ob_a" + k), ctx.obs("ob_b" + k), off, ty) for (k, off), ty in zip(proj, tys)]
        m = zi(na(v0))
        ctx.assume(m < (1 << 40))
        j = ctx.fresh("j*")
        ctx.assume(j < m)
        i_ = z3.Int("i!l")
        BK = [None]

        def comp(i, a, ty):
            """value of a component of element i of the source and its bytes"""
            v = a(v0, i)
            v = ex.lift(v, ex.F) if ty.k in ("f64", "f32") else zi(v) if not (isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v))) else z3.If(zb(v), z3.IntVal(1), z3.IntVal(0))
            w = ex.m.size(ty)
            if w == 1:
                return v, [v]
            N, s_, B, J, P = ex.raw_fns(ty)
            return v, [B(v, z3.IntVal(q)) for q in range(w)]

        def facts(L, vw, k):
            r = []
            for _, a, _, off, ty in obs:
                v, bs = comp(k, a, ty)
                if ex.m.size(ty) > 1:
                    r += ex.raw_axiom(v, ty)
            return r

        def bytes_at(S, key, i):
            return z3.And(*[z3.Select(S.mem[key], n + 8 + elem * i + off + q) == b for _, a, _, off, ty in obs for q, b in enumerate(comp(i, a, ty)[1])])

        def offers(L, ex, key, w0):
            sh = [x[0] for x in key[1]]
            r = []
            if L.name == "0":
                if key[3] == "len" and not sh:
                    r.append(Offer("bytes of the processed elements are appended", lambda k, S: S.mem[key] == n + 8 + elem * k))
                if key[3] == "i8" and sh == ["buf"]:
                    W0 = ex.lift(w0, z3.ArraySort(INT, INT))
                    r.append(Offer("earlier bytes untouched", lambda k, S: z3.ForAll([i_], z3.Implies(i_ < n + 8, z3.Select(S.mem[key], i_) == z3.Select(W0, i_)))))
                    r.append(Offer("bytes of an element", lambda k, S: z3.Implies(j < k, bytes_at(S, key, j))))
            else:
                if key[3] != "ptr" and sh == ["buf"]:
                    for nm, a, b, off, ty in obs:
                        def form(k, S, a=a, b=b, ty=ty):
                            sv = View(ex, S)
                            return z3.Implies(j < k, eqv(ctx, b(sv, j), a(v0, j)))
                        r.append(Offer("component %s of an element restored" % nm, form))
            return r

        def loop(L):
            if L.parent is not None:
                return None
            return LoopSpec(lambda L, vw, k: [("iteration bounded (termination)", k <= m)], facts, facts, None, offers)
        ctx.spec.loopfn = loop
        ctx.spec.unroll_const = True
        ctx.assume(*[x for x in facts(None, None, j)])

        def post(vw, rv):
            tot = n + 8 + elem * m
            return [("bytes appended", zi(ln(vw)) == tot), ("earlier bytes untouched", zi(by(vw, p)) == zi(by(v0, p))), ("reading consumes exactly what was written", zi(end(vw)) == tot),
                    ("number of elements restored", zi(nb(vw)) == m), ("source keeps its length", zi(na(vw)) == m)] \
                + [("component %s of every element restored" % k, eqv(ctx, b(vw, j), a(v0, j))) for k, a, b, off, ty in obs] + [("component %s of the source untouched" % k, eqv(ctx, a(vw, j), a(v0, j))) for k, a, b, off, ty in obs]
        ctx.run("drv_rt", [], post)
    return Entry(name, "serial.cpp", fn, ("-DGV_TYPE=%s" % T,) + tuple(flags))


def entries():
    E = []
    for T, size in (("bool", 1), ("char", 1), ("unsigned char", 1), ("short", 2), ("unsigned", 4), ("int", 4), ("long", 8), ("size_t", 8), ("double", 8), ("float", 4), ("En", 2)):
        E.append(fixed("value/%s" % T, T, [""], size, ["-DGV_SIMPLE"]))

    def proj(d):
        return "-DGV_PROJ=" + " ".join("P(%s,%s,%s)" % (k, t, e) for k, t, e in d)

    def agg(name, T, size, d):
        E.append(fixed(name, T, [k for k, _, _ in d], size, [proj(d)]))
    agg("class/described", "Rec", 14, [("i", "int", "x.i"), ("d", "double", "x.d"), ("c", "char", "x.c"), ("f", "bool", "x.f")])
    agg("class/nested", "Nest", 16, [("i", "int", "x.r.i"), ("d", "double", "x.r.d"), ("c", "char", "x.r.c"), ("f", "bool", "x.r.f"), ("s", "short", "x.s")])
    agg("class/part", "Part", 8, [("q", "double", "x.q")])
    agg("pair", "std::pair<int,double>", 12, [("i", "int", "x.first"), ("d", "double", "x.second")])
    agg("tuple", "std::tuple<char,double,Rec>", 23, [("c", "char", "std::get<0>(x)"), ("d", "double", "std::get<1>(x)"), ("i", "int", "std::get<2>(x).i"), ("rd", "double", "std::get<2>(x).d")])
    agg("array", "std::array<double,3>", 32, [(str(i), "double", "x[%d]" % i) for i in range(3)])
    agg("array/int", "std::array<int,5>", 28, [(str(i), "int", "x[%d]" % i) for i in range(5)])
    agg("array/class", "std::array<Rec,2>", 36, [("i", "int", "x[0].i"), ("d", "double", "x[1].d")])
    from gtv import ir
    I = ir.IntTy

    def lst(name, T, elem, d, compact=False):
        E.append(listed(name, T, elem, [(k, off) for k, off, _, _, _ in d], compact, [t for _, _, t, _, _ in d], ["-DGV_LIST=" + " ".join("P(%s,%s,%s)" % (k, t, e) for k, _, _, t, e in d)]))
    lst("list/bytes", "std::vector<unsigned char>", 1, [("x", 0, I(8), "unsigned char", "x")], True)
    lst("list/int", "std::vector<int>", 4, [("x", 0, I(32), "int", "x")], True)
    lst("list/double", "std::vector<double>", 8, [("x", 0, ir.F64, "double", "x")], True)
    lst("list/class", "std::vector<Rec>", 14, [("i", 0, I(32), "int", "x.i"), ("d", 4, ir.F64, "double", "x.d"), ("c", 12, I(8), "char", "x.c"), ("f", 13, I(8), "bool", "x.f")])
    lst("list/pair", "std::vector<std::pair<short,double>>", 10, [("s", 0, I(16), "short", "x.first"), ("d", 2, ir.F64, "double", "x.second")])
    return E
