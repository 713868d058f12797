"""Attributes of cells in VTK files."""
import re
from gtv import ir
from gtv.core import Ptr, Fn, Unsupported
from .meshlib import *
from .c19 import literal
from .c16 import Tokens, OutTokens, tokI, tokR, AC, fa, WORD
HARNESS = [("h_c18.cpp", []), ("h_c18.cpp", ["-DD2"])]
HARNESS_WHAT = "described classes with scalar and vector members (also under other names, in other orders, behind functions, with bound traits) written for meshes with split cells and read back, the text compared with the values"
LEVEL = "proved"
EXPLORED = "proved for all meshes and values: the text of one scalar or vector attribute (2D and 3D, with any cells split into parts: every part carries the value of its cell), the values read from the place of an attribute into the described member of every cell and no other, the place of the first number of every attribute found in the file, every described attribute written and read exactly once; bounded (harness): files as a whole, other kinds of described members"
ASSUMPTIONS = ["input and output streams hold a sequence of numbers and words separated by blanks (contracts of operator>>, operator<<, endl); the text of one number reads back as that number",
               "the parts of split cells (std::map by contract: entries in the order of the keys): cells are written in their order, the parts of one cell next to each other; the writer of the mesh is checked for it by the harnesses of C17 and C18",
               "the index maps the name of an attribute to the place of its first number, as the proof of the index shows for a file of lines (getline, ignore, tellg, find, std::map by contract; names differ; a line between a heading and its numbers is shorter than 500 characters)"]
KEYAT, VALAT, ORIG = (z3.Function(x, INT, INT) for x in ("part_no", "part_cell", "origin"))
NK = z3.Int("number_of_parts")
POSOF = z3.Function("position_of", INT, INT)


class Parts:
    """contract of the std::map of the parts of split cells: its entries in the order of the keys"""

    def __init__(self, ctx):
        c = ctx.contract
        c(r"^std::map<unsigned long, unsigned long.*>::c?begin\(\) const|^std::map<unsigned long, unsigned long.*>::c?begin\(\)", lambda C: C.args[0].step("it", 0, None, ""))
        c(r"^std::map<unsigned long, unsigned long.*>::c?end\(\)", lambda C: C.args[0].step("it", NK, None, ""))
        c(r"operator==\(std::_Rb_tree_(const_)?iterator<|^std::_Rb_tree_(const_)?iterator<.*>::operator==\(", self.eq)
        c(r"operator!=\(std::_Rb_tree_(const_)?iterator<|^std::_Rb_tree_(const_)?iterator<.*>::operator!=\(", lambda C: 1 - self.eq(C))
        c(r"^std::_Rb_tree_(const_)?iterator<.*>::operator(->|\*)\(\) const", self.deref)
        c(r"^std::_Rb_tree_(const_)?iterator<.*>::operator\+\+\(", self.inc)

    def it(self, C, a):
        return C.ex.read(C.st, a, "ptr")

    def eq(self, C):
        p, q = (self.it(C, a) for a in C.args)
        return z3.If(zi(p.idxs[-1]) == zi(q.idxs[-1]), z3.IntVal(1), z3.IntVal(0))

    def deref(self, C):
        p = self.it(C, C.args[0])
        i = zi(p.idxs[-1])
        C.ex.oblige(C.st, "iterator of the parts dereferenced before the end", z3.And(i >= 0, i < NK))
        q = p
        for off, v in ((0, KEYAT(i)), (8, VALAT(i))):
            C.st.assume(z3.And(v >= 0, v < (1 << 60)))
            C.ex.store(C.st, q.add(off), ir.IntTy(64), v)
        return q

    def inc(self, C):
        p = self.it(C, C.args[0])
        C.ex.store(C.st, C.args[0], ir.PTR, p.withidx(C.ex.iadd(p.idxs[-1], 1)))
        return C.args[0]


def column(name, dim, idx):
    """the text of one attribute"""
    def fn(ctx):
        ex = ctx.ex
        OutTokens(ctx)
        v0 = View(ex, ctx.st.clone())
        n_, ob, nw = ctx.obs("ob_n"), ctx.obs("ob_" + "avb"[idx]), ctx.obs("ob_ncells")
        n = zi(n_(v0))
        vec = idx == 1
        val = lambda i, k: ex.flit(ob(v0, i, k) if vec else ob(v0, i))
        per = 3 if vec else 1
        head = 3 if vec else 6
        ctx.assume(n >= 1, n < (1 << 40))
        w = ctx.fresh("w*")
        d = ctx.fresh("d*") if vec else z3.IntVal(0)
        g0 = ["VECTORS", "v", "double"] if vec else ["SCALARS", "avb"[idx], "double", "1", "LOOKUP_TABLE", "default"]
        NW = zi(nw(v0)) if dim == 3 else n
        OR = ORIG if dim == 3 else (lambda i: i)
        ctx.assume(w < NW, NW < (1 << 40), NW >= 1)
        z = z3.IntVal
        if dim == 3:
            Parts(ctx)
            i_, j_ = z3.Ints("i! j!")
            KI = z3.Function("parts_before", INT, INT)
            part = lambda x: z3.And(KI(x) < NK, KEYAT(KI(x)) == x)
            ctx.assume(NK >= 0, NK < (1 << 40), KI(0) == 0, ORIG(0) == 0, KI(NW) == NK, ORIG(NW) == n)

            def same(x):
                return z3.And(part(x), part(x + 1), VALAT(KI(x)) == VALAT(KI(x + 1)))

            def fw(x):
                """validity of the parts at the written cell x: the cells are written in their order, the parts of one cell next to each other"""
                return [z3.Implies(z3.And(x >= 0, x < NW), z3.And(KI(x) >= 0, KI(x) <= NK, KI(x + 1) == KI(x) + z3.If(part(x), 1, 0), z3.Implies(KI(x) < NK, z3.And(KEYAT(KI(x)) >= x, KEYAT(KI(x)) < NW)),
                        z3.Implies(part(x), VALAT(KI(x)) == ORIG(x)), ORIG(x) >= 0, ORIG(x) < n, ORIG(x + 1) == z3.If(same(x), ORIG(x), ORIG(x) + 1)))]

            def fi(i):
                k = KEYAT(i)
                return [z3.Implies(z3.And(i >= 0, i < NK), z3.And(k >= 0, k < NW, KI(k) == i, z3.Implies(i + 1 < NK, KEYAT(i + 1) > k), z3.Implies(z3.And(i + 1 < NK, VALAT(i) == VALAT(i + 1)), KEYAT(i + 1) == k + 1)))] + fw(k)
        else:
            fw = lambda x: []
            fi = lambda i: []

        def tokens(vw, W, kk=None):
            g = vw.st.ghost
            r = [("heading", z3.And(*[z3.Select(g["outI"], i) == WORD(x) for i, x in enumerate(g0)])), ("numbers are separated", z3.And(g["glued"] == 0, g["gap"] == 1))]
            dd = z3.And(d >= 0, d < dim) if vec else z3.BoolVal(True)
            r += [("values of the written cells", z3.Implies(z3.And(dd, W), z3.Select(g["outR"], head + per * w + d) == val(OR(w), d)))]
            if vec and dim == 2:
                r += [("planar vectors are completed by a zero", z3.Implies(W, z3.Select(g["outI"], head + per * w + 2) == WORD("0.0")))]
            return r

        T = z3.BoolVal(True)
        if dim == 3:
            first = lambda i: z3.If(i == 0, z(0), KEYAT(i - 1) + 1)
            real = lambda i: z3.If(i == 0, z(0), z3.If(z3.Or(i == NK, VALAT(i) != VALAT(i - 1)), VALAT(i - 1) + 1, VALAT(i - 1)))

        def inv(L, vw, k):
            g = vw.st.ghost
            if dim == 2:
                return [("iteration bounded (termination)", k <= n), ("numbers written", g["wn"] == head + per * k)] + tokens(vw, w < k)
            if L.parent is None and L.name == "0":
                return [("iteration bounded (termination)", k <= NK), ("numbers written", g["wn"] == head + per * first(k)), ("cell of the next part", z3.And(ORIG(first(k)) == real(k), KI(first(k)) == k, first(k) <= NW))] + tokens(vw, w < first(k))
            i = NK if L.parent is None else L.parent.k
            x = first(i) + k
            return [("iteration bounded (termination)", x <= (NW if L.parent is None else KEYAT(i))), ("numbers written", g["wn"] == head + per * x), ("cell of the next part", z3.And(ORIG(x) == real(i) + k, KI(x) == i))] + tokens(vw, w < x)

        def facts(L, vw, k):
            if dim == 2:
                return []
            r = fw(w)
            if L.parent is None and L.name == "0":
                return r + fi(k) + fi(k - 1) + fw(first(k)) + fi(k + 1)
            i = NK if L.parent is None else L.parent.k
            return r + fi(i) + fi(i - 1) + fw(first(i)) + fw(first(i) + k) + fw(first(i) + k + 1)

        def forms(L):
            if dim == 3 and L.parent is None and L.name == "0":
                return [("i64", first), ("i64", real)]
            return []
        ctx.spec.loopfn = lambda L: LoopSpec(inv, facts, facts, forms)
        ctx.spec.unroll_const = True
        if dim == 3:
            ctx.assume(*(fw(w) + fw(z(0)) + fi(z(0)) + fi(NK - 1)))
        if vec:
            ctx.assume(d < dim)

        def post(vw, rv):
            g = vw.st.ghost
            return tokens(vw, T) + [("one value for every written cell and nothing else", g["wn"] == head + per * NW)]
        ctx.run("drv_w%d" % idx, [], post)
    return Entry(name, "vtkdata.cpp", fn, AC + ("-DGV_DIM=%d" % dim,), fmode="uf")


def reads(name, dim, idx):
    """one attribute read from the place found for its name"""
    def fn(ctx):
        ex = ctx.ex
        texts = {}

        def index(C):
            t = C.st.ghost.get("str:%r" % (C.args[1],))
            if t is None:
                raise Unsupported("name of the attribute")
            C.st.ghost["at"] = POSOF(t)
            return C.args[0].step("place", 0, None, "")

        def seek(C):
            if "at" not in C.st.ghost:
                raise Unsupported("position not taken from the index")
            C.st.ghost["pos"] = C.st.ghost["at"]
            return C.args[0]

        def mk(C):
            t = literal(ex, C.args[1])
            if t is None:
                raise Unsupported("name is not a constant")
            C.st.ghost["str:%r" % (C.args[0],)] = WORD(t)
        ctx.contract(r"^std::(__cxx11::)?basic_string<.*>::basic_string(<.*>)?\((char const\*|const char\*)", mk)
        ctx.contract(r"^std::map<std::(__cxx11::)?(basic_)?string.*>::operator\[\]\(", index)
        ctx.contract(r"istream.*::seekg\(std::fpos", seek)
        Tokens(ctx)
        ctx.st.ghost["at"] = z3.Int("at")
        v0 = View(ex, ctx.st.clone())
        n_ = ctx.obs("ob_n")
        obs = {x: ctx.obs("ob_" + x) for x in "avb"}
        n = zi(n_(v0))
        vec = idx == 1
        me = "avb"[idx]
        ob = obs[me]
        ctx.assume(n < (1 << 40))
        i = ctx.fresh("i*")
        d = ctx.fresh("d*") if vec else z3.IntVal(0)
        ctx.assume(i < n, d < dim)
        per = 3 if vec else 1
        p0 = POSOF(WORD(me))
        val = lambda vw: ob(vw, i, d) if vec else ob(vw, i)
        rest = lambda vw: [("the other members stay", z3.And(*[(o(vw, i, z3.IntVal(0)) == o(v0, i, z3.IntVal(0))) if x == "v" else (o(vw, i) == o(v0, i)) for x, o in obs.items() if x != me]))]

        def inv(L, vw, k):
            return [("iteration bounded (termination)", k <= n), ("numbers read", vw.st.ghost["pos"] == p0 + per * k), ("number of cells", zi(n_(vw)) == n), ("values of the cells read", z3.Implies(i < k, val(vw) == tokR(p0 + per * i + d)))] + rest(vw)
        ctx.spec.loopfn = lambda L: LoopSpec(inv, lambda L, vw, k: [], lambda L, vw, k: [])
        ctx.spec.unroll_const = True
        ctx.run("drv_r%d" % idx, [], lambda vw, rv: [("every cell gets its value", val(vw) == tokR(p0 + per * i + d)), ("nothing more is read", vw.st.ghost["pos"] == p0 + per * n), ("number of cells", zi(n_(vw)) == n)] + rest(vw))
    return Entry(name, "vtkdata.cpp", fn, AC + ("-DGV_DIM=%d" % dim,))


LK, NM, LPOS = (z3.Function(x, INT, INT) for x in ("line_kind", "attribute_name", "line_position"))
NLINES, NPOS = z3.Int("number_of_lines"), (1 << 64) - 1


def places(name, dim):
    """the place of the first number of every attribute is found; the file is a sequence of lines: kind 1 (2) begins with SCALARS (VECTORS) and a name,
    a line of kind 1 is followed by one line before its numbers"""
    def fn(ctx):
        ex, g = ctx.ex, ctx.st.ghost
        l0 = ctx.fresh("line0")
        ctx.assume(NLINES >= 0, NLINES < (1 << 60), l0 >= 0)
        g.update(line=l0, good=z3.BoolVal(True), has=z3.K(INT, z3.BoolVal(False)), at=z3.K(INT, z3.IntVal(-1)))
        T = lambda C, i: C.st.ghost["str:%r" % (C.args[i],)]

        def put(C, i, v):
            C.st.ghost["str:%r" % (C.args[i],)] = v

        def getline(C):
            G = C.st.ghost
            if C.args[2] != 10:
                raise Unsupported("lines separated by %r" % (C.args[2],))
            more = z3.And(G["good"], G["line"] < NLINES)
            put(C, 1, z3.If(more, G["line"], z3.IntVal(-1)))
            G["line"], G["good"] = z3.If(more, G["line"] + 1, G["line"]), more
            return C.args[0]

        def find(C):
            t, at = literal(ex, C.args[1]), C.args[2]
            if t not in ("SCALARS", "VECTORS") or at != 0:
                raise Unsupported("search for %r" % (t,))
            r = ex.fresh("found")
            C.st.assume(z3.And(r >= 0, r <= NPOS, (r == 0) == (LK(T(C, 0)) == (1 if t == "SCALARS" else 2))))
            return r

        def ignore(C):
            n, c = C.args[1], C.args[2]
            k = "str:%r" % (C.args[0],)
            if k in C.st.ghost:                      # the heading: skips its first word
                if n not in range(7, 1 << 40) or c != 32:
                    raise Unsupported("ignore(%r, %r) of a heading" % (n, c))
                C.st.ghost[k + "w"] = C.st.ghost[k + "w"] + 1
            else:                                    # the file: skips the rest of the line
                if n not in range(100, 1 << 62) or c != 10:
                    raise Unsupported("ignore(%r, %r) of the file" % (n, c))
                G = C.st.ghost
                G["line"] = z3.If(z3.And(G["good"], G["line"] < NLINES), G["line"] + 1, G["line"])
            return C.args[0]

        def word(C):
            k = "str:%r" % (C.args[0],)
            put(C, 1, z3.If(C.st.ghost[k + "w"] == 1, NM(C.st.ghost[k]), z3.IntVal(-7)))
            return C.args[0]

        def stream(C):
            put(C, 0, T(C, 1))
            C.st.ghost["str:%r" % (C.args[0],) + "w"] = z3.IntVal(0)

        def pair(C):
            put(C, 0, T(C, 1))
            C.st.ghost["pos:%r" % (C.args[0],)] = zi(ex.load(C.st, C.args[2], ir.IntTy(64)))

        def insert(C):
            G = C.st.ghost
            k, p = T(C, 1), G["pos:%r" % (C.args[1],)]
            old = z3.Select(G["has"], k)
            G["has"], G["at"] = z3.Store(G["has"], k, True), z3.If(old, G["at"], z3.Store(G["at"], k, p))
            return Agg([C.args[0].step("it", 0, None, ""), z3.If(old, z3.IntVal(0), z3.IntVal(1))])

        def seek(C):
            if not (len(C.args) == 3 and C.args[1] == 0):
                raise Unsupported("seekg " + repr(C.args))
            C.st.ghost["line"] = z3.If(C.st.ghost["good"], z3.IntVal(0), C.st.ghost["line"])
            return C.args[0]

        def clear(C):
            if C.args[1] != 0:
                raise Unsupported("clear")
            C.st.ghost["good"] = z3.BoolVal(True)
        c = ctx.contract
        c(r"^(std::.*& )?std::getline<", getline)
        c(r"^std::(__cxx11::)?basic_string<.*>::find\(char const\*, unsigned long\)", find)
        c(r"^std::(__cxx11::)?basic_stringstream<.*>::basic_stringstream\(std::(__cxx11::)?(basic_)?string", stream)
        c(r"^std::(basic_)?istream(<.*>)?::ignore\(", ignore)
        c(r"^(std::.*& )?std::operator>><", word)
        c(r"^(std::pair<.*)?std::make_pair<", pair)
        c(r"^std::pair<std::(__cxx11::)?(basic_)?string.*>::~pair\(\)", lambda C: None)
        c(r"^std::map<std::(__cxx11::)?(basic_)?string.*>::~?map\(\)", lambda C: None)
        c(r"^(std::.*)?std::map<std::(__cxx11::)?(basic_)?string.*>::insert<", insert)
        c(r"^std::(basic_)?istream(<.*>)?::seekg\(", seek)
        c(r"^std::(basic_)?istream(<.*>)?::tellg\(", lambda C: Agg([LPOS(C.st.ghost["line"]), 0]))
        c(r"^std::(basic_)?ios(<.*>)?::clear\(", clear)
        c(r"^std::(basic_)?ios(<.*>)?::operator bool\(", lambda C: C.st.ghost["good"])
        vt = "vtab0"
        ctx.st.roots[vt] = None
        ctx.st.mem[(vt, (), -24, "i64")] = 0
        ex.store(ctx.st, Ptr("@g_in"), ir.PTR, Ptr(vt))
        s, q = ctx.fresh("l*"), ctx.fresh("name*")
        S = z3.If(LK(s) == 1, s + 2, s + 1)

        def fl(x):
            """validity of the file at the line x: different names, a heading is followed by numbers"""
            return [z3.Implies(z3.And(x >= 0, x < NLINES, LK(x) != 0), z3.And(z3.If(LK(x) == 1, x + 2, x + 1) < NLINES, z3.Implies(LK(x) == 1, LK(x + 1) == 0), NM(x) >= 0, z3.Implies(NM(x) == NM(s), x == s)))]
        ctx.assume(s < NLINES, z3.Or(LK(s) == 1, LK(s) == 2))
        x_ = z3.Int("x!")
        ctx.assume(z3.ForAll([x_], z3.And(LPOS(x_) >= 0, LPOS(x_) < (1 << 60), LK(x_) >= 0, LK(x_) <= 2), patterns=[LPOS(x_)]))
        named = lambda g, W: z3.Implies(z3.Select(g["has"], NM(s)), z3.And(W, z3.Select(g["at"], NM(s)) == LPOS(S)))

        def inv(L, vw, k):
            g = vw.st.ghost
            return [("iteration bounded (termination)", k <= g["line"]), ("lines", z3.And(g["line"] >= 0, g["line"] <= NLINES, g["good"], z3.Implies(g["line"] == s + 1, LK(s) != 1))),
                    ("attributes of the lines read", z3.Select(g["has"], NM(s)) == (s < g["line"])), ("their places", named(g, s < g["line"]))]

        def facts(L, vw, k):
            g = vw.st.ghost
            return fl(s) + fl(g["line"]) + fl(g["line"] - 1) + fl(g["line"] - 2)
        ctx.spec.loopfn = lambda L: LoopSpec(inv, facts, facts)

        def post(vw, rv):
            g = vw.st.ghost
            return [("the place of every attribute is found", z3.And(z3.Select(g["has"], NM(s)), z3.Select(g["at"], NM(s)) == LPOS(S))), ("the stream is ready to read", g["good"])]
        ctx.run("drv_idx", [], post)
    return Entry(name, "vtkdata.cpp", fn, AC + ("-DGV_DIM=%d" % dim,), fmode="uf")


def whole(name, dim, read):
    """every described attribute exactly once"""
    def fn(ctx):
        g = ctx.st.ghost
        for i in range(3):
            g["done%d" % i] = z3.IntVal(0)
        if read:
            Tokens(ctx)
            g["index"] = z3.IntVal(0)
            ctx.contract(r"VTKMeshDataReader<%du, .*>::indexData(\[abi:cxx11\])?\(" % dim, lambda C: g_set(C, "index", C.st.ghost["index"] + 1))
            ctx.contract(r"^std::map<std::.*::~map\(\)", lambda C: None)
        else:
            OutTokens(ctx)
            nw = ctx.obs("ob_ncells")
            v0 = View(ctx.ex, ctx.st.clone())

        def g_set(C, k, v):
            C.st.ghost[k] = v

        def col(i):
            def f(C):
                G = C.st.ghost
                ok = z3.And(G["done%d" % i] == 0, *([G["index"] == 1] if read else [G["wn"] == 2, G["gap"] == 1]))
                G["done%d" % i] = z3.If(ok, z3.IntVal(1), z3.IntVal(99))
                if not read:
                    G["gap"] = z3.IntVal(0)
            return f
        for i in range(3):
            ctx.contract(r"VTKMeshData%s<%du(, .*)?>::%sColumn<D, %du" % ("Reader" if read else "Writer", dim, "read" if read else "write", i), col(i))

        def post(vw, rv):
            G = vw.st.ghost
            r = [("every described attribute is treated exactly once", z3.And(*[G["done%d" % i] == 1 for i in range(3)]))]
            if not read:
                r += [("heading", z3.And(z3.Select(G["outI"], 0) == WORD("CELL_DATA"), z3.Select(G["outI"], 1) == zi(nw(v0)), G["glued"] == 0)), ("a separator follows the last attribute", G["gap"] == 1)]
            return r
        ctx.run("drv_rall" if read else "drv_all", [], post)
    return Entry(name, "vtkdata.cpp", fn, AC + ("-DGV_DIM=%d" % dim,), fmode="uf")


def entries():
    r = [places("index%d" % d, d) for d in (2, 3)] + [whole("write%d/all" % d, d, False) for d in (2, 3)] + [whole("read%d/all" % d, d, True) for d in (2, 3)]
    for dim in (2, 3):
        for i in range(3):
            r += [column("write%d/%s" % (dim, ("scalar", "vector", "last scalar")[i]), dim, i), reads("read%d/%s" % (dim, ("scalar", "vector", "last scalar")[i]), dim, i)]
    return r
