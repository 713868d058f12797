"""FPMA files: reading and writing."""
import re
from gtv import ir
from gtv.core import Ptr, Fn, Unsupported
from .meshlib import *
from .strmap import *
from .strmap import StrMap
from .c19 import literal
HARNESS = [("h_c16.cpp", []), ("h_c16.cpp", ["-DPRE"])]
HARNESS_WHAT = "histories of writing and reading polyhedral meshes with one writer, one reader and one target (random prisms over polygons, tetrahedra, pyramids, hexahedra, wedges, random numbering and orientation, scaled coordinates), the text and the mesh read compared with an independent description"
LEVEL = "proved"
EXPLORED = "proved for all meshes and files: the numbers written and their order, the walk which orders the corners of a face, the hash test before indexing; vertices read with their coordinates, the edges found for the faces (each pair of vertices once, the edges of a face join its consecutive vertices), the links of the faces of the cells and left/right cells, order of the reading into an empty mesh; bounded (harness): the whole file to file and mesh to mesh path, the original order of the faces of a cell in the writer, cell types, rejecting faces with more edges than reserved"
ASSUMPTIONS = ["input and output streams hold a sequence of numbers separated by blanks (contracts of operator>>, operator<<, seekg, endl); the text of one number reads back as that number",
               "the text of a pair of numbers separated by ; determines the pair (std::to_string, operator+ on strings, std::unordered_map by contract)",
               "validity of the file: counts and indices in range, each face listed by at most two cells, at least one vertex per face and one face per cell",
               "writer: the edges of a face form one closed line with different corners; the elements carry their positions as indices; the parts of the reading and the writing are composed by their contracts"]
tokI = z3.Function("tokI", INT, INT)
REST = z3.Function("restOfLine", INT, INT)
tokR = z3.Function("tokR", INT, z3.RealSort())


AC = ("-fno-access-control",)


class Tokens:
    """contracts of the input stream: a sequence of numbers, ghost 'pos' is the position"""

    def __init__(self, ctx):
        self.ctx = ctx
        ctx.st.ghost["pos"] = z3.Int("pos")
        ctx.assume(z3.Int("pos") >= 0)
        ctx.contract(r"^std::(basic_)?istream(<.*>)?::(operator>>\(|_M_extract<)|^std::(basic_)?istream& std::(basic_)?istream(<.*>)?::_M_extract<", self.extract)
        ctx.contract(r"istream.*::seekg\(", self.seek)
        ctx.contract(r"istream.*::ignore\(", self.ignore)

    def extract(self, C):
        g, ex = C.st.ghost, C.ex
        p = g["pos"]
        if re.search(r"\(double&\)|_M_extract<double>", C.dem):
            ex.store(C.st, C.args[1], ir.F64, tokR(p))
        elif re.search(r"\(unsigned long&\)|_M_extract<unsigned long>", C.dem):
            C.st.assume(z3.And(tokI(p) >= 0, tokI(p) < (1 << 64)))
            ex.store(C.st, C.args[1], ir.IntTy(64), tokI(p))
        elif re.search(r"\(int&\)", C.dem):
            C.st.assume(z3.And(tokI(p) >= 0, tokI(p) < (1 << 31)))
            ex.store(C.st, C.args[1], ir.IntTy(32), tokI(p))
        else:
            raise Unsupported("extraction " + C.dem)
        g["pos"] = p + 1
        return C.args[0]

    def ignore(self, C):
        """the rest of the line"""
        C.st.ghost["pos"] = REST(C.st.ghost["pos"])
        return C.args[0]

    def seek(self, C):
        C.st.ghost["pos"] = z3.IntVal(0)
        return C.args[0]


def vertices(name, res):
    def fn(ctx):
        ex = ctx.ex
        m = Mesh(ctx, 3)
        Tokens(ctx)
        v0 = View(ex, ctx.st.clone())
        p0 = ctx.st.ghost["pos"]
        n = tokI(p0)
        ctx.assume(n >= 0, n < (1 << 40))
        vi, vc = ctx.obs("ob_vidx"), ctx.obs("ob_vc")
        j = ctx.fresh("j*")
        f = ctx.fresh("f*")
        ctx.assume(j < n)

        def inv(L, vw, k):
            return [("iteration bounded (termination)", k <= n), ("three numbers per vertex", vw.st.ghost["pos"] == p0 + 1 + 3 * k),
                    ("number of vertices", zi(m.nv(vw)) == n),
                    ("indices of the read vertices", z3.Implies(j < k, zi(vi(vw, j)) == j))] + \
                   [("coordinate %d of the read vertices" % d, z3.Implies(j < k, vc(vw, j, d) == tokR(p0 + 1 + 3 * j + d))) for d in range(3)]
        ctx.spec.loopfn = lambda L: LoopSpec(inv, lambda L, vw, k: [], lambda L, vw, k: []) if L.parent is None else None

        def post(vw, rv):
            return [("as many vertices as the file states", zi(m.nv(vw)) == n), ("vertex carries its index", zi(vi(vw, j)) == j)] + \
                [("coordinate %d of every vertex is read" % d, vc(vw, j, d) == tokR(p0 + 1 + 3 * j + d)) for d in range(3)] + \
                [("the reading stops behind the last vertex", vw.st.ghost["pos"] == p0 + 1 + 3 * n),
                 ("edges, faces and cells untouched", z3.And(zi(m.ne(vw)) == zi(m.ne(v0)), zi(m.nf(vw)) == zi(m.nf(v0)), zi(m.nc(vw)) == zi(m.nc(v0))))]
        ctx.run("drv_vertices", [], post)
    return Entry(name, "fpma.cpp", fn, AC + (("-DGV_RES=6",) if res else ()))


# the incidence stated by the file: cell c lists FN(c) faces, the k-th of them is F(c,k)
CS = z3.Function("cellpos", INT, INT)
FN = lambda c: tokI(CS(c))
F_ = lambda c, k: tokI(CS(c) + 1 + k)
C1, K1, C2, K2 = (z3.Function(n, INT, INT) for n in ("occ1_cell", "occ1_pos", "occ2_cell", "occ2_pos"))


def cells(name, res):
    def fn(ctx):
        ex = ctx.ex
        m = Mesh(ctx, 3)
        Tokens(ctx)
        v0 = View(ex, ctx.st.clone())
        p0 = ctx.st.ghost["pos"]
        n = tokI(p0)
        nf = zi(m.nf(v0))
        ci = ctx.obs("ob_cidx")
        ctx.assume(n >= 0, n < (1 << 40), nf < (1 << 60), CS(0) == p0 + 1)
        g_ = z3.Int("g!f")
        # the faces read before carry no cells
        i_ = z3.Int("i!f")
        for ob in (m.left, m.right):
            x = zi(ob(v0, i_))
            ctx.assume(z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < nf), x == INV), patterns=[x]))
        cs, ks, fs = ctx.fresh("c*"), ctx.fresh("k*"), ctx.fresh("f*")
        ctx.assume(cs < n, ks < FN(cs), fs < nf)

        def facts_c(c):
            """validity of the file, for the cell c"""
            return [z3.Implies(z3.And(c >= 0, c < n), z3.And(FN(c) >= 1, FN(c) < (1 << 40), CS(c + 1) == CS(c) + 1 + FN(c)))]

        def valid(c, k):
            return z3.And(c >= 0, c < n, k >= 0, k < FN(c))

        def facts_ck(c, k):
            f = F_(c, k)
            return facts_c(c) + [z3.Implies(valid(c, k), z3.And(f >= 0, f < nf, z3.Or(z3.And(c == C1(f), k == K1(f)), z3.And(c == C2(f), k == K2(f)))))]

        def facts_f(f):
            # (a face without a first or second cell names cell n there)
            return [C1(f) >= 0, C1(f) <= n, C2(f) >= 0, C2(f) <= n, z3.Implies(C1(f) < n, z3.And(C1(f) < C2(f), K1(f) >= 0, K1(f) < FN(C1(f)), F_(C1(f), K1(f)) == f)),
                    z3.Implies(C1(f) == n, C2(f) == n), z3.Implies(C2(f) < n, z3.And(K2(f) >= 0, K2(f) < FN(C2(f)), F_(C2(f), K2(f)) == f))]

        def nxt(c, k):
            return z3.If(k + 1 == FN(c), F_(c, 0), F_(c, k + 1))

        def done(L, c, k, K):
            """occurrence (c,k) is linked when loop L is at iteration K"""
            if L is None:
                return c < n
            if L.parent is None:
                return c < K
            cc = L.parent.k
            return z3.Or(c < cc, z3.And(c == cc, z3.If(K == FN(cc), k < K, k + 1 < K)))

        def cellstate(L, kind, old, f, K):
            d1, d2 = done(L, C1(f), K1(f), K), done(L, C2(f), K2(f), K)
            return {"left": z3.If(d1, C1(f), old), "right": z3.If(d2, C2(f), old), "nleft": z3.If(d1, nxt(C1(f), K1(f)), old), "nright": z3.If(d2, nxt(C2(f), K2(f)), old)}[kind]

        def inv(L, vw, k):
            r = [("iteration bounded (termination)", k <= n if L.parent is None else k <= FN(L.parent.k)),
                 ("position in the file", vw.st.ghost["pos"] == (CS(k) if L.parent is None else CS(L.parent.k) + 1 + k)), ("number of cells", zi(m.nc(vw)) == n), ("number of faces", zi(m.nf(vw)) == nf)]
            for kind, ob in (("left", m.left), ("right", m.right), ("nleft", m.nleft), ("nright", m.nright)):
                x = zi(ob(vw, i_))
                r.append(("%s of every face" % kind, z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < nf), x == cellstate(L, kind, zi(ob(v0, i_)), i_, k)), patterns=[x])))
            r += [("boundary and index of the cells read", z3.Implies(done(L, cs, ks, k) if L.parent is None else z3.Or(cs < L.parent.k, z3.And(cs == L.parent.k, k > 0)), zi(m.bnd(vw, cs)) == F_(cs, 0))),
                  ("index of the cells read", z3.Implies(cs < k if L.parent is None else cs <= L.parent.k, zi(ci(vw, cs)) == cs))]
            if L.parent is not None:
                c = L.parent.k
                r += [("boundary of the cell being read", z3.Implies(k > 0, zi(m.bnd(vw, c)) == F_(c, 0)))]
            return r

        def facts(L, vw, k):
            r = facts_ck(cs, ks)
            if L.parent is None:
                return r + facts_c(k)
            c = L.parent.k
            return r + facts_c(c) + facts_ck(c, k) + facts_ck(c, k - 1) + facts_ck(c, z3.IntVal(0)) + facts_ck(c, k + 1)

        def forms(L):
            if L.parent is None:
                return []
            c = L.parent.k
            return [("i64", lambda k: z3.If(k == 0, z3.IntVal(INV), F_(c, k - 1)))]

        def offers(L, ex, key, w0):
            r = []
            return r

        def loop(L):
            return LoopSpec(inv, facts, facts, forms, offers)
        ctx.spec.loopfn = loop
        ctx.assume(z3.ForAll([i_], z3.And(*facts_f(i_)), patterns=[C1(i_)]))
        ctx.assume(*facts_ck(cs, ks))
        ctx.spec.unroll_const = True
        ctx.spec.noforms = lambda L: L.parent is None

        def post(vw, rv):
            f = F_(cs, ks)
            return [("as many cells as the file states", zi(m.nc(vw)) == n), ("cell carries its index", zi(ci(vw, cs)) == cs), ("the ring of a cell starts at its first face", zi(m.bnd(vw, cs)) == F_(cs, 0)),
                    ("the first cell which lists a face is on its left", zi(m.left(vw, fs)) == z3.If(C1(fs) < n, C1(fs), INV)), ("the second cell which lists a face is on its right", zi(m.right(vw, fs)) == z3.If(C2(fs) < n, C2(fs), INV)),
                    ("the reading stops behind the last cell", vw.st.ghost["pos"] == CS(n))] + \
                [("the faces of a cell are linked in the order of the file", z3.Implies(fs == f, m.nxt(vw, cs, fs) == nxt(cs, ks)))]
        ctx.run("drv_cells", [], post)
    return Entry(name, "fpma.cpp", fn, AC + (("-DGV_RES=6",) if res else ()))


FS = z3.Function("facepos", INT, INT)
VN = lambda f: tokI(FS(f))
V_ = lambda f, j: tokI(FS(f) + 1 + j)


def fa(v, body, x):
    """for all v, triggered by the observed term x (which may be a constant at some loop heads)"""
    try:
        return z3.ForAll([v], body, patterns=[x])
    except z3.Z3Exception:
        return z3.ForAll([v], body)


def lo(a, b):
    return z3.If(a < b, a, b)


def hi(a, b):
    return z3.If(a < b, b, a)


def faces(name):
    def fn(ctx):
        ex = ctx.ex
        m = Mesh(ctx, 3)
        Tokens(ctx)
        sm = StrMap(ctx, literal)
        v0 = View(ex, ctx.st.clone())
        p0 = ctx.st.ghost["pos"]
        n = tokI(p0)
        fi, ei = ctx.obs("ob_fidx"), ctx.obs("ob_eidx")
        i_, k_ = z3.Ints("i!f k!f")
        ctx.assume(n >= 0, n < (1 << 30), zi(m.nf(v0)) == 0, zi(m.ne(v0)) == 0, FS(0) == p0 + 1)
        fs, js, e1, e2 = ctx.fresh("f*"), ctx.fresh("j*"), ctx.fresh("e1*"), ctx.fresh("e2*")
        ctx.assume(fs < n, js < VN(fs))

        def facts_f(f):
            return [z3.Implies(z3.And(f >= 0, f < n), z3.And(VN(f) >= 1, VN(f) < (1 << 30), FS(f + 1) == FS(f) + 1 + VN(f)))]

        def nx(f, j):
            return z3.If(j + 1 == VN(f), V_(f, 0), V_(f, j + 1))

        def joins(vw, e, f, j):
            a, b = zi(m.ea(vw, e)), zi(m.eb(vw, e))
            return z3.Or(z3.And(a == V_(f, j), b == nx(f, j)), z3.And(b == V_(f, j), a == nx(f, j)))

        def mapstate(vw):
            g = vw.st.ghost
            ds = [k for k in g if k.startswith("dom:")]
            if len(ds) != 1:
                raise Unsupported("one map of edges expected")
            D = g[ds[0]]
            cells = [k for k in vw.st.mem if k[1] and k[1][-1][0] == "map" and k[3] == "i64"]
            return D, (cells[0] if cells else None)

        def edges(vw):
            D, key = mapstate(vw)
            ne = zi(m.ne(vw))
            a, b = zi(m.ea(vw, i_)), zi(m.eb(vw, i_))
            r = [("number of edges", z3.And(ne >= 0))]
            if key is None:
                return r + [("no edge before the first face", z3.And(ne == 0, z3.ForAll([k_], z3.Not(z3.Select(D, k_)))))]
            val = lambda k: z3.Select(vw.st.mem[key], k)
            kk = KEY(lo(a, b), hi(a, b))
            va, vb = zi(m.ea(vw, val(k_))), zi(m.eb(vw, val(k_)))
            return r + [("every edge is found under its vertices", fa(i_, z3.Implies(z3.And(i_ >= 0, i_ < ne), z3.And(z3.Select(D, kk), val(kk) == i_)), a)),
                        ("every key names an edge between its vertices", z3.ForAll([k_], z3.Implies(z3.Select(D, k_), z3.And(val(k_) >= 0, val(k_) < ne, k_ == KEY(lo(va, vb), hi(va, vb)))), patterns=[z3.Select(D, k_)])),
                        ("edge carries its index", z3.Implies(e1 < ne, zi(ei(vw, e1)) == e1))]

        def inv(L, vw, k):
            if L.parent is None:
                F, K, pos, done = k, None, FS(k), fs < k
                sub = z3.If(i_ < k, VN(i_), 0)
                r = [("iteration bounded (termination)", k <= n)]
            else:
                F = L.parent.k
                first = L.name.endswith(".0")
                r = [("iteration bounded (termination)", k <= VN(F))]
                pos = FS(F) + 1 + (k if first else VN(F))
                kk = z3.IntVal(0) if first else k
                sub = z3.If(i_ < F, VN(i_), z3.If(i_ == F, kk, 0))
                done = z3.Or(fs < F, z3.And(fs == F, js < kk))
            ns = zi(m.nsub(vw, i_))
            r += [("no face belongs to a cell yet", z3.And(zi(m.left(vw, fs)) == INV, zi(m.right(vw, fs)) == INV)), ("position in the file", vw.st.ghost["pos"] == pos), ("number of faces", zi(m.nf(vw)) == n),
                  ("number of edges of the faces", fa(i_, z3.Implies(z3.And(i_ >= 0, i_ < n), ns == sub), ns)),
                  ("face carries its index", z3.Implies(fs < k if L.parent is None else fs <= F, zi(fi(vw, fs)) == fs))]
            s_ = zi(m.sub(vw, fs, js))
            r += [("edges of a face join its consecutive vertices", z3.Implies(done, z3.And(s_ >= 0, s_ < zi(m.ne(vw)), joins(vw, s_, fs, js))))]
            return r + edges(vw)

        def facts(L, vw, k):
            r = facts_f(fs)
            F = k if L.parent is None else L.parent.k
            return r + facts_f(F)

        def offers(L, ex, key, w0):
            # the vertices of the face being read
            if L.parent is not None and key[3] == "i64" and len(key[1]) == 1 and key[1][0][0] == "buf" and not key[0].startswith("@"):
                F = L.parent.k
                N = VN(F) if not L.name.endswith(".0") else None
                return [Offer("vertices of the face read so far", lambda k, S: z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < (k if N is None else N)), z3.Select(S.mem[key], i_) == V_(F, i_)), patterns=[z3.Select(S.mem[key], i_)]))]
            return []
        ctx.spec.loopfn = lambda L: LoopSpec(inv, facts, facts, lambda L: [], offers)
        ctx.spec.unroll_const = True
        ctx.spec.noforms = lambda L: L.parent is None
        ctx.assume(*facts_f(fs))

        def post(vw, rv):
            s_ = zi(m.sub(vw, fs, js))
            ne = zi(m.ne(vw))
            pr = lambda e: (lo(zi(m.ea(vw, e)), zi(m.eb(vw, e))), hi(zi(m.ea(vw, e)), zi(m.eb(vw, e))))
            x, y = pr(e1), pr(e2)
            return [("as many faces as the file states", zi(m.nf(vw)) == n), ("face carries its index", zi(fi(vw, fs)) == fs), ("every face has as many edges as vertices in the file", zi(m.nsub(vw, fs)) == VN(fs)),
                    ("the edges of a face join its consecutive vertices", z3.And(s_ < ne, joins(vw, s_, fs, js))),
                    ("edge carries its index", z3.Implies(e1 < ne, zi(ei(vw, e1)) == e1)),
                    ("different edges join different vertices", z3.Implies(z3.And(e1 < ne, e2 < ne, x[0] == y[0], x[1] == y[1]), e1 == e2)),
                    ("no face belongs to a cell yet", z3.And(zi(m.left(vw, fs)) == INV, zi(m.right(vw, fs)) == INV)), ("the reading stops behind the last face", vw.st.ghost["pos"] == FS(n)), ("cells untouched", zi(m.nc(vw)) == zi(m.nc(v0)))]
        ctx.run("drv_faces", [], post)
    return Entry(name, "fpma.cpp", fn, AC)


def load(name):
    """order of the parts of the reading, on an empty mesh"""
    def fn(ctx):
        m = Mesh(ctx, 3)
        Tokens(ctx)
        g = ctx.st.ghost
        g["step"], g["empty"], g["types"] = z3.IntVal(0), z3.BoolVal(True), z3.IntVal(0)

        def part(i):
            def f(C):
                vw = View(ctx.ex, C.st)
                G = C.st.ghost
                if i == 1:
                    G["empty"] = z3.And(G["pos"] == 0, *[zi(x(vw)) == 0 for x in (m.nv, m.ne, m.nf, m.nc)])
                G["step"] = z3.If(G["step"] == i - 1, z3.IntVal(i), z3.IntVal(99))
            return f
        for i, nm in enumerate(("loadVertices", "loadFaces", "loadCells")):
            ctx.contract(r"FPMAMeshReader<3u>::%s<" % nm, part(i + 1))
        ctx.contract(r"FPMAMeshReader<3u>::setupCellTypes<", lambda C: C.st.ghost.__setitem__("types", z3.If(C.st.ghost["step"] == 3, z3.IntVal(1), z3.IntVal(99))))
        ctx.contract(r"::updateSignature\(", lambda C: None)
        ctx.run("drv_load", [], lambda vw, rv: [("vertices, faces and cells are read in this order", vw.st.ghost["step"] == 3), ("from the beginning of the file into an empty mesh", vw.st.ghost["empty"]), ("the cell types are set up for the cells read", vw.st.ghost["types"] == 1)])
    return Entry(name, "fpma.cpp", fn, AC)


def WORD(w):
    """code of a word, different from those of numbers"""
    return z3.IntVal(-1 - int.from_bytes(w.encode(), "big"))


class OutTokens:
    """contracts of the output stream: the numbers written so far (ghosts outI/outR, wn of them)
    and whether a separator follows the last of them"""

    def __init__(self, ctx):
        self.ctx, self.ex = ctx, ctx.ex
        g = ctx.st.ghost
        g["outI"] = z3.Const("outI", z3.ArraySort(INT, INT))
        g["outR"] = z3.Const("outR", z3.ArraySort(INT, ctx.ex.F))
        g["wn"], g["gap"], g["glued"] = z3.IntVal(0), z3.IntVal(1), z3.IntVal(0)
        ctx.contract(r"operator<<.*\(|ostream.*::(put|_M_insert)", self.insert)
        ctx.contract(r"std::endl<|^std::(basic_)?ostream<.*>::flush\(", self.sep)

    def sep(self, C):
        C.st.ghost["gap"] = z3.IntVal(1)
        return C.args[0]

    def insert(self, C):
        g = C.st.ghost
        m = re.search(r"(?:operator<<|put)(?: ?<.*>)?\((.*)\)(?: const)?$", C.dem)
        a = re.sub(r"std::(basic_)?ostream(<char, ?std::char_traits<char> ?>)? ?&, ?", "", m.group(1))
        v = C.args[1]
        if "(*)" in a:
            if not (isinstance(v, Fn) and "endl" in v.name):
                raise Unsupported("manipulator %r" % (v,))
            return self.sep(C)
        if a in ("char const*", "const char*", "char"):
            if a == "char":
                t = chr(v % 256) if isinstance(v, int) else None
            else:
                t = literal(self.ex, v)
            if t is None:
                raise Unsupported("text written is not a constant")
            for w in re.findall(r"\s+|\S+", t):
                if w.isspace():
                    g["gap"] = z3.IntVal(1)
                else:
                    g["outI"] = z3.Store(g["outI"], g["wn"], WORD(w))
                    self.done(g)
            return C.args[0]
        if a in ("double", "float"):
            g["outR"] = z3.Store(g["outR"], g["wn"], self.ex.flit(v))
        else:
            bits = {"int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64, "unsigned long long": 64}.get(a)
            if bits is None:
                raise Unsupported("output of " + a)
            g["outI"] = z3.Store(g["outI"], g["wn"], zi(v) if a.startswith("unsigned") else zi(self.ex.to_signed(C.st, v, bits)))
        self.done(g)
        return C.args[0]

    def done(self, g):
        g["glued"] = z3.If(g["gap"] == 0, z3.IntVal(1), g["glued"])
        g["wn"] = g["wn"] + 1
        g["gap"] = z3.IntVal(0)


WF, WC = z3.Function("wfacepos", INT, INT), z3.Function("wcellpos", INT, INT)


def writes(name, res):
    """the text written: numbers and their order"""
    def fn(ctx):
        ex = ctx.ex
        m = Mesh(ctx, 3)
        OutTokens(ctx)
        v0 = View(ex, ctx.st.clone())
        nfv, fvn, fv, ncf, cfn, cf, last = (ctx.obs("ob_" + x) for x in ("nfv", "fvn", "fv", "ncf", "cfn", "cf", "last"))
        vc, fi, ci = ctx.obs("ob_vc"), ctx.obs("ob_fidx"), ctx.obs("ob_cidx")
        nv, nf, nc = zi(m.nv(v0)), zi(m.nf(v0)), zi(m.nc(v0))
        ctx.assume(zi(nfv(v0)) == nf, zi(ncf(v0)) == nc, nv < (1 << 40), nf < (1 << 40), nc < (1 << 40))
        ctx.st.ghost["indexed"] = z3.IntVal(0)
        hsh = z3.Int("hash")
        ctx.assume(hsh >= 0, hsh < (1 << 64))
        ctx.contract(r"MeshWriter<3u>::computeHash", lambda C: hsh)

        def index(C):
            C.st.ghost["indexed"] = C.st.ghost["indexed"] + z3.If(C.st.ghost["wn"] == 0, 1, 2)
        ctx.contract(r"::indexMesh<", index)
        vs, fs, js, cs, ks = (ctx.fresh(x) for x in ("v*", "f*", "j*", "c*", "k*"))
        FVN, CFN = (lambda f: zi(fvn(v0, f))), (lambda c: zi(cfn(v0, c)))
        ctx.assume(vs < nv, fs < nf, js < FVN(fs), cs < nc, ks < CFN(cs))
        i_ = z3.Int("i!")
        for ob, n in ((fi, nf), (ci, nc)):
            x = zi(ob(v0, i_))
            ctx.assume(z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), x == i_), patterns=[x]))
        ctx.assume(WF(0) == 1 + 3 * nv + 1, WC(0) == WF(nf) + 1)

        def ff(f):
            return [z3.Implies(z3.And(f >= 0, f < nf), z3.And(WF(f + 1) == WF(f) + 1 + FVN(f), FVN(f) >= 0, FVN(f) < (1 << 40)))]

        def fc(c):
            return [z3.Implies(z3.And(c >= 0, c < nc), z3.And(WC(c + 1) == WC(c) + 1 + CFN(c), CFN(c) >= 0, CFN(c) < (1 << 40)))]
        ctx.assume(*(ff(fs) + fc(cs)))

        def tokens(vw, V, Fn_, J, Cn, K):
            g = vw.st.ghost
            oi, orr = (lambda p: z3.Select(g["outI"], p)), (lambda p: z3.Select(g["outR"], p))
            r = [("coordinates of the vertices", z3.Implies(V, z3.And(*[orr(1 + 3 * vs + d) == ex.flit(vc(v0, vs, d)) for d in range(3)])))]
            r += [("number of vertices first", oi(z3.IntVal(0)) == nv), ("numbers are separated", g["glued"] == 0)]
            if Fn_ is not None:
                r += [("number of faces", oi(1 + 3 * nv) == nf), ("number of vertices of a face", z3.Implies(Fn_, oi(WF(fs)) == FVN(fs))), ("vertices of a face", z3.Implies(J, oi(WF(fs) + 1 + js) == zi(fv(v0, fs, js))))]
            if Cn is not None:
                r += [("number of cells", oi(WF(nf)) == nc), ("number of faces of a cell", z3.Implies(Cn, oi(WC(cs)) == CFN(cs))), ("faces of a cell", z3.Implies(K, oi(WC(cs) + 1 + ks) == zi(cf(v0, cs, ks))))]
            return r

        def inv(L, vw, k):
            g = vw.st.ghost
            top = L.name.split(".")[0]
            T = z3.BoolVal(True)
            r = [("separated", g["gap"] == 1)]
            ok = lambda own, c: ("indices in order", own)
            if top == "0":
                r += [("iteration bounded (termination)", k <= nv), ("numbers written", g["wn"] == 1 + 3 * k)]
                return r + tokens(vw, vs < k, None, None, None, None)
            if top == "1":
                if L.parent is None:
                    r += [("iteration bounded (termination)", k <= nf), ("numbers written", z3.And(g["wn"] == WF(k), WF(k) >= WF(0), z3.Implies(fs < k, WF(fs + 1) <= WF(k)), WF(z3.If(fs < k, fs, k)) >= WF(0)))]
                    return r + tokens(vw, T, fs < k, fs < k, None, None)
                F = L.parent.k
                r += [("iteration bounded (termination)", k <= FVN(F)), ("numbers written", g["wn"] == WF(F) + 1 + k)]
                return r + tokens(vw, T, fs <= F, z3.Or(fs < F, z3.And(fs == F, js < k)), None, None)
            if L.parent is None:
                r += [("iteration bounded (termination)", k <= nc), ("numbers written", z3.And(g["wn"] == WC(k), WC(k) >= WC(0), z3.Implies(cs < k, WC(cs + 1) <= WC(k)), WC(z3.If(cs < k, cs, k)) >= WC(0)))]
                return r + tokens(vw, T, T, T, cs < k, cs < k)
            c = L.parent.k
            r += [("iteration bounded (termination)", k <= CFN(c)), ("numbers written", g["wn"] == WC(c) + 1 + k)]
            return r + tokens(vw, T, T, T, cs <= c, z3.Or(cs < c, z3.And(cs == c, ks < k)))

        def facts(L, vw, k):
            top = L.name.split(".")[0]
            i = k if L.parent is None else L.parent.k
            return ff(fs) + fc(cs) + (ff(i) if top == "1" else fc(i) if top == "2" else [])
        ctx.spec.loopfn = lambda L: LoopSpec(inv, facts, facts)
        ctx.spec.unroll_const = True

        def post(vw, rv):
            g = vw.st.ghost
            T = z3.BoolVal(True)
            return tokens(vw, T, T, T, T, T) + [("a zero closes the text", z3.And(g["wn"] == WC(nc) + 1, z3.Select(g["outI"], WC(nc)) == 0)),
                    ("the mesh is indexed before writing exactly when its hash is not the last one", g["indexed"] == z3.If(zi(last(v0)) == hsh, 0, 1)), ("the hash is remembered", zi(last(vw)) == hsh)]
        ctx.run("drv_write", [], post)
    return Entry(name, "fpma.cpp", fn, AC + (("-DGV_RES=6",) if res else ()), fmode="uf")


def ring(name, res):
    """the walk along the edges of a face"""
    def fn(ctx):
        ex = ctx.ex
        m = Mesh(ctx, 3)
        v0 = View(ex, ctx.st.clone())
        f = ctx.fresh("f*")
        nr, rg = ctx.obs("ob_nring"), ctx.obs("ob_ring")
        n = zi(m.nsub(v0, f))
        nf, ne = zi(m.nf(v0)), zi(m.ne(v0))
        ctx.assume(f < nf, n >= 3, n < (1 << 30), zi(nr(v0)) == 0)
        P, Q, c = (z3.Function(x, INT, INT) for x in ("edge_at", "place_of", "corner"))
        i_ = z3.Int("i!")
        S = lambda i: zi(m.sub(v0, f, i))
        A, B = (lambda e: zi(m.ea(v0, e))), (lambda e: zi(m.eb(v0, e)))
        # the edges of the face form one closed line: corner c(j), the edge from c(j) to c(j+1) has position P(j)
        nx = lambda j: z3.If(j + 1 == n, c(0), c(j + 1))

        def facts_i(i):
            e = S(i)
            j = Q(i)
            return [z3.Implies(z3.And(i >= 0, i < n), z3.And(e >= 0, e < ne, j >= 0, j < n, P(j) == i, z3.Or(z3.And(A(e) == c(j), B(e) == nx(j)), z3.And(B(e) == c(j), A(e) == nx(j)))))]

        def facts_j(j):
            return [z3.Implies(z3.And(j >= 0, j < n), z3.And(P(j) >= 0, P(j) < n, Q(P(j)) == j, IC(c(j)) == j))] + facts_i(P(j))
        IC = z3.Function("corner_no", INT, INT)
        SP = z3.Function("edge_no", INT, INT)
        # different corners, different edges
        ctx.assume(z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), z3.And(IC(c(i_)) == i_, Q(P(i_)) == i_, P(i_) >= 0, P(i_) < n)), patterns=[c(i_)]))
        ctx.assume(P(0) == 0, c(0) == B(S(0)), c(1) == A(S(0)), Q(0) == 0)
        ctx.assume(*(facts_j(z3.IntVal(0)) + facts_j(z3.IntVal(1)) + facts_i(z3.IntVal(0))))
        es = ctx.fresh("j*")
        ctx.assume(es < n)

        def state(L, vw, head):
            t = zi(nr(vw))
            mem = vw.st.mem
            get = lambda nm: [v for key, v in mem.items() if key[0].endswith("." + nm) and not key[1] and key[2] == 0]
            return t

        def inv(L, vw, k):
            t = zi(nr(vw))
            x = rg(vw, es)
            r = [("corners written", z3.And(t >= 1, t <= n)), ("the corners are written along the face", z3.Implies(es < t, zi(x) == c(es)))]
            if L.parent is None:
                r += [("every pass finds a corner (termination)", k < t)]
            else:
                t0 = zi(nr(L.entry))
                r += [("iteration bounded", k <= n), ("corners are only added", t >= t0), ("the next edge is not behind", z3.Implies(t == t0, P(t0) >= k)), ("only the last corner is left when", z3.Implies(t == n, z3.And(t0 < n)))]
                r += [("edge of the last corner is before", z3.Implies(t > t0, P(t - 1) < k))]
            return r

        def offers(L, ex, key, w0):
            if key[3] == "i64" and not key[1] and key[2] == 0:
                if key[0].endswith(".nextVertex"):
                    return [Offer("vertex to be written next", lambda k, S_: z3.Implies(True, zi(S_.mem[key]) == z3.If(T(S_) == n, c(0), c(T(S_)))), lambda k, S_: facts_j(T(S_)) + facts_j(T(S_) - 1))]
                if key[0].endswith(".lastWrittenEdge"):
                    return [Offer("last edge", lambda k, S_: zi(S_.mem[key]) == S(P(T(S_) - 1)), lambda k, S_: facts_j(T(S_) - 1))]
            return []

        def T(S_):
            return zi(nr(View(ex, S_)))

        def facts(L, vw, k):
            t = zi(nr(vw))
            r = facts_j(t) + facts_j(t - 1) + facts_j(z3.IntVal(0)) + facts_j(t + 1)
            for e in (S(k), S(P(t - 1)), S(P(t))):
                pass
            # different positions hold different edges
            r += [z3.Implies(S(k) == S(P(t - 1)), k == P(t - 1))] if L.parent is not None else []
            return r + (facts_i(k) + facts_j(Q(k)) if L.parent is not None else [])
        ctx.spec.loopfn = lambda L: LoopSpec(inv, facts, facts, lambda L: [], offers)

        def post(vw, rv):
            return [("every corner of the face is written once", zi(nr(vw)) == n), ("the corners are written along the face", zi(rg(vw, es)) == c(es))]
        ctx.run("drv_ring", [f], post)
    return Entry(name, "fpma.cpp", fn, AC + (("-DGV_RES=6",) if res else ()))


def entries():
    return [vertices("read/vertices", False), cells("read/cells", False), faces("read/faces"), ring("write/face ring", False), writes("write/text", False), load("read/order")]
