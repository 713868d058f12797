"""VTK files: reading and writing."""
import re
from gtv import ir
from gtv.core import Ptr, Fn, Unsupported
from .meshlib import *
from .strmap import *
from .strmap import StrMap
from .c19 import literal
from .c16 import Tokens, OutTokens, tokI, tokR, REST, AC, fa, lo, hi, WORD
LEVEL = "proved"
EXPLORED = "proved for all meshes and files: the numbers and words written and their order (2D and 3D), the walks which order the corners of a face or polygon, the hash test before indexing, the vertices and the types read (unsupported ones refused); in 2D the edges found for the polygons, their ends, their two cells and their links; bounded (harness): file to file and mesh to mesh as a whole, the reading of 3D cells, splitting of polyhedra, vertex order of the 3D shapes"
ASSUMPTIONS = ["input and output streams hold a sequence of numbers and words separated by blanks (contracts of operator>>, operator<<, ignore, endl); the text of one number reads back as that number",
               "the text of a pair of numbers separated by ; determines the pair (std::to_string, operator+ on strings, std::unordered_map by contract)",
               "the tables of types are given by supported(k), typeOf(k), codeOf(k): contents of the initialiser lists are checked by the harness only",
               "validity: edges of a face or polygon form one closed line with different corners, the elements carry their positions as indices, at most two polygons share a side"]
HARNESS_WHAT = "histories of writing and reading planar polygon meshes and meshes of tetrahedra, pyramids, wedges, hexahedra and polyhedra with random numbering and orientation; the text and the mesh read compared with an independent description, volumes of the split parts, unsupported files"
HARNESS = [("h_c17.cpp", ["-DD2"]), ("h_c17.cpp", ["-DGV_RESARG="]), ("h_c17.cpp", ["-DGV_RESARG=,6"])]


def vertices(name, dim):
    def fn(ctx):
        m = Mesh(ctx, dim)
        Tokens(ctx)
        v0 = View(ctx.ex, ctx.st.clone())
        p0 = ctx.st.ghost["pos"]
        n = tokI(p0)
        p1 = REST(p0 + 1)
        ctx.assume(n >= 0, n < (1 << 40))
        vi, vc = ctx.obs("ob_vidx"), ctx.obs("ob_vc")
        j = ctx.fresh("j*")
        ctx.assume(j < n)
        val = lambda vw, J: [("coordinate %d of the read vertices" % d, z3.Implies(J, vc(vw, j, d) == tokR(p1 + 3 * j + d))) for d in range(dim)]

        def inv(L, vw, k):
            return [("iteration bounded (termination)", k <= n), ("three numbers per vertex", vw.st.ghost["pos"] == p1 + 3 * k),
                    ("number of vertices", zi(m.nv(vw)) == n), ("indices of the read vertices", z3.Implies(j < k, zi(vi(vw, j)) == j))] + val(vw, j < k)
        ctx.spec.loopfn = lambda L: LoopSpec(inv, lambda L, vw, k: [], lambda L, vw, k: []) if L.parent is None else None

        def post(vw, rv):
            return [("as many vertices as the file states", zi(m.nv(vw)) == n), ("vertex carries its index", zi(vi(vw, j)) == j)] + val(vw, z3.BoolVal(True)) + \
                [("the reading stops behind the last vertex", vw.st.ghost["pos"] == p1 + 3 * n), ("edges and cells untouched", z3.And(zi(m.ne(vw)) == zi(m.ne(v0)), zi(m.nc(vw)) == zi(m.nc(v0))))]
        ctx.run("drv_vertices", [], post)
    return Entry(name, "vtk.cpp", fn, AC + ("-DGV_DIM=%d" % dim,))


SUP, TYP = z3.Function("supported", INT, z3.BoolSort()), z3.Function("typeOf", INT, INT)


class TypeTable:
    """contract of the table of types (std::map filled by its initialiser): supported(k), typeOf(k)"""

    def __init__(self, ctx):
        self.ctx = ctx
        ctx.contract(r"^std::map<.*ElementType.*>::find\(", self.find)
        ctx.contract(r"^std::map<.*ElementType.*>::c?end\(\)", lambda C: C.args[0].step("tabend", 0, None, ""))
        ctx.contract(r"operator==\(std::_Rb_tree_(const_)?iterator<", self.eq)
        ctx.contract(r"^bool std::operator!=<.*_Rb_tree|^std::_Rb_tree_(const_)?iterator<.*>::operator!=\(|operator!=\(std::_Rb_tree_(const_)?iterator<", lambda C: 1 - zi(self.eq(C)))
        ctx.contract(r"^std::_Rb_tree_(const_)?iterator<.*>::operator==\(", self.eq)
        ctx.contract(r"^std::_Rb_tree_(const_)?iterator<.*>::operator->\(\)", self.arrow)

    def find(self, C):
        k = zi(C.ex.load(C.st, C.args[1], ir.IntTy(32)))
        outs = []
        s1 = C.st.clone()
        s1.assume(SUP(k))
        if C.ex.feasible(s1):
            p = C.args[0].step("tab", k, None, "")
            s1.assume(z3.And(TYP(k) >= 0, TYP(k) < 256))
            C.ex.store(s1, p.add(4), ir.IntTy(32), TYP(k))
            outs.append(Outcome(s1, p))
        C.st.assume(z3.Not(SUP(k)))
        if C.ex.feasible(C.st):
            outs.append(Outcome(C.st, C.args[0].step("tabend", 0, None, "")))
        return outs

    def it(self, C, a):
        return C.ex.read(C.st, a, "ptr")

    def eq(self, C):
        p, q = (self.it(C, a) for a in C.args)
        x, y = p.steps[-1][0], q.steps[-1][0]
        if x != y:
            return 0
        return 1 if x == "tabend" else z3.If(zi(p.idxs[-1]) == zi(q.idxs[-1]), z3.IntVal(1), z3.IntVal(0))

    def arrow(self, C):
        p = self.it(C, C.args[0])
        if p.steps[-1][0] != "tab":
            raise Unsupported("iterator dereferenced at the end")
        return p


def types(name, dim):
    def fn(ctx):
        m = Mesh(ctx, dim)
        Tokens(ctx)
        TypeTable(ctx)
        v0 = View(ctx.ex, ctx.st.clone())
        p0 = ctx.st.ghost["pos"]
        n = tokI(p0)
        nt, ty = ctx.obs("ob_ntypes"), ctx.obs("ob_type")
        ctx.assume(n == zi(m.nc(v0)), n < (1 << 40))
        j = ctx.fresh("j*")
        ctx.assume(j < n)
        i_ = z3.Int("i!")

        def inv(L, vw, k):
            return [("iteration bounded (termination)", k <= n), ("position in the file", vw.st.ghost["pos"] == p0 + 1 + k), ("one type per cell", zi(nt(vw)) == n),
                    ("the types read are supported ones", z3.Implies(j < k, z3.And(SUP(tokI(p0 + 1 + j)), zi(ty(vw, j)) == TYP(tokI(p0 + 1 + j)))))]
        ctx.spec.loopfn = lambda L: LoopSpec(inv, lambda L, vw, k: [], lambda L, vw, k: [])

        def post(vw, rv):
            return [("a file with an unsupported type of a cell is refused", SUP(tokI(p0 + 1 + j))), ("every cell has the type stated for it", z3.And(zi(nt(vw)) == n, zi(ty(vw, j)) == TYP(tokI(p0 + 1 + j))))]
        ctx.run("drv_types", [], post, lambda vw: [("only a file with an unsupported type of a cell is refused", z3.Not(z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), SUP(tokI(p0 + 1 + i_))))))])
    return Entry(name, "vtk.cpp", fn, AC + ("-DGV_DIM=%d" % dim,))


WF = z3.Function("wcellpos", INT, INT)
CODE, KNOWN = z3.Function("codeOf", INT, INT), z3.Function("hasCode", INT, z3.BoolSort())


def code_table(ctx):
    """contract of the table of the codes of the types: at(t)"""
    def at(C):
        k = zi(C.ex.load(C.st, C.args[1], ir.IntTy(32)))
        outs = []
        s1 = C.st.clone()
        s1.assume(KNOWN(k))
        if C.ex.feasible(s1):
            p = C.args[0].step("tab", k, None, "")
            s1.assume(z3.And(CODE(k) >= 0, CODE(k) < 256))
            C.ex.store(s1, p, ir.IntTy(32), CODE(k))
            outs.append(Outcome(s1, p))
        C.st.assume(z3.Not(KNOWN(k)))
        if C.ex.feasible(C.st):
            outs.append(Outcome(C.st, throws="_ZTISt12out_of_range"))
        return outs
    ctx.contract(r"^std::map<.*ElementType.*>::at\(", at)


def writes(name, dim):
    def fn(ctx):
        ex = ctx.ex
        m = Mesh(ctx, dim)
        OutTokens(ctx)
        code_table(ctx)
        v0 = View(ex, ctx.st.clone())
        ncv, cvn, cv, last, ntyp, typ, total, vc = (ctx.obs("ob_" + x) for x in ("ncv", "cvn", "cv", "last", "ntyp", "typ", "total", "vc"))
        nv, nc = zi(m.nv(v0)), zi(m.nc(v0))
        N, NT = zi(ncv(v0)), zi(ntyp(v0))
        if dim == 3:
            napp, app = ctx.obs("ob_napp"), ctx.obs("ob_app")
            NA = zi(napp(v0))
            ctx.assume(NA < (1 << 40))
            asx = ctx.fresh("a*")
            ctx.assume(asx < NA)
        else:
            NA = z3.IntVal(0)
            ctx.assume(N == nc, NT == nc)
        NP = nv + NA
        ctx.assume(nv < (1 << 40), N < (1 << 40), NT < (1 << 40))
        ctx.st.ghost["indexed"] = z3.IntVal(0)
        hsh = z3.Int("hash")
        ctx.assume(hsh >= 0, hsh < (1 << 64))
        ctx.contract(r"MeshWriter<%du>::computeHash" % dim, lambda C: hsh)

        def index(C):
            C.st.ghost["indexed"] = C.st.ghost["indexed"] + z3.If(C.st.ghost["wn"] == 0, 1, 2)
        ctx.contract(r"::indexMesh<", index)
        vs, cs, js, ts = (ctx.fresh(x) for x in ("v*", "c*", "j*", "t*"))
        SZ = lambda c: zi(cvn(v0, c))
        ctx.assume(vs < nv, cs < N, js < SZ(cs), ts < NT, WF(0) == 6 + 3 * NP)

        def fc(c):
            return [z3.Implies(z3.And(c >= 0, c < N), z3.And(WF(c + 1) == WF(c) + 1 + SZ(c), SZ(c) >= 0, SZ(c) < (1 << 40)))]
        ctx.assume(*fc(cs))

        def tokens(vw, V, A, Cn, J, Ty):
            g = vw.st.ghost
            oi, orr = (lambda p: z3.Select(g["outI"], p)), (lambda p: z3.Select(g["outR"], p))
            r = [("points", z3.And(oi(0) == WORD("POINTS"), oi(1) == NP, oi(2) == WORD("double"))), ("numbers are separated", g["glued"] == 0),
                 ("coordinates of the vertices", z3.Implies(V, z3.And(*([orr(3 + 3 * vs + d) == ex.flit(vc(v0, vs, d)) for d in range(dim)] + ([oi(3 + 3 * vs + 2) == WORD("0.0")] if dim == 2 else [])))))]
            if dim == 3 and A is not None:
                r += [("coordinates of the added vertices", z3.Implies(A, z3.And(*[orr(3 + 3 * (nv + asx) + d) == ex.flit(app(v0, asx, d)) for d in range(3)])))]
            if Cn is not None:
                r += [("cells", z3.And(oi(3 + 3 * NP) == WORD("CELLS"), oi(4 + 3 * NP) == N, oi(5 + 3 * NP) == zi(total(v0)))), ("number of vertices of a cell", z3.Implies(Cn, oi(WF(cs)) == SZ(cs))), ("vertices of a cell", z3.Implies(J, oi(WF(cs) + 1 + js) == zi(cv(v0, cs, js))))]
            if Ty is not None:
                p = WF(N)
                r += [("types", z3.And(oi(p) == WORD("CELL_TYPES"), oi(p + 1) == (nc if dim == 2 else NT))), ("type of a cell", z3.Implies(Ty, oi(p + 2 + ts) == CODE(zi(typ(v0, ts)))))]
            return r
        T = z3.BoolVal(True)

        def inv(L, vw, k):
            g = vw.st.ghost
            top = int(L.name.split(".")[0]) + (1 if dim == 2 and not L.name.startswith("0") else 0)
            r = [("separated", g["gap"] == 1)] if L.parent is None else []
            if top <= 1:
                r += [("iteration bounded (termination)", k <= (nv if top == 0 else NA)), ("numbers written", g["wn"] == 3 + 3 * ((nv if top else 0) + k))]
                return r + (tokens(vw, vs < k, None, None, None, None) if top == 0 else tokens(vw, T, asx < k, None, None, None))
            if top == 2:
                if L.parent is None:
                    r += [("iteration bounded (termination)", k <= N), ("numbers written", z3.And(g["wn"] == WF(k), WF(k) >= WF(0), z3.Implies(cs < k, WF(cs + 1) <= WF(k)), WF(z3.If(cs < k, cs, k)) >= WF(0)))]
                    return r + tokens(vw, T, T, cs < k, cs < k, None)
                c = L.parent.k
                r += [("iteration bounded (termination)", k <= SZ(c)), ("separated", z3.Implies(k < SZ(c), g["gap"] == 1)), ("numbers written", g["wn"] == WF(c) + 1 + k)]
                return r + tokens(vw, T, T, cs <= c, z3.Or(cs < c, z3.And(cs == c, js < k)), None)
            r += [("iteration bounded (termination)", k <= NT), ("numbers written", g["wn"] == WF(N) + 2 + k)]
            return r + tokens(vw, T, T, T, T, ts < k)

        def facts(L, vw, k):
            i = k if L.parent is None else L.parent.k
            return fc(cs) + fc(i)
        ctx.spec.loopfn = lambda L: LoopSpec(inv, facts, facts)
        ctx.spec.unroll_const = True

        def post(vw, rv):
            g = vw.st.ghost
            return tokens(vw, T, T, T, T, T) + [("nothing follows the types", g["wn"] == WF(N) + 2 + NT),
                    ("the mesh is indexed before writing exactly when its hash is not the last one", g["indexed"] == z3.If(zi(last(v0)) == hsh, 0, 1)), ("the hash is remembered", zi(last(vw)) == hsh)]
        i_ = z3.Int("i!")
        ctx.run("drv_write", [], post, lambda vw: [("only a type without a code is refused", z3.Not(z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < NT), KNOWN(zi(typ(v0, i_)))))))])
    return Entry(name, "vtk.cpp", fn, AC + ("-DGV_DIM=%d" % dim,), fmode="uf")


class Loop:
    """n edges with the positions 0..n-1 form one closed line: corner c(j); the edge between c(j) and c(j+1) has position P(j)"""

    def __init__(self, ctx, n, edge, A, B, ne, nv):
        self.n = n
        self.P, self.Q, self.c, self.IC, self.IE = (z3.Function(x, INT, INT) for x in ("edge_at", "place_of", "corner", "corner_no", "edge_pos"))
        self.edge, self.A, self.B, self.ne = edge, A, B, ne
        i_ = z3.Int("i!")
        P, Q, c = self.P, self.Q, self.c
        ctx.assume(z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), z3.And(self.IC(c(i_)) == i_, c(i_) >= 0, c(i_) < nv, Q(P(i_)) == i_, P(i_) >= 0, P(i_) < n)), patterns=[c(i_)]))

    def nx(self, j):
        return z3.If(j + 1 == self.n, self.c(0), self.c(j + 1))

    def at(self, i):
        """the edge with position i"""
        e, j = self.edge(i), self.Q(i)
        return [z3.Implies(z3.And(i >= 0, i < self.n), z3.And(e >= 0, e < self.ne, self.IE(e) == i, j >= 0, j < self.n, self.P(j) == i,
                z3.Or(z3.And(self.A(e) == self.c(j), self.B(e) == self.nx(j)), z3.And(self.B(e) == self.c(j), self.A(e) == self.nx(j)))))]

    def corner(self, j):
        return [z3.Implies(z3.And(j >= 0, j < self.n), z3.And(self.P(j) >= 0, self.P(j) < self.n, self.Q(self.P(j)) == j, self.IC(self.c(j)) == j))] + self.at(self.P(j))


def walk_state(vl, S, T):
    """offers for the variables of a walk which has written T(S_) corners"""
    def offers(L, ex, key, w0):
        if key[3] == "i64" and not key[1] and key[2] == 0:
            if key[0].endswith(".nextVertex"):
                return [Offer("vertex to be written next", lambda k, S_: zi(S_.mem[key]) == z3.If(T(S_) == vl.n, vl.c(0), vl.c(T(S_))), lambda k, S_: vl.corner(T(S_)) + vl.corner(T(S_) - 1))]
            if key[0].endswith(".lastWrittenEdge"):
                return [Offer("last edge", lambda k, S_: zi(S_.mem[key]) == S(vl.P(T(S_) - 1)), lambda k, S_: vl.corner(T(S_) - 1))]
        return []
    return offers


def ring3(name):
    """the walk along the edges of a face, in the direction which depends on the orientation"""
    def fn(ctx):
        ex = ctx.ex
        m = Mesh(ctx, 3)
        v0 = View(ex, ctx.st.clone())
        f, c = ctx.fresh("f*"), ctx.fresh("c*")
        nr, rg, eidx, cidx = (ctx.obs("ob_" + x) for x in ("nring", "ring", "eidx", "cidx"))
        n = zi(m.nsub(v0, f))
        nf, ne, nv = zi(m.nf(v0)), zi(m.ne(v0)), zi(m.nv(v0))
        ctx.assume(f < nf, c < zi(m.nc(v0)), n >= 3, n < (1 << 30), zi(nr(v0)) == 0, zi(cidx(v0, c)) == c)
        S = lambda i: zi(m.sub(v0, f, i))
        A, B = (lambda e: zi(m.ea(v0, e))), (lambda e: zi(m.eb(v0, e)))
        vl = Loop(ctx, n, S, A, B, ne, nv)
        i_ = z3.Int("i!")
        x = zi(eidx(v0, i_))
        ctx.assume(z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < ne), x == i_), patterns=[x]))
        ori = z3.Int("oriented")
        ctx.assume(z3.Or(ori == 0, ori == 1))
        def bit(C):
            return ori
        ctx.contract(r"^std::_Bit_reference::operator bool\(\) const", bit)
        ctx.contract(r"^std::vector<bool.*>::operator\[\]\(unsigned long\)", lambda C: bits(C))
        nori, fidx = ctx.obs("ob_nori"), ctx.obs("ob_fidx")
        ctx.assume(zi(nori(v0)) == nf, zi(fidx(v0, f)) == f)

        def bits(C):
            if C.args[1] not in (0,) and not (z3.is_expr(C.args[1]) and z3.simplify(C.args[1]).eq(z3.IntVal(0))):
                raise Unsupported("orientation of another edge than the first")
            return (C.args[0], 1)
        fwd = z3.And(ori == 1, zi(m.left(v0, f)) == c)
        ctx.assume(vl.P(0) == 0, vl.Q(0) == 0, vl.c(0) == z3.If(fwd, B(S(0)), A(S(0))), vl.c(1) == z3.If(fwd, A(S(0)), B(S(0))))
        z = z3.IntVal
        ctx.assume(*(vl.corner(z(0)) + vl.corner(z(1)) + vl.at(z(0))))
        js = ctx.fresh("j*")
        ctx.assume(js < n)

        def inv(L, vw, k):
            t = zi(nr(vw))
            r = [("corners written", z3.And(t >= 1, t <= n)), ("the corners are written along the face", z3.Implies(js < t, zi(rg(vw, js)) == vl.c(js)))]
            if L.parent is None:
                return r + [("every pass finds a corner (termination)", k < t)]
            t0 = zi(nr(L.entry))
            return r + [("iteration bounded", k <= n), ("corners are only added", t >= t0), ("the next edge is not behind", z3.Implies(t == t0, vl.P(t0) >= k)), ("a pass starts with a corner missing", t0 < n), ("edge of the last corner is before", z3.Implies(t > t0, vl.P(t - 1) < k))]

        def T(S_):
            return zi(nr(View(ex, S_)))

        def facts(L, vw, k):
            t = zi(nr(vw))
            r = vl.corner(t) + vl.corner(t - 1) + vl.corner(z(0)) + vl.corner(t + 1)
            return r + (vl.at(k) + vl.corner(vl.Q(k)) if L.parent is not None else [])
        ctx.spec.loopfn = lambda L: LoopSpec(inv, facts, facts, lambda L: [], walk_state(vl, S, T))
        ctx.run("drv_ring", [f, c], lambda vw, rv: [("every corner of the face is written once", zi(nr(vw)) == n), ("the corners are written along the face, in the direction of the orientation", zi(rg(vw, js)) == vl.c(js))])
    return Entry(name, "vtk.cpp", fn, AC + ("-DGV_DIM=3",))


RM, NT_ = z3.Function("turn_pos", INT, INT), z3.Function("turns", INT, INT)


def ring2(name):
    """the walk along the edges of a polygon, which the mesh links in any order"""
    def fn(ctx):
        ex = ctx.ex
        m = Mesh(ctx, 2)
        v0 = View(ex, ctx.st.clone())
        c = ctx.fresh("c*")
        nr, rg, cidx = (ctx.obs("ob_" + x) for x in ("nring", "ring", "cidx"))
        n = rlen(c)
        ne, nv = zi(m.ne(v0)), zi(m.nv(v0))
        ctx.assume(c < zi(m.nc(v0)), n >= 3, n < (1 << 30), zi(nr(v0)) == 0, zi(cidx(v0, c)) == c, nv < (1 << 60), ne < (1 << 60), m.wf_cell(v0, c))
        S = lambda i: ring(c, i)
        A, B = (lambda e: zi(m.ea(v0, e))), (lambda e: zi(m.eb(v0, e)))
        vl = Loop(ctx, n, S, A, B, ne, nv)
        z = z3.IntVal
        first_left = zi(m.left(v0, S(z(0)))) == c
        ctx.assume(vl.P(0) == 0, vl.Q(0) == 0, vl.c(0) == z3.If(first_left, A(S(z(0))), B(S(z(0)))), vl.c(1) == z3.If(first_left, B(S(z(0))), A(S(z(0)))))
        ctx.assume(RM(0) == 0, NT_(0) == 0)
        js = ctx.fresh("j*")
        ctx.assume(js < n)

        def turn(k):
            return [z3.Implies(k >= 0, z3.And(RM(k) >= 0, RM(k) < n, RM(k + 1) == z3.If(RM(k) + 1 == n, 0, RM(k) + 1)))] + vl.at(RM(k)) + vl.corner(vl.Q(RM(k))) + [m.wf_ring(v0, c, RM(k)), NT_(k + 1) == NT_(k) + n]

        def wait(t, k):
            """steps until the edge of the next corner"""
            d = vl.P(t) - RM(k)
            return z3.If(d >= 0, d, d + n)
        ctx.assume(*(vl.corner(z(0)) + vl.corner(z(1)) + vl.at(z(0)) + turn(z(0))))

        def inv(L, vw, k):
            t = zi(nr(vw))
            return [("corners written", z3.And(t >= 1, t < n)), ("the corners are written along the polygon", z3.Implies(js < t, zi(rg(vw, js)) == vl.c(js))), ("first corner", zi(rg(vw, z(0))) == vl.c(0)),
                    ("a turn finds a corner (termination)", k + wait(t, k) <= NT_(t))]

        def T(S_):
            return zi(nr(View(ex, S_)))

        def facts(L, vw, k):
            t = zi(nr(vw))
            return vl.corner(t) + vl.corner(t - 1) + vl.corner(z(0)) + vl.corner(t + 1) + turn(k) + turn(k + 1) + [NT_(t + 1) == NT_(t) + n, NT_(1) == n]
        forms = lambda L: [("i64", lambda k: S(RM(k)))]
        ctx.spec.loopfn = lambda L: LoopSpec(inv, facts, facts, forms, walk_state(vl, S, T))
        ctx.run("drv_ring", [c], lambda vw, rv: [("every corner of the polygon is written once", zi(nr(vw)) == n), ("the corners are written along the polygon", zi(rg(vw, js)) == vl.c(js))])
    return Entry(name, "vtk.cpp", fn, AC + ("-DGV_DIM=2",))


POSC = z3.Function("cellpos", INT, INT)
VN = lambda c: tokI(POSC(c))
V_ = lambda c, j: tokI(POSC(c) + 1 + j)
C1, K1, C2, K2 = (z3.Function(n, INT, INT) for n in ("occ1_cell", "occ1_pos", "occ2_cell", "occ2_pos"))
ID, NB = z3.Function("edge_no", INT, INT, INT), z3.Function("edges_before", INT, INT, INT)
EK, IDK = z3.Function("key_of", INT, INT), z3.Function("edge_of", INT, INT)


def cells2(name):
    """edges, their cells and their links, read from the polygons of a file.
    ID(c,j) numbers the sides of the polygons in the order of their first occurrence: side j of polygon c joins its corners j and j+1."""
    def fn(ctx):
        ex = ctx.ex
        m = Mesh(ctx, 2)
        Tokens(ctx)
        StrMap(ctx, literal)
        v0 = View(ex, ctx.st.clone())
        p0 = ctx.st.ghost["pos"]
        n = tokI(p0)
        ei, ci = ctx.obs("ob_eidx"), ctx.obs("ob_cidx")
        i_, k_ = z3.Ints("i!e k!e")
        NE = NB(n, 0)
        ctx.assume(n >= 0, n < (1 << 30), zi(m.ne(v0)) == 0, POSC(0) == REST(p0 + 1), NB(0, 0) == 0, NE >= 0, NE < (1 << 60))
        cs, js, es, e2 = ctx.fresh("c*"), ctx.fresh("j*"), ctx.fresh("e1*"), ctx.fresh("e2*")
        ctx.assume(cs < n, js < VN(cs), es < NE, e2 < NE)
        nx = lambda c, j: z3.If(j + 1 == VN(c), V_(c, 0), V_(c, j + 1))
        KY = lambda c, j: KEY(lo(V_(c, j), nx(c, j)), hi(V_(c, j), nx(c, j)))
        nxt = lambda c, j: z3.If(j + 1 == VN(c), ID(c, 0), ID(c, j + 1))
        valid = lambda c, j: z3.And(c >= 0, c < n, j >= 0, j < VN(c))

        def facts_c(c):
            return [z3.Implies(z3.And(c >= 0, c < n), z3.And(VN(c) >= 1, VN(c) < (1 << 30), POSC(c + 1) == POSC(c) + 1 + VN(c), NB(c + 1, 0) == NB(c, VN(c)))), z3.Implies(c == n, NB(c, 0) == NE)]

        def facts_cj(c, j):
            e = ID(c, j)
            first = z3.And(C1(e) == c, K1(e) == j)
            return facts_c(c) + [z3.Implies(valid(c, j), z3.And(e >= 0, e < NE, KY(c, j) == EK(e), IDK(EK(e)) == e, z3.Or(first, z3.And(C2(e) == c, K2(e) == j)),
                                                                NB(c, j + 1) == NB(c, j) + z3.If(first, 1, 0), z3.If(first, e == NB(c, j), e < NB(c, j)), NB(c, j) >= 0, NB(c, j + 1) <= NE))]

        def facts_e(e):
            return [z3.Implies(z3.And(e >= 0, e < NE), z3.And(C1(e) >= 0, C1(e) < n, K1(e) >= 0, K1(e) < VN(C1(e)), ID(C1(e), K1(e)) == e, IDK(EK(e)) == e, KY(C1(e), K1(e)) == EK(e),
                                                              C2(e) <= n, C1(e) < C2(e), z3.Implies(C2(e) < n, z3.And(K2(e) >= 0, K2(e) < VN(C2(e)), ID(C2(e), K2(e)) == e))))]
        ctx.assume(z3.ForAll([i_], z3.And(*facts_e(i_)), patterns=[C1(i_)]))

        def mapstate(vw):
            g = vw.st.ghost
            ds = [k for k in g if k.startswith("dom:")]
            if len(ds) != 1:
                raise Unsupported("one map of edges expected")
            cl = [k for k in vw.st.mem if k[1] and k[1][-1][0] == "map" and k[3] == "i64"]
            return g[ds[0]], (cl[0] if cl else None)

        def before(c0, j0, c, j):
            return z3.Or(c0 < c, z3.And(c0 == c, j0 < j))

        def linked(c0, j0, c, j):
            return z3.Or(c0 < c, z3.And(c0 == c, z3.If(j == VN(c), j0 < j, j0 + 1 < j)))

        def state(vw, c, j):
            """sides before side j of polygon c are treated"""
            D, key = mapstate(vw)
            ne = zi(m.ne(vw))
            r = [("number of edges", z3.And(ne == NB(c, j), ne >= 0, ne <= NE))]
            if key is None:
                return r + [("no edge before the first cell", z3.And(ne == 0, z3.ForAll([k_], z3.Not(z3.Select(D, k_)))))]
            val = lambda k: z3.Select(vw.st.mem[key], k)
            A, B, L, R, NL, NR = (zi(ob(vw, i_)) for ob in (m.ea, m.eb, m.left, m.right, m.nleft, m.nright))
            inn = z3.And(i_ >= 0, i_ < ne)
            for nm, x, b in (("ends of the edges", A, z3.And(A == V_(C1(i_), K1(i_)), B == nx(C1(i_), K1(i_)))), ("ends of the edges (second)", B, B == nx(C1(i_), K1(i_))),
                             ("left cell of the edges", L, L == C1(i_)), ("right cell of the edges", R, R == z3.If(before(C2(i_), K2(i_), c, j), C2(i_), INV)),
                             ("links of the edges in the left cell", NL, z3.Implies(linked(C1(i_), K1(i_), c, j), NL == nxt(C1(i_), K1(i_)))),
                             ("links of the edges in the right cell", NR, z3.Implies(linked(C2(i_), K2(i_), c, j), NR == nxt(C2(i_), K2(i_))))):
                r.append((nm, fa(i_, z3.Implies(inn, b), x)))
            return r + [("every edge is found under its vertices", z3.ForAll([i_], z3.Implies(inn, z3.And(z3.Select(D, EK(i_)), val(EK(i_)) == i_)), patterns=[EK(i_)])),
                        ("every key names an edge between its vertices", z3.ForAll([k_], z3.Implies(z3.Select(D, k_), z3.And(val(k_) >= 0, val(k_) < ne, k_ == EK(val(k_)))), patterns=[z3.Select(D, k_)])),
                        ("edge carries its index", z3.Implies(es < ne, zi(ei(vw, es)) == es))]

        def inv(L, vw, k):
            first = L.parent is not None and L.name.endswith(".0")
            c = k if L.parent is None else L.parent.k
            j = z3.IntVal(0) if L.parent is None or first else k
            pos = POSC(k) if L.parent is None else POSC(c) + 1 + (k if first else VN(c))
            begun = cs < k if L.parent is None else z3.Or(cs < c, z3.And(cs == c, j > 0))
            r = [("iteration bounded (termination)", k <= (n if L.parent is None else VN(c))), ("position in the file", vw.st.ghost["pos"] == pos), ("number of cells", zi(m.nc(vw)) == n),
                 ("boundary of the cells read", z3.Implies(begun, zi(m.bnd(vw, cs)) == ID(cs, 0))), ("index of the cells read", z3.Implies(cs < k if L.parent is None else cs <= c, zi(ci(vw, cs)) == cs))]
            if L.parent is not None and not first:
                r += [("boundary of the cell being read", z3.Implies(k > 0, zi(m.bnd(vw, c)) == ID(c, 0)))]
            return r + state(vw, c, j)

        def facts(L, vw, k):
            r = facts_cj(cs, js) + facts_cj(cs, z3.IntVal(0))
            if L.parent is None:
                return r + facts_c(k) + facts_cj(k, z3.IntVal(0))
            c = L.parent.k
            r += facts_c(c) + facts_cj(c, z3.IntVal(0))
            return r + (facts_cj(c, k) + facts_cj(c, k - 1) + facts_cj(c, k + 1) if not L.name.endswith(".0") else [])

        def offers(L, ex, key, w0):
            if L.parent is not None and not L.name.endswith(".0") and key[3] == "i64" and not key[1] and w0 is not None and z3.simplify(zi(w0)).eq(z3.IntVal(INV)):
                c = L.parent.k
                return [Offer("edge treated before", lambda k, S: zi(S.mem[key]) == z3.If(k == 0, z3.IntVal(INV), ID(c, k - 1)))]
            if L.parent is not None and key[3] == "i64" and len(key[1]) == 1 and key[1][0][0] == "buf" and not key[0].startswith("@"):
                c = L.parent.k
                N = VN(c) if not L.name.endswith(".0") else None
                return [Offer("corners of the cell read so far", lambda k, S: z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < (k if N is None else N)), z3.Select(S.mem[key], i_) == V_(c, i_)), patterns=[z3.Select(S.mem[key], i_)]))]
            return []
        ctx.spec.loopfn = lambda L: LoopSpec(inv, facts, facts, lambda L: [], offers)
        ctx.spec.unroll_const = True
        ctx.spec.noforms = lambda L: L.parent is None
        ctx.spec.ground_discover = True
        ctx.assume(*(facts_cj(cs, js) + facts_cj(cs, z3.IntVal(0))))

        def post(vw, rv):
            e = ID(cs, js)
            pr = lambda x: (lo(zi(m.ea(vw, x)), zi(m.eb(vw, x))), hi(zi(m.ea(vw, x)), zi(m.eb(vw, x))))
            x, y = pr(es), pr(e2)
            return [("as many cells as the file states", zi(m.nc(vw)) == n), ("cell carries its index", zi(ci(vw, cs)) == cs), ("one edge per pair of neighbouring corners", zi(m.ne(vw)) == NE), ("edge carries its index", zi(ei(vw, es)) == es),
                    ("the sides of a cell join its consecutive corners", z3.And(*[a == b for a, b in zip(pr(e), (lo(V_(cs, js), nx(cs, js)), hi(V_(cs, js), nx(cs, js))))])),
                    ("different edges join different corners", z3.Implies(z3.And(x[0] == y[0], x[1] == y[1]), es == e2)),
                    ("the first cell with a side is on its left, the second one on its right", z3.And(zi(m.left(vw, es)) == C1(es), zi(m.right(vw, es)) == z3.If(C2(es) < n, C2(es), INV))),
                    ("the ring of a cell starts at its first side", zi(m.bnd(vw, cs)) == ID(cs, 0)), ("the sides of a cell are linked in their order", m.nxt(vw, cs, e) == nxt(cs, js)),
                    ("the reading stops behind the last cell", vw.st.ghost["pos"] == POSC(n))]
        ctx.run("drv_cells", [], post)
    return Entry(name, "vtk.cpp", fn, AC + ("-DGV_DIM=2",))


def entries():
    return [vertices("read2/vertices", 2), vertices("read3/vertices", 3), types("read2/types", 2), types("read3/types", 3), writes("write2/text", 2), writes("write3/text", 3), ring3("write3/face ring"), ring2("write2/polygon")]
