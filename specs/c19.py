"""Text of exported values."""
import re
from gtv import ir
from gtv.core import Ptr, Fn, Unsupported
from .meshlib import *
HARNESS = [("h_c19.cpp", []), ("h_c19.cpp", ["-DLOGS"])]
HARNESS_WHAT = "random values of about 60 types (nested lists, maps, pairs, tuples, described classes, texts) against an independent rendering, to streams and to the standard output; random histories of the JSON log parsed by a JSON parser"
EXPLORED = "proved: exported text of numbers, booleans, characters, pairs, tuples, arrays, lists of any length (also lists of lists), indexable and described classes whose parts are arbitrary exportable values; bounded (harness): associative containers, texts, the JSON log"
ASSUMPTIONS = ["texts are terms over one operation per appended character, number or exported part: how the standard library renders one number is not specified",
               "operator<< of streams and printf append what they are given (contracts); no manipulator is active",
               "an arbitrary exportable part is represented by a class with a PrintTo function (contract: appends the text of the part)"]
LEVEL = "proved"
TX = z3.DeclareSort("Text")
CH = z3.Function("t_char", TX, INT, TX)
NUM = z3.Function("t_num", TX, INT, TX)
PART = z3.Function("t_part", TX, INT, TX)
STR = z3.Function("t_str", TX, INT, TX)


def chars(t, s):
    for c in s:
        t = CH(t, z3.IntVal(ord(c)))
    return t


def literal(ex, p):
    """characters of a constant text, None if p does not point to one"""
    if not isinstance(p, Ptr) or not p.root.startswith("@") or p.idxs and not all(isinstance(i, int) for i in p.idxs):
        return None
    g = ex.m.globals.get(p.root[1:])
    if g is None or not g[1] or g[1][0] not in ("agg", "zero"):
        return None
    o = p.off + (p.idxs[-1] if p.idxs else 0)
    bs = [b[1][1] for b in g[1][1]][o:] if g[1][0] == "agg" else [0]
    return "".join(chr(b) for b in bs[:bs.index(0)])


class Text:
    """contracts of the text output; the text written so far is the ghost 'out'"""

    def __init__(self, ctx):
        self.ctx, self.ex = ctx, ctx.ex
        self.DBL = z3.Function("t_dbl", TX, ctx.ex.F, TX)
        self.names = {}
        ctx.st.ghost["out"] = z3.Const("out", TX)
        ctx.contract(r"operator<<.*\(|^std::(basic_)?ostream<.*>::put\(", lambda C: self.insert(C))
        ctx.contract(r"^printf$", self.printf)
        ctx.contract(r"^PrintTo\(Box const&", self.part)

    def text(self, t, p):
        s = literal(self.ex, p)
        if s is not None:
            return chars(t, s)
        return STR(t, self.ident(p))

    def ident(self, p):
        return z3.Int("text:%r" % (p,))

    def num(self, t, st, v, ty):
        ex = self.ex
        if ty in ("double", "float"):
            return self.DBL(t, ex.flit(v))
        bits = {"int": 32, "unsigned int": 32, "short": 16, "unsigned short": 16, "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64}.get(ty)
        if bits is None:
            raise Unsupported("output of " + ty)
        return NUM(t, zi(v) if ty.startswith("unsigned") else zi(ex.to_signed(st, v, bits)))

    def insert(self, C):
        g = C.st.ghost
        m = re.search(r"(?:operator<<|put)(?: ?<.*>)?\((.*)\)(?: const)?$", C.dem)
        a = re.sub(r"std::(basic_)?ostream(<char, ?std::char_traits<char> ?>)? ?&, ?", "", m.group(1))
        v = C.args[1]
        if a in ("char const*", "const char*"):
            g["out"] = self.text(g["out"], v)
        elif a == "char":
            g["out"] = CH(g["out"], zi(v) % 256)
        elif "basic_string" in a or a == "std::string const&":
            g["out"] = STR(g["out"], self.ident(v))
        else:
            g["out"] = self.num(g["out"], C.st, v, a)
        return C.args[0]

    def part(self, C):
        g = C.st.ghost
        g["out"] = PART(g["out"], zi(self.ex.load(C.st, C.args[0], ir.IntTy(64))))

    def printf(self, C):
        g, st = C.st.ghost, C.st
        f = literal(self.ex, C.args[0])
        if f is None:
            raise Unsupported("format of printf")
        a, t, i = list(C.args[1:]), g["out"], 0
        for m in re.finditer(r"%%|%(hh|h|ll|l|L)?([diugscfx])|[^%]|%", f):
            s = m.group(0)
            if m.group(2) is None:
                if s == "%":
                    raise Unsupported("format %r" % f)
                t = CH(t, z3.IntVal(ord(s[0])))
                continue
            v, c, l = a[i], m.group(2), m.group(1) or ""
            i += 1
            if c == "s":
                t = self.text(t, v)
            elif c == "c":
                t = CH(t, zi(v) % 256)
            elif c in "g" and l == "":
                t = self.num(t, st, v, "double")
            elif c in "di" and l == "h":
                x = zi(self.ex.to_signed(st, v, 32))
                self.ex.oblige(st, "argument of %hd fits", z3.And(x >= -32768, x < 32768))
                t = NUM(t, x)
            elif c in "diu" and l in ("", "l", "ll"):
                t = self.num(t, st, v, ("unsigned " if c == "u" else "") + {"": "int", "l": "long", "ll": "long long"}[l])
            else:
                raise Unsupported("format %r" % s)
        if i != len(a):
            raise Unsupported("arguments of printf")
        g["out"] = t
        return self.ex.fresh("printed", INT)


# shapes: the expected text of a value, as a function of the text before; leaves name observers
def leaf(name, ty):
    return ("leaf", name, ty)


def seqv(parts, sep=", ", open="[ ", close=" ]"):
    return ("seq", parts, sep, open, close)


def listv(name, count, elem):
    """count: name of the observer of the length (with the indices of the outer lists)"""
    return ("list", name, count, elem)


def cls(*members):
    return ("seq", [("cat", '"%s" : ' % n, s) for n, s in members], ", ", "{ ", " }")


def pair(a, b):
    return ("seq", [a, b], ": ", "{ ", "}")


def tup(*a):
    return ("seq", list(a), ", ", "[ ", "]")


def build(ctx, tx, v0, obs, shape, t, idx, io, folds):
    k = shape[0]
    if k == "leaf":
        v, ty = obs[shape[1]](v0, *idx), shape[2]
        if ty == "Box":
            return PART(t, zi(v))
        if ty == "bool":
            return z3.If(zb(v), chars(t, "true"), chars(t, "false"))
        if ty == "char":
            return CH(CH(CH(t, z3.IntVal(34)), zi(v) % 256), z3.IntVal(34))
        if ty == "lit":
            return chars(t, shape[1])
        return tx.num(t, ctx.st, v, ty)
    if k == "cat":
        return build(ctx, tx, v0, obs, shape[2], chars(t, shape[1]), idx, io, folds)
    if k == "seq":
        t = chars(t, shape[3])
        for i, s in enumerate(shape[1]):
            t = build(ctx, tx, v0, obs, s, t if i == 0 else chars(t, shape[2]), idx, io, folds)
        return chars(t, shape[4])
    if k == "list":
        d = len(idx)
        F = folds[d][0]
        n = zi(obs[shape[2]](v0, *idx))
        return chars(F(*idx, n), " ]")


def step(ctx, tx, v0, obs, shape, idx, k, io, folds):
    """facts: the text after k+1 elements of the list"""
    d = len(idx)
    F = folds[d][0]
    n = zi(obs[shape[2]](v0, *idx))
    e = build(ctx, tx, v0, obs, shape[3], F(*idx, k), idx + [k], io, folds)
    r = [F(*idx, k + 1) == z3.If(k + 1 < n, chars(e, ", "), e), n >= 0, n < (1 << 40)]
    inner = shape[3]
    while inner[0] == "cat":
        inner = inner[2]
    if inner[0] == "list":
        # the text before the first element of the inner list
        r.append(folds[d + 1][0](*(idx + [k]), z3.IntVal(0)) == chars(F(*idx, k), "[ "))
    return r


def entry(name, T, proj, shape, drv="drv_os", flags=(), lists=()):
    """lists: the shapes of the nested lists, outermost first"""
    def fn(ctx):
        ctx.spec.unroll_const = True
        tx = Text(ctx)
        obs = {n: ctx.obs("ob_" + n) for n, _, _, _ in proj}
        v0 = View(ctx.ex, ctx.st.clone())
        t0 = ctx.st.ghost["out"]
        folds = [(z3.Function("text_%d" % d, *([INT] * (d + 1) + [TX])),) for d in range(len(lists))]
        if lists:
            ctx.assume(folds[0][0](0) == chars(t0, "[ "), zi(obs[lists[0][2]](v0)) < (1 << 40))

        def loop(L):
            d, P, idx = 0, L.parent, []
            while P is not None:
                d += 1
                idx.insert(0, P.k)
                P = P.parent
            if d >= len(lists):
                return LoopSpec(lambda L, vw, k: [], None, None, None, lambda *x: [])
            sh, F = lists[d], folds[d][0]
            n = zi(obs[sh[2]](v0, *idx))

            def facts(L, vw, k):
                return step(ctx, tx, v0, obs, sh, idx, k, drv, folds)
            return LoopSpec(lambda L, vw, k: [("iteration bounded (termination)", k <= n), ("text of the processed elements", vw.st.ghost["out"] == F(*idx, k))], facts, facts, None, lambda *x: [])
        ctx.spec.loopfn = loop
        final = build(ctx, tx, v0, obs, shape, t0, [], drv, folds)

        def post(vw, rv):
            return [("exported text", vw.st.ghost["out"] == final)]
        ctx.run(drv, [], post)
    pj = " ".join("%s(%s,%s,%s)" % (("P", "PI", "PIJ")[d], n, t, e) for n, t, e, d in proj)
    return Entry(name + ("" if drv == "drv_os" else "/stdio"), "export.cpp", fn, ("-DGV_TYPE=" + T, "-DGV_PROJ=" + pj) + tuple(flags), fmode="real" if T == "float" else "uf")


EMPTY = z3.Function("t_empty", INT, TX)
QUOT = z3.Function("t_quoted", TX, INT, TX)
HEAD, FOOT = '{\n"logs":[\n', "\n]\n}"


def log(name, drv, what):
    """one operation of the log from any state: open with an arbitrary text (whether it has entries is the flag), or closed"""
    def fn(ctx):
        tx = Text(ctx)
        ex, g = ctx.ex, ctx.st.ghost
        g["open"], g["done"], g["nfile"] = z3.BoolVal(False), z3.Const("done0", TX), z3.IntVal(0)
        t0 = g["out"]

        def ctor(C):
            G = C.st.ghost
            ex.oblige(C.st, "the previous file is closed before another one is opened", z3.Not(G["open"]))
            G["open"] = z3.BoolVal(True)
            G["nfile"] = G["nfile"] + 1
            p, vt = C.args[0], "vtab%d" % next(ex.cnt)
            C.st.roots[vt] = None
            C.st.mem[(vt, (), -24, "i64")] = 0
            C.st.mem[(vt, (), 8, "ptr", ())] = Fn("release_stream")
            ex.store(C.st, p, ir.PTR, Ptr(vt))
            if len(C.args) > 1 and "char const*" in C.dem:
                G["out"] = EMPTY(tx.ident(C.args[1]))

        def close(C):
            G = C.st.ghost
            ex.oblige(C.st, "an open file is closed", G["open"])
            G["open"], G["done"] = z3.BoolVal(False), G["out"]

        base = tx.insert

        def new(C):
            r = "heap%d" % next(ex.cnt)
            C.st.roots[r] = None
            C.st.ghost["live:" + r] = z3.BoolVal(True)
            return Ptr(r)

        def delete(C):
            k = "live:" + C.args[0].root
            ex.oblige(C.st, "released once", C.st.ghost.get(k, z3.BoolVal(False)))
            C.st.ghost[k] = z3.BoolVal(False)

        def release(C):
            if C.st.ghost["open"] is not None:
                C.st.ghost["done"] = z3.If(C.st.ghost["open"], C.st.ghost["out"], C.st.ghost["done"])
                C.st.ghost["open"] = z3.BoolVal(False)
            delete(C)
        ctx.contract(r"^release_stream$", release)
        ctx.contract(r"^operator new\(unsigned long\)$", new)
        ctx.contract(r"^operator delete\(void\*", delete)

        def insert(C):
            if "_Quoted_string" in C.dem:
                G = C.st.ghost
                G["out"] = QUOT(G["out"], tx.ident(ex.load(C.st, C.args[1], ir.PTR)))
                return C.args[0]
            ex.oblige(C.st, "written to an open file", C.st.ghost["open"])
            return base(C)
        tx.insert = insert
        S = r"^std::(?:basic_)?%s(?:<char, ?std::char_traits<char> ?>)?::%s\("
        ctx.contract(S % ("ofstream", "(?:basic_)?ofstream"), ctor)
        ctx.contract(S % ("ofstream", "~(?:basic_)?ofstream"), lambda C: None)
        ctx.contract(S % ("ofstream", "close"), close)
        ctx.contract(S % ("ostream", "flush"), lambda C: C.args[0])
        ctx.contract(r"basic_string<.*::c_str\(\) const$", lambda C: C.args[0])
        o = {n: ctx.obs("ob_" + n) for n in ("a", "b", "line", "group", "first", "open", "name", "name2", "path", "file", "logname")}
        v0 = View(ex, ctx.st.clone())
        I = {n: tx.ident(o[n](v0)) for n in ("name", "name2", "path", "file", "logname")}
        first = zb(o["first"](v0))
        ctx.run(drv, [], lambda vw, rv: what(tx, ctx, o, v0, vw, I, t0, first))
    return Entry("log/" + name, "export.cpp", fn, ("-DGV_LOG",), fmode="uf")


def record(tx, ctx, o, v0, t, I, first, n="name", v="a", short=False):
    """the text of one record"""
    t = chars(t, "\t{") if first is True else chars(chars(t, ",\n"), "\t{") if first is False else chars(z3.If(first, t, chars(t, ",\n")), "\t{")
    if short:
        t = chars(t, '\n\t\t"expr" : ')
        t = chars(QUOT(t, I[n]), ',\n\t\t"data" : ')
        return chars(PART(t, zi(o[v](v0))), "\n}")
    t = tx.num(chars(t, '\n\t\t"gInd" : '), ctx.st, o["group"](v0), "int")
    t = STR(chars(t, ',\n\t\t"file" : "'), I["file"])
    t = tx.num(chars(t, '",\n\t\t"line" : '), ctx.st, o["line"](v0), "int")
    t = QUOT(chars(t, ',\n\t\t"expr" : '), I[n])
    return chars(PART(chars(t, ',\n\t\t"data" : '), zi(o[v](v0))), "\n\t}")


def log_entries():
    def written(recs, fresh=False):
        def what(tx, ctx, o, v0, vw, I, t0, first):
            t, f = (chars(EMPTY(I["logname"]), HEAD), True) if fresh else (t0, first)
            for n, v, short in recs:
                t = record(tx, ctx, o, v0, t, I, f, n, v, short)
                f = False
            return [("text of the log", vw.st.ghost["out"] == t), ("log stays open", vw.st.ghost["open"]), ("log keeps its file", zb(o["open"](vw))), ("next record is separated", z3.Not(zb(o["first"](vw))))]
        return what

    def ended(tx, ctx, o, v0, vw, I, t0, first):
        return [("document is completed", vw.st.ghost["done"] == chars(t0, FOOT)), ("file is closed", z3.Not(vw.st.ghost["open"])), ("log is closed", z3.Not(zb(o["open"](vw))))]

    def destructed(tx, ctx, o, v0, vw, I, t0, first):
        return ended(tx, ctx, o, v0, vw, I, t0, first)[:2]

    def nothing(tx, ctx, o, v0, vw, I, t0, first):
        return [("nothing is written", vw.st.ghost["out"] == t0), ("no file is opened", vw.st.ghost["nfile"] == 0), ("log is closed", z3.Not(zb(o["open"](vw))))]

    def created(old):
        return lambda tx, ctx, o, v0, vw, I, t0, first: [("header of the document", vw.st.ghost["out"] == chars(EMPTY(I["path"]), HEAD)), ("first record is not separated", zb(o["first"](vw))), ("log is open", zb(o["open"](vw)))] \
            + ([("previous document is completed", vw.st.ghost["done"] == chars(t0, FOOT))] if old else [])
    N, M = ("name", "a", False), ("name2", "b", False)
    return [log("write", "log_w1", written([N])), log("write two", "log_w2", written([N, M])), log("write short", "log_s1", written([("name", "a", True)])),
            log("write two short", "log_s2", written([("name", "a", True), ("name2", "b", True)])), log("write to a closed log", "log_n1", written([N], True)),
            log("write short to a closed log", "log_ns", written([("name", "a", True)], True)), log("destroy", "log_d", ended), log("destroy twice", "log_dd", ended), log("destroy a closed log", "log_dn", nothing),
            log("create", "log_c", created(True)), log("create from a closed log", "log_cn", created(False)), log("destructor", "log_x", destructed)]


def entries():
    E = log_entries()
    B = lambda n: leaf(n, "Box")

    def both(name, T, proj, shape, lists=()):
        for d in ("drv_os", "drv_io"):
            E.append(entry(name, T, proj, shape, d, lists=lists))
    for T in ("int", "short", "unsigned", "double", "bool", "char", "float", "long long", "unsigned long long"):
        ty = {"unsigned": "unsigned int"}.get(T, T)
        both("value/" + T, T, [("v", T, "x", 0)], leaf("v", ty))
    for T in ("long", "size_t", "unsigned short"):
        E.append(entry("value/" + T, T, [("v", T, "x", 0)], leaf("v", {"size_t": "unsigned long"}.get(T, T)), flags=("-DGV_NOIO",)))
    R = [("i", "int", "x.i", 0), ("d", "double", "x.d", 0), ("f", "bool", "x.f", 0)]
    rec = lambda a, b, c: cls(("i", leaf(a, "int")), ("d", leaf(b, "double")), ("f", leaf(c, "bool")))
    both("class", "Rec", R, rec("i", "d", "f"))
    both("class/nested", "Nest", [("b", "long", "x.b.id", 0), ("i", "int", "x.r.i", 0), ("d", "double", "x.r.d", 0), ("f", "bool", "x.r.f", 0)], cls(("box", B("b")), ("the record", rec("i", "d", "f"))))
    both("class/one", "One", [("b", "long", "x.b.id", 0)], cls(("b", B("b"))))
    ab = [("a", "long", "x.first.id", 0), ("b", "long", "x.second.id", 0)]
    both("pair", "std::pair<Box,Box>", ab, pair(B("a"), B("b")))
    both("tuple/1", "std::tuple<Box>", [("a", "long", "std::get<0>(x).id", 0)], tup(B("a")))
    both("tuple/3", "std::tuple<Box,int,Box>", [("a", "long", "std::get<0>(x).id", 0), ("b", "int", "std::get<1>(x)", 0), ("c", "long", "std::get<2>(x).id", 0)], tup(B("a"), leaf("b", "int"), B("c")))
    for n in (1, 3):
        both("array/%d" % n, "std::array<Box,%d>" % n, [("a%d" % i, "long", "x[%d].id" % i, 0) for i in range(n)], seqv([B("a%d" % i) for i in range(n)]))
    both("vector3", "Vector<3,double>", [("a%d" % i, "double", "x[%d]" % i, 0) for i in range(3)], seqv([leaf("a%d" % i, "double") for i in range(3)]))

    def lst(name, T, proj, elem):
        sh = listv(None, "n", elem)
        both(name, T, [("n", "size_t", "x.size()", 0)] + proj, sh, [sh])
    lst("list", "std::vector<Box>", [("e", "long", "x[i].id", 1)], B("e"))
    lst("list/int", "std::vector<int>", [("e", "int", "x[i]", 1)], leaf("e", "int"))
    lst("list/double", "std::vector<double>", [("e", "double", "x[i]", 1)], leaf("e", "double"))
    lst("list/pair", "std::vector<std::pair<Box,int>>", [("e", "long", "x[i].first.id", 1), ("f", "int", "x[i].second", 1)], pair(B("e"), leaf("f", "int")))
    lst("list/tuple", "std::vector<std::tuple<Box,Box>>", [("e", "long", "std::get<0>(x[i]).id", 1), ("f", "long", "std::get<1>(x[i]).id", 1)], tup(B("e"), B("f")))
    lst("list/class", "std::vector<Nest>", [("b", "long", "x[i].b.id", 1), ("i", "int", "x[i].r.i", 1), ("d", "double", "x[i].r.d", 1), ("f", "bool", "x[i].r.f", 1)], cls(("box", B("b")), ("the record", rec("i", "d", "f"))))
    lst("list/array", "std::vector<std::array<Box,2>>", [("e", "long", "x[i][0].id", 1), ("f", "long", "x[i][1].id", 1)], seqv([B("e"), B("f")]))
    lst("indexable", "Idx", [("e", "long", "x[i].id", 1)], B("e"))
    inner = listv(None, "m", B("e"))
    outer = listv(None, "n", inner)
    both("list/list", "std::vector<std::vector<Box>>", [("n", "size_t", "x.size()", 0), ("m", "size_t", "x[i].size()", 1), ("e", "long", "x[i][j].id", 2)], outer, [outer, inner])
    return E
