"""The serializer as a byte stream with a reading position."""
from .meshlib import *
from .c12 import eqv, zr
HARNESS = [("h_c13.cpp", [])]
HARNESS_WHAT = "random histories of writes, reads, resets, clears, saves, loads and copies of several serializers (values of eight kinds, some of thousands of bytes) against queues of values, under the address sanitizer"
LEVEL = "proved"
EXPLORED = "proved: every operation of the serializer from every state of its data and reading position, for one byte, an integer and a floating-point number; bounded (harness): memory released by a reallocation is not used again, values of variable size"
ASSUMPTIONS = ["std::ofstream and std::ifstream are specified as a file of bytes with a position (a stream that could be opened transfers all bytes it is asked to; nobody else changes the file)",
               "a pointer into a std::vector is identified with the position it points to: that it is not kept over a reallocation is checked by the harness only (address sanitizer)"]
AI = z3.ArraySort(INT, INT)


def files(ctx):
    """the file, its length, the position of the open stream"""
    ex, g = ctx.ex, ctx.st.ghost
    g["file"] = z3.Const("file", AI)
    g["flen"] = z3.Int("flen")
    g["fpos"] = z3.IntVal(0)
    g["fopen"] = z3.BoolVal(False)
    ctx.assume(g["flen"] >= 0, g["flen"] < (1 << 50))
    name = ctx.obs("ob_name")(View(ex, ctx.st))

    def opener(C, out):
        st = C.st
        C.ex.oblige(st, "the file of the given name is opened", z3.BoolVal(same(C.args[1], name)))
        mode = C.args[2]
        if not isinstance(mode, int) or mode & 3:
            raise Unsupported("open mode %r" % (mode,))
        o = C.ex.fresh("opened", BOOL)
        st.ghost["fopen"] = o
        st.ghost["fpos"] = z3.IntVal(0)
        if out:
            st.ghost["flen"] = z3.If(o, z3.IntVal(0), st.ghost["flen"])
        vt = "vtab%d" % next(C.ex.cnt)
        st.roots[vt] = None
        st.mem[(vt, (), -24, "i64")] = 0
        C.ex.store(st, C.args[0], ir.PTR, Ptr(vt))
        return None

    def arr(C, p):
        p = C.ex.canon(C.st, p, None)
        if not C.ex.is_bytes(C.st, p):
            raise Unsupported("file transfer of %r" % (p,))
        k = (p.root, p.steps, p.off, "i8")
        return k, p, C.ex.mat_in(C.st.mem, C.st.rules, k, C.st)

    def write(C):
        st, g, n = C.st, C.st.ghost, zi(C.args[2])
        k, p, m = arr(C, C.args[1])
        C.ex.oblige(st, "written bytes lie within the data", zi(p.idxs[-1]) + n <= zi(LEN(st, p)))
        src = seln(m, p.idxs[:-1])
        new, i, old, at = C.ex.fresh("file", AI), z3.Int("i!f"), g["file"], g["fpos"]
        x = z3.Select(new, i)
        st.assume(z3.ForAll([i], z3.If(z3.And(at <= i, i < at + n), x == z3.Select(src, zi(p.idxs[-1]) + i - at), x == z3.Select(old, i)), patterns=[x]))
        g["file"], g["fpos"] = new, at + n
        g["flen"] = z3.If(at + n > g["flen"], at + n, g["flen"])
        return C.args[0]

    def LEN(st, p):
        lk = [k for k in st.mem if k[0] == p.root and k[3] == "len" and k[1] == p.steps[:-1]]
        if len(lk) != 1:
            raise Unsupported("length of %r" % (p,))
        return seln(st.mem[lk[0]], p.idxs[:-1]) if p.idxs[:-1] else st.mem[lk[0]]

    def read(C):
        st, g, n = C.st, C.st.ghost, zi(C.args[2])
        k, p, m = arr(C, C.args[1])
        rest = g["flen"] - g["fpos"]
        cnt = z3.If(n <= rest, n, rest)
        C.ex.oblige(st, "bytes read fit into the data", zi(p.idxs[-1]) + cnt <= zi(LEN(st, p)))
        old = seln(m, p.idxs[:-1])
        new, i, at, f, q = C.ex.fresh("raw", AI), z3.Int("i!f"), g["fpos"], g["file"], zi(p.idxs[-1])
        x = z3.Select(new, i)
        st.assume(z3.ForAll([i], z3.If(z3.And(q <= i, i < q + cnt), x == z3.Select(f, at + i - q), x == z3.Select(old, i)), patterns=[x]))
        st.mem[k] = ston(m, p.idxs[:-1], new)
        g["fpos"] = at + cnt
        return C.args[0]

    def seekg(C):
        g, d, o = C.st.ghost, C.args[2], C.ex.to_signed(C.st, C.args[1], 64)
        if d not in (0, 1, 2):
            raise Unsupported("seek direction %r" % (d,))
        g["fpos"] = (z3.IntVal(0), g["fpos"], g["flen"])[d] + zi(o)
        return C.args[0]

    def seekg1(C):
        raise Unsupported(C.dem)
    S = r"std::(?:basic_)?%s(?:<char, std::char_traits<char> ?>)?::%s"
    for rx, fn in ((S % ("ofstream", "(?:basic_)?ofstream\\(std::__cxx11"), lambda C: opener(C, True)), (S % ("ifstream", "(?:basic_)?ifstream\\(std::__cxx11"), lambda C: opener(C, False)),
                   (S % ("[io]fstream", "(close|~(?:basic_)?[io]fstream)\\("), lambda C: None), (S % ("ios", "(operator bool|good|is_open)\\("), lambda C: C.st.ghost["fopen"]), (S % ("[io]fstream", "is_open\\("), lambda C: C.st.ghost["fopen"]),
                   (S % ("ios", "(operator!|fail)\\("), lambda C: z3.Not(C.st.ghost["fopen"])),
                   (S % ("ostream", "write\\("), write), (S % ("istream", "read\\("), read), (S % ("istream", "seekg\\(long"), seekg), (S % ("istream", "tellg\\("), lambda C: Agg([C.st.ghost["fpos"], 0]))):
        ctx.contract("^" + rx, fn)


def op(name, drv, post, T="unsigned char", size=1, pre=None, filed=False, throws=None, argn=0):
    def fn(ctx):
        w = type("W", (), {})()
        for k in ("len", "byte", "pos", "tlen", "tbyte", "tpos", "v", "w", "at"):
            setattr(w, k, ctx.obs("ob_" + k))
        w.ctx, w.ex, w.size = ctx, ctx.ex, size
        if filed:
            files(ctx)
            w.F0 = dict(ctx.st.ghost)
        st0 = ctx.st.clone()
        w.o = o = View(ctx.ex, st0)
        w.n, w.p0, w.tn, w.tp = [zi(f(o)) for f in (w.len, w.pos, w.tlen, w.tpos)]
        ctx.assume(w.n < (1 << 50), w.tn < (1 << 50), w.p0 <= w.n, w.tp <= w.tn)
        w.q, w.tq = ctx.fresh("q*"), ctx.fresh("tq*")     # arbitrary positions of the data
        ctx.assume(w.tq < w.tn)
        if pre:
            ctx.assume(*pre(w))
        w.args = [ctx.fresh("i*") for _ in range(argn)]
        if argn:
            ctx.assume(w.args[0] < w.n)
        w.eq = lambda a, b: eqv(ctx, a, b)
        w.keep = lambda vw: z3.Implies(w.q < w.n, zi(w.byte(vw, w.q)) == zi(w.byte(o, w.q)))
        w.other = lambda vw: [("another serializer is untouched", z3.And(zi(w.tlen(vw)) == w.tn, zi(w.tpos(vw)) == w.tp, zi(w.tbyte(vw, w.tq)) == zi(w.tbyte(o, w.tq))))]
        w.same = lambda vw: [("data untouched", z3.And(zi(w.len(vw)) == w.n, w.keep(vw)))]
        w.src = lambda vw: [("reading position untouched", zi(w.pos(vw)) == w.p0)]
        ctx.run(drv, w.args, lambda vw, rv: post(w, vw, rv), (lambda vw: throws(w, vw)) if throws else None)
    return Entry(name, "stream.cpp", fn, ("-DGV_TYPE=%s" % T,) + (("-DGV_FILE",) if filed else ()))


def entries():
    E = []
    for T, s in (("unsigned char", 1), ("int", 4), ("double", 8)):
        def wrote(w, vw, rv, k=1):
            return [("the bytes of the value are appended", zi(w.len(vw)) == w.n + k * w.size), ("earlier bytes untouched", w.keep(vw)),
                    ("the appended bytes are those of the value", w.eq(w.at(vw, w.n), w.v(w.o))), ("the written value is untouched", w.eq(w.v(vw), w.v(w.o)))] + w.src(vw) + w.other(vw)

        def wrote2(w, vw, rv):
            return wrote(w, vw, rv, 2) + [("the second value follows", w.eq(w.at(vw, w.n + w.size), w.w(w.o)))]

        def got(w, vw, rv, k=1):
            return [("the value read has the bytes at the reading position", w.eq(w.v(vw), w.at(w.o, w.p0))), ("reading position moves behind the value", zi(w.pos(vw)) == w.p0 + k * w.size)] + w.same(vw) + w.other(vw)

        def got2(w, vw, rv):
            return got(w, vw, rv, 2) + [("the second value follows", w.eq(w.w(vw), w.at(w.o, w.p0 + w.size)))]

        def avail(k=1):
            return lambda w: [w.p0 + k * w.size <= w.n]
        t = "" if s == 1 else "/" + T
        for d in ("write", "shl"):
            E.append(op("%s%s" % (d, t), "drv_" + d, wrote, T, s))
        E.append(op("write two%s" % t, "drv_write2", wrote2, T, s))
        for d in ("read", "shr", "get"):
            E.append(op("%s%s" % (d, t), "drv_" + d, got, T, s, avail()))
        E.append(op("read two%s" % t, "drv_read2", got2, T, s, avail(2)))
        E.append(op("new%s" % t, "drv_fresh", lambda w, vw, rv: [("a new serializer reads what was written first", w.eq(w.w(vw), w.v(w.o)))] + w.same(vw) + w.src(vw) + w.other(vw), T, s))
    E.append(op("reset", "drv_reset", lambda w, vw, rv: [("reading position at the first byte", zi(w.pos(vw)) == 0)] + w.same(vw) + w.other(vw)))
    E.append(op("clear", "drv_clear", lambda w, vw, rv: [("no data", zi(w.len(vw)) == 0), ("reading position at the beginning", zi(w.pos(vw)) == 0)] + w.other(vw)))
    E.append(op("valid", "drv_valid", lambda w, vw, rv: [("valid exactly if there is something to read", zb(rv) == (w.p0 < w.n))] + w.same(vw) + w.src(vw) + w.other(vw)))
    E.append(op("data", "drv_data", lambda w, vw, rv: [("all data", zi(rv) == w.n), ("byte", zi(w.v(vw)) == zi(w.byte(w.o, w.args[0])))] + w.same(vw) + w.src(vw) + w.other(vw), argn=1))
    E.append(op("assign", "drv_assign", lambda w, vw, rv: [("the copy has the data", z3.And(zi(w.tlen(vw)) == w.n, z3.Implies(w.q < w.n, zi(w.tbyte(vw, w.q)) == zi(w.byte(w.o, w.q))))), ("the copy reads from the same position", zi(w.tpos(vw)) == w.p0)] + w.same(vw) + w.src(vw)))
    E.append(op("copy", "drv_copy", lambda w, vw, rv: [("the copy has the data", z3.And(zi(rv) == w.n, zi(w.v(vw)) == zi(w.byte(w.o, w.args[0])))), ("the copy reads from the same position", zi(w.tpos(vw)) == w.p0)] + w.same(vw) + w.src(vw), argn=1))

    def saved(w, vw, rv):
        f = vw.st.ghost
        return [("only a file that was opened counts as saved", f["fopen"]), ("the file has as many bytes", f["flen"] == w.n), ("the file has the bytes", z3.Implies(w.q < w.n, z3.Select(f["file"], w.q) == zi(w.byte(w.o, w.q))))] + w.same(vw) + w.src(vw) + w.other(vw)

    def loaded(w, vw, rv):
        o = vw.st.ghost["fopen"]
        f = w.F0
        return [("the data have the length of the file", z3.Implies(o, zi(w.len(vw)) == f["flen"])), ("the data are those of the file", z3.Implies(z3.And(o, w.q < f["flen"]), zi(w.byte(vw, w.q)) == z3.Select(f["file"], w.q))),
                ("read from the beginning", z3.Implies(o, zi(w.pos(vw)) == 0)), ("nothing changes if there is no file", z3.Implies(z3.Not(o), z3.And(zi(w.len(vw)) == w.n, zi(w.pos(vw)) == w.p0, w.keep(vw))))] + w.other(vw)

    def trip(w, vw, rv):
        o = vw.st.ghost["fopen"]
        return [("loaded data are the saved ones", z3.Implies(o, z3.And(zi(w.tlen(vw)) == w.n, zi(w.tpos(vw)) == 0, z3.Implies(w.q < w.n, zi(w.tbyte(vw, w.q)) == zi(w.byte(w.o, w.q))))))] + w.same(vw) + w.src(vw)
    fail = lambda w, vw: [("the file could not be opened", z3.Not(vw.st.ghost["fopen"]))] + w.same(vw) + w.src(vw) + w.other(vw)
    E.append(op("save", "drv_save", saved, filed=True, throws=fail))
    E.append(op("load", "drv_load", loaded, filed=True))
    E.append(op("save and load", "drv_trip", trip, filed=True, throws=fail))
    return E
