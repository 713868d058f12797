"""Parser for the textual LLVM IR that clang emits for the real GTMesh templates.

Only the subset clang-18 emits at -O0 (plus mem2reg) is understood; anything
else raises IRError, which the runner reports as an undischarged extraction
obligation (never as success)."""
import re, subprocess
from fractions import Fraction
import struct as _struct


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "n", "_sz", "_al", "_offs")

    def __init__(self, k, a=None, n=None):
        self.k, self.a, self.n = k, a, n
        self._sz = None
        self._al = None
        self._offs = None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.a)
        if self.k == "named":
            return self.a
        if self.k == "struct":
            return "{" + ",".join(map(repr, self.a)) + "}"
        if self.k == "vec":
            return "<%d x %r>" % (self.n, self.a)
        return self.k


VOID = Ty("void")
PTR = Ty("ptr")
F64 = Ty("f64")
F32 = Ty("f32")
X87 = Ty("f80")
LABEL = Ty("label")
META = Ty("metadata")
_ints = {}


def IntTy(n):
    if n not in _ints:
        _ints[n] = Ty("int", None, n)
    return _ints[n]


TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<com>;.*)
 | (?P<cstr>c"(?:[^"])*")
 | (?P<loc>%(?:"[^"]*"|[-\w.$]+))
 | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
 | (?P<str>"(?:[^"])*")
 | (?P<meta>![\w.]*)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<flt>-?\d+\.\d*(?:e[+-]?\d+)?)
 | (?P<num>-?\d+)
 | (?P<word>[A-Za-z_$.][\w.$]*)
 | (?P<attr>\#\d+)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}()<>,=*:|^])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError("tokenize: %r" % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k in ("ws", "com"):
            continue
        out.append((k, m.group()))
    return out


def unq(name):
    # %"foo" -> foo ; @"x" -> x
    name = name[1:]
    if name.startswith('"'):
        name = name[1:-1]
    return name


PARAM_ATTRS = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly",
               "readnone", "writeonly", "writable", "dead_on_unwind", "returned", "immarg", "nest",
               "inreg", "nofree", "swiftself", "inrange", "allocalign", "allocptr", "noext",
               "initializes", "nofpclass"}
PARAM_ATTRS_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref",
                   "elementtype", "range", "nofpclass", "memory", "preallocated", "inalloca"}


class P:
    """token cursor"""

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        return self.t[self.i + o][1] if self.i + o < len(self.t) else None

    def kind(self, o=0):
        return self.t[self.i + o][0] if self.i + o < len(self.t) else None

    def next(self):
        r = self.t[self.i][1]
        self.i += 1
        return r

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise IRError("expected %r at %r" % (s, [x[1] for x in self.t[max(0, self.i - 8):self.i + 8]]))

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    # -------- types
    def type(self):
        x = self.next()
        if x == "void":
            t = VOID
        elif x == "ptr":
            if self.peek() == "addrspace":
                raise IRError("addrspace")
            t = PTR
        elif x == "double":
            t = F64
        elif x == "float":
            t = F32
        elif x == "x86_fp80":
            t = X87
        elif x == "label":
            t = LABEL
        elif x == "metadata":
            t = META
        elif re.fullmatch(r"i\d+", x):
            t = IntTy(int(x[1:]))
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("arr", e, n)
        elif x == "{":
            t = self._struct("}")
        elif x == "<":
            if self.peek() == "{":
                self.next()
                t = self._struct("}")
                self.expect(">")
                t = Ty("struct", t.a, "packed")
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = Ty("vec", e, n)
        elif x[0] == "%":
            t = Ty("named", unq(x))
        else:
            raise IRError("type? %r" % x)
        # function type: T (args...)
        if self.peek() == "(" and self._looks_fn():
            self.skip_parens()
            t = Ty("fn", t)
        return t

    def _looks_fn(self):
        # only used for varargs call types: "i32 (ptr, ...)"
        j = self.i
        d = 0
        while j < len(self.t):
            x = self.t[j][1]
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1
                if d == 0:
                    break
            j += 1
        # next token after ')' must be a global/local (callee)
        return j + 1 < len(self.t) and self.t[j + 1][0] in ("glob", "loc")

    def _struct(self, close):
        fs = []
        if self.accept(close):
            return Ty("struct", tuple(fs))
        while True:
            fs.append(self.type())
            if self.accept(close):
                return Ty("struct", tuple(fs))
            self.expect(",")

    def attrs(self):
        sret = None
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.next()
                if self.peek() == "(":
                    self.skip_parens()
            elif x in PARAM_ATTRS_ARG:
                self.next()
                if x == "align":
                    if self.peek() == "(":
                        self.skip_parens()
                    else:
                        self.next()
                elif x in ("sret", "byval"):
                    self.expect("(")
                    sret = (x, self.type())
                    self.expect(")")
                elif self.peek() == "(":
                    self.skip_parens()
            elif self.kind() == "str":
                self.next()
                if self.accept("="):
                    self.next()
            else:
                return sret

    # -------- values:   ('l',name) ('g',name) ('c',pyvalue) ('ce',op,...)
    def value(self, ty):
        k, x = self.t[self.i]
        self.i += 1
        if k == "loc":
            return ("l", unq(x))
        if k == "glob":
            return ("g", unq(x))
        if k == "num":
            if ty.k in ("f64", "f32"):
                return ("c", Fraction(int(x)))
            v = int(x)
            if ty.k == "int":
                v &= (1 << ty.n) - 1
            return ("c", v)
        if k == "flt":
            return ("c", Fraction(x))
        if k == "hex":
            if ty.k in ("f64", "f32"):
                b = bytes.fromhex(x[2:].rjust(16, "0"))
                d = _struct.unpack(">d", b)[0]
                if d != d or d in (float("inf"), float("-inf")):
                    return ("cf", repr(d))
                return ("c", Fraction(d))
            return ("cf", x)
        if x == "true":
            return ("c", True)
        if x == "false":
            return ("c", False)
        if x == "null":
            return ("null",)
        if x in ("undef", "poison"):
            return ("undef", ty)
        if x == "zeroinitializer":
            return ("zero", ty)
        if x == "none":
            return ("undef", ty)
        if k == "cstr":
            s = x[2:-1]
            bs = []
            i = 0
            while i < len(s):
                if s[i] == "\\":
                    bs.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    bs.append(ord(s[i]))
                    i += 1
            return ("agg", [(IntTy(8), ("c", b)) for b in bs])
        if x in ("{", "[", "<"):
            close = {"{": "}", "[": "]", "<": ">"}[x]
            if x == "<" and self.peek() == "{":
                self.next()
                r = self._agglist("}")
                self.expect(">")
                return r
            return self._agglist(close)
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw") or self.peek() == "inrange":
                self.next()
                if self.peek() == "(" and self.t[self.i - 1][1] == "inrange":
                    self.skip_parens()
            self.expect("(")
            sty = self.type()
            ops = []
            while self.accept(","):
                while self.peek() == "inrange":
                    self.next()
                t = self.type()
                ops.append((t, self.value(t)))
            self.expect(")")
            return ("cgep", sty, ops)
        if x in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext"):
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("ccast", x, t, v, t2)
        if x in ("sub", "add", "mul", "xor"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            t = self.type()
            a = self.value(t)
            self.expect(",")
            t2 = self.type()
            b = self.value(t2)
            self.expect(")")
            return ("cbin", x, t, a, b)
        if x in ("asm",):
            raise IRError("inline asm")
        raise IRError("value? %r %r" % (x, [y[1] for y in self.t[max(0, self.i - 6):self.i + 6]]))

    def _agglist(self, close):
        out = []
        if self.accept(close):
            return ("agg", out)
        while True:
            t = self.type()
            out.append((t, self.value(t)))
            if self.accept(close):
                return ("agg", out)
            self.expect(",")

    def tval(self):
        t = self.type()
        self.attrs()
        if t.k == "metadata":
            # swallow
            d = 0
            while self.i < len(self.t):
                x = self.peek()
                if d == 0 and x in (",", ")"):
                    break
                if x in ("(", "{"):
                    d += 1
                if x in (")", "}"):
                    d -= 1
                self.next()
            return (t, ("undef", t))
        return (t, self.value(t))


class Instr:
    __slots__ = ("op", "dst", "ty", "a", "text")

    def __init__(self, op, dst=None, ty=None, a=None, text=""):
        self.op, self.dst, self.ty, self.a, self.text = op, dst, ty, a, text

    def __repr__(self):
        return self.text


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []      # (ty, name, sret/byval)
        self.ret = VOID
        self.text = None      # raw lines, parsed lazily
        self.blocks = None
        self.order = None
        self.varargs = False
        self.dem = name
        self._loops = None


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self.dem = {}

    # ------------------------------------------------ layout
    def res(self, t):
        while t.k == "named":
            r = self.types.get(t.a)
            if r is None:
                raise IRError("opaque type %s" % t.a)
            t = r
        return t

    def size(self, t):
        if t._sz is None:
            t._sz, t._al = self._layout(t)
        return t._sz

    def align(self, t):
        self.size(t)
        return t._al

    def _layout(self, t):
        if t.k == "int":
            n = (t.n + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return p, min(p, 16)
        if t.k == "ptr" or t.k == "f64":
            return 8, 8
        if t.k == "f32":
            return 4, 4
        if t.k == "f80":
            return 16, 16
        if t.k == "arr":
            return self.size(t.a) * t.n, self.align(t.a)
        if t.k == "vec":
            s = self.size(t.a) * t.n
            return s, s
        if t.k == "named":
            r = self.res(t)
            return self.size(r), self.align(r)
        if t.k == "struct":
            packed = t.n == "packed"
            o = 0
            al = 1
            offs = []
            for f in t.a:
                fa = 1 if packed else self.align(f)
                al = max(al, fa)
                o = (o + fa - 1) // fa * fa
                offs.append(o)
                o += self.size(f)
            o = (o + al - 1) // al * al
            t._offs = offs
            return o, al
        raise IRError("layout of %r" % t)

    def offsets(self, t):
        t = self.res(t)
        self.size(t)
        return t._offs


def parse_module(path):
    m = Module()
    lines = open(path).read().split("\n")
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if not ln or ln[0] in ";!" or ln.startswith("source_filename") or ln.startswith("target") or ln.startswith("attributes") or ln.startswith("$"):
            i += 1
            continue
        if ln[0] == "%":
            p = P(m, tokenize(ln))
            name = unq(p.next())
            p.expect("=")
            p.expect("type")
            if p.peek() != "opaque":
                m.types[name] = p.type()
            i += 1
            continue
        if ln[0] == "@":
            _parse_global(m, ln)
            i += 1
            continue
        if ln.startswith("declare"):
            f = _parse_header(m, ln)
            m.decls[f.name] = f
            i += 1
            continue
        if ln.startswith("define"):
            j = i + 1
            while lines[j] != "}":
                j += 1
            f = _parse_header(m, ln)
            f.text = lines[i + 1:j]
            m.funcs[f.name] = f
            i = j + 1
            continue
        if ln.startswith("module asm"):
            i += 1
            continue
        raise IRError("toplevel: " + ln[:80])
    names = list(m.funcs) + list(m.decls) + list(m.globals) + list(m.aliases)
    dem = demangle(names)
    m.dem = dict(zip(names, dem))
    for f in list(m.funcs.values()) + list(m.decls.values()):
        f.dem = norm_dem(m.dem[f.name])
    return m


def norm_dem(s):
    return s


def demangle(names):
    if not names:
        return []
    r = subprocess.run(["llvm-cxxfilt-18"] if _has("llvm-cxxfilt-18") else ["c++filt"],
                       input="\n".join(names), capture_output=True, text=True)
    out = r.stdout.split("\n")[:len(names)]
    return out


def _has(x):
    import shutil
    return shutil.which(x) is not None


LINK = {"private", "internal", "linkonce_odr", "linkonce", "weak", "weak_odr", "external", "dso_local", "constant",
        "global", "unnamed_addr", "local_unnamed_addr", "hidden", "comdat", "thread_local", "available_externally",
        "common", "appending", "extern_weak", "protected", "default", "dso_preemptable"}


def _parse_global(m, ln):
    p = P(m, tokenize(ln))
    name = unq(p.next())
    p.expect("=")
    const = False
    alias = False
    ext = False
    while p.peek() in LINK or p.peek() == "alias":
        w = p.next()
        if w == "constant":
            const = True
        if w in ("external", "extern_weak"):
            ext = True
        if w == "alias":
            alias = True
        if w == "thread_local" and p.peek() == "(":
            p.skip_parens()
        if w in ("global", "constant"):
            break
    if alias:
        try:
            t = p.type()
            p.expect(",")
            t2 = p.type()
            v = p.value(t2)
            m.aliases[name] = v[1] if v[0] == "g" else None
        except IRError:
            pass
        return
    t = p.type()
    init = None
    if not ext:
        try:
            init = p.value(t)
        except IRError:
            init = None
    m.globals[name] = (t, init, const)


def _parse_header(m, ln):
    toks = tokenize(ln)
    p = P(m, toks)
    p.next()  # define/declare
    while True:
        x = p.peek()
        if x in LINK or x in ("fastcc", "ccc"):
            p.next()
            continue
        if x in PARAM_ATTRS or x in PARAM_ATTRS_ARG:
            p.attrs()
            continue
        break
    rt = p.type()
    name = unq(p.next())
    f = Func(name)
    f.ret = rt
    p.expect("(")
    idx = 0
    if not p.accept(")"):
        while True:
            if p.accept("..."):
                f.varargs = True
            else:
                t = p.type()
                s = p.attrs()
                nm = None
                if p.kind() == "loc":
                    nm = unq(p.next())
                else:
                    nm = str(idx)
                f.params.append((t, nm, s))
                idx += 1
            if p.accept(")"):
                break
            p.expect(",")
    return f


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
          "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"zext", "sext", "trunc", "fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc", "ptrtoint",
         "inttoptr", "bitcast", "addrspacecast"}
FLAGS = {"nsw", "nuw", "exact", "disjoint", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc",
         "inbounds", "nusw"}


def body(m, f):
    if f.blocks is not None:
        return f
    blocks = {}
    order = []
    cur = None
    lines = f.text
    # join continuation lines
    joined = []
    for ln in lines:
        if not ln.strip() or ln.lstrip().startswith(";"):
            continue
        s = ln.strip()
        isl = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
        if isl:
            joined.append(("L", isl.group(1)))
            continue
        if joined and (s.startswith("to label") or (joined[-1][1].startswith("%") or True) and
                       (re.match(r'^(cleanup|catch |filter )', s))):
            joined[-1] = ("I", joined[-1][1] + " " + s)
            continue
        if joined and joined[-1][0] == "I" and joined[-1][1].lstrip().startswith("switch") and not joined[-1][1].rstrip().endswith("]"):
            joined[-1] = ("I", joined[-1][1] + " " + s)
            continue
        joined.append(("I", s))
    if joined and joined[0][0] == "I":
        # implicit entry label: number = count of params
        nlab = sum(1 for (t, n_, s_) in f.params if n_.isdigit())
        joined.insert(0, ("L", str(nlab)))
    for k, s in joined:
        if k == "L":
            nm = s[1:-1] if s.startswith('"') else s
            cur = []
            blocks[nm] = cur
            order.append(nm)
        else:
            cur.append(parse_instr(m, s))
    f.blocks = blocks
    f.order = order
    return f


def parse_instr(m, s):
    # strip trailing metadata:  , !dbg !5
    s2 = re.sub(r',?\s+![\w.]+ !\d+', '', s)
    toks = tokenize(s2)
    p = P(m, toks)
    dst = None
    if p.kind() == "loc" and p.peek(1) == "=":
        dst = unq(p.next())
        p.next()
    op = p.next()
    I = Instr(op, dst, None, None, s)
    if op in ("tail", "musttail", "notail"):
        op = p.next()
        I.op = op
    if op == "alloca":
        I.ty = p.type()
        cnt = None
        if p.accept(","):
            if p.peek() != "align":
                t = p.type()
                cnt = (t, p.value(t))
        I.a = cnt
    elif op == "load":
        if p.peek() in ("volatile", "atomic"):
            p.next()
        I.ty = p.type()
        p.expect(",")
        p.type()
        I.a = p.value(PTR)
    elif op == "store":
        if p.peek() in ("volatile", "atomic"):
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect(",")
        p.type()
        I.ty = t
        I.a = (v, p.value(PTR))
    elif op == "getelementptr":
        while p.peek() in FLAGS:
            p.next()
        sty = p.type()
        p.expect(",")
        p.type()
        base = p.value(PTR)
        idx = []
        while p.accept(","):
            t = p.type()
            idx.append((t, p.value(t)))
        I.ty = sty
        I.a = (base, idx)
    elif op in ("call", "invoke"):
        while p.peek() in FLAGS or p.peek() in ("fastcc", "ccc"):
            p.next()
        p.attrs()
        rt = p.type()
        if rt.k == "fn":
            rt = rt.a
        callee = p.value(PTR)
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                t = p.type()
                at = p.attrs()
                if t.k == "metadata":
                    p.i -= 1
                    t, v = p.tval()
                else:
                    v = p.value(t)
                args.append((t, v, at))
                if p.accept(")"):
                    break
                p.expect(",")
        I.ty = rt
        nd = ud = None
        if op == "invoke":
            while p.peek() != "to":
                p.next()
            p.expect("to")
            p.expect("label")
            nd = unq(p.next())
            p.expect("unwind")
            p.expect("label")
            ud = unq(p.next())
        I.a = (callee, args, nd, ud)
    elif op == "br":
        if p.accept("label"):
            I.a = (None, unq(p.next()), None)
        else:
            p.type()
            c = p.value(IntTy(1))
            p.expect(",")
            p.expect("label")
            a = unq(p.next())
            p.expect(",")
            p.expect("label")
            b = unq(p.next())
            I.a = (c, a, b)
    elif op == "switch":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        p.expect("label")
        d = unq(p.next())
        p.expect("[")
        cases = []
        while not p.accept("]"):
            ct = p.type()
            cv = p.value(ct)
            p.expect(",")
            p.expect("label")
            cases.append((cv, unq(p.next())))
        I.ty = t
        I.a = (v, d, cases)
    elif op == "ret":
        t = p.type()
        I.ty = t
        I.a = None if t.k == "void" else p.value(t)
    elif op in ("icmp", "fcmp"):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        I.ty = t
        I.a = (pred, a, b)
    elif op in BINOPS:
        fl = []
        while p.peek() in FLAGS:
            fl.append(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        I.ty = t
        I.a = (fl, a, b)
    elif op == "fneg":
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        I.ty = t
        I.a = p.value(t)
    elif op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect("to")
        I.ty = p.type()
        I.a = (t, v)
    elif op == "select":
        while p.peek() in FLAGS:
            p.next()
        p.type()
        c = p.value(IntTy(1))
        p.expect(",")
        t = p.type()
        a = p.value(t)
        p.expect(",")
        p.type()
        b = p.value(t)
        I.ty = t
        I.a = (c, a, b)
    elif op == "phi":
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            lb = unq(p.next())
            p.expect("]")
            inc.append((v, lb))
            if not p.accept(","):
                break
        I.ty = t
        I.a = inc
    elif op == "extractvalue":
        t = p.type()
        v = p.value(t)
        ix = []
        while p.accept(","):
            ix.append(int(p.next()))
        I.ty = t
        I.a = (v, ix)
    elif op == "insertvalue":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        t2 = p.type()
        v2 = p.value(t2)
        ix = []
        while p.accept(","):
            ix.append(int(p.next()))
        I.ty = t
        I.a = (v, t2, v2, ix)
    elif op == "landingpad":
        I.ty = p.type()
        cl = []
        while p.i < len(p.t):
            w = p.next()
            if w == "cleanup":
                cl.append(("cleanup", None))
            elif w == "catch":
                t = p.type()
                cl.append(("catch", p.value(t)))
            elif w == "filter":
                cl.append(("filter", None))
                break
        I.a = cl
    elif op == "resume":
        t = p.type()
        I.ty = t
        I.a = p.value(t)
    elif op == "unreachable":
        pass
    elif op == "freeze":
        t = p.type()
        I.ty = t
        I.a = p.value(t)
    elif op in ("extractelement", "insertelement", "shufflevector"):
        t = p.type()
        v = p.value(t)
        rest = []
        while p.accept(","):
            t2 = p.type()
            rest.append((t2, p.value(t2)))
        I.ty = t
        I.a = (v, rest)
    elif op in ("fence",):
        pass
    elif op in ("atomicrmw", "cmpxchg"):
        I.op = "unsupported"
    else:
        raise IRError("instr: " + s)
    return I


# ------------------------------------------------------- CFG: natural loops
def succs(b):
    t = b[-1]
    if t.op == "br":
        return [x for x in t.a[1:] if x]
    if t.op == "switch":
        return [t.a[1]] + [x[1] for x in t.a[2]]
    if t.op == "invoke":
        return [t.a[2], t.a[3]]
    return []


def loops(m, f):
    """header -> set(blocks) for natural loops (reducible CFG)."""
    body(m, f)
    if f._loops is not None:
        return f._loops
    entry = f.order[0]
    seen = set()
    post = []

    def dfs(u):
        st = [(u, iter(succs(f.blocks[u])))]
        seen.add(u)
        while st:
            v, it = st[-1]
            for w in it:
                if w not in seen:
                    seen.add(w)
                    st.append((w, iter(succs(f.blocks[w]))))
                    break
            else:
                post.append(v)
                st.pop()
    dfs(entry)
    rpo = list(reversed(post))
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(f.blocks[b]):
            preds[s].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for q in preds[b]:
                if q in idom:
                    if new is None:
                        new = q
                    else:
                        a, c = q, new
                        while a != c:
                            while num[a] > num[c]:
                                a = idom[a]
                            while num[c] > num[a]:
                                c = idom[c]
                        new = a
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    L = {}
    for b in rpo:
        for s in succs(f.blocks[b]):
            if dom(s, b):
                blk = L.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in blk:
                        blk.add(x)
                        st.extend(preds[x])
    f._loops = L
    return L
