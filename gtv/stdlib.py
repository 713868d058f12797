"""Assumed contracts of the C++ standard library entities used by GTMesh.

Every function here is TRUSTED: it states what the standard guarantees about the
operation in terms of the access-path memory.  The list of those actually used
by a run goes into the evidence file."""
import re
import z3
from fractions import Fraction
from . import ir
from .core import *
from .exec import Outcome, Call, PushFrame

OPS = ["operator<<=", "operator>>=", "operator<<", "operator>>", "operator<=", "operator>=", "operator->*", "operator->",
       "operator<", "operator>", "operator()"]
_ph = {}
for _i, _o in enumerate(OPS):
    _ph[_o] = "op\x01%c" % chr(65 + _i)


def _protect(s):
    for o in OPS:
        if o in s:
            # "operator<" directly followed by template args is rare; protect all
            s = s.replace(o, _ph[o])
    return s


def _unprotect(s):
    for o in OPS:
        s = s.replace(_ph[o], o)
    return s


def split_dem(dem):
    """demangled name -> (scope, method, template args of method, parameter text)"""
    s = _protect(dem)
    # find the parameter list: first '(' at depth 0 that is not part of "(anonymous namespace)" / lambda
    depth = 0
    lastopen = None
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in "<{[":
            depth += 1
        elif c in ">}]":
            depth -= 1
        elif c == "(":
            if s.startswith("(anonymous namespace)", i):
                i += len("(anonymous namespace)")
                continue
            if depth == 0:
                lastopen = i
                d2 = 1
                j = i + 1
                while j < n and d2:
                    if s[j] == "(":
                        d2 += 1
                    elif s[j] == ")":
                        d2 -= 1
                    j += 1
                # parameter list of an enclosing function (local class)?
                if s.startswith("::", j) or s.startswith(" const::", j):
                    i = j
                    continue
                break
            depth += 1
        elif c == ")":
            depth -= 1
        i += 1
    if lastopen is None:
        name, params = s, ""
    else:
        name = s[:lastopen]
        params = s[lastopen:]
    # strip return type
    depth = 0
    cut = 0
    i = 0
    while i < len(name):
        c = name[i]
        if c in "<{[(":
            depth += 1
        elif c in ">}])":
            depth -= 1
        elif c == " " and depth == 0:
            if name.startswith("operator ", i - 8) and i >= 8:
                break
            cut = i + 1
        i += 1
    name = name[cut:]
    # scope::method
    depth = 0
    k = -1
    for i, c in enumerate(name):
        if c in "<{[(":
            depth += 1
        elif c in ">}])":
            depth -= 1
        elif c == ":" and depth == 0 and name.startswith("::", i):
            k = i
            # an operator conversion may contain ::, stop at operator
            if name.startswith("::operator ", i):
                break
    scope = name[:k] if k >= 0 else ""
    meth = name[k + 2:] if k >= 0 else name
    targs = ""
    if "<" in meth:
        p = meth.index("<")
        targs = meth[p:]
        meth = meth[:p]
    meth = re.sub(r"\[abi:\w+\]", "", meth)
    return _unprotect(scope), _unprotect(meth), _unprotect(targs), _unprotect(params)


def targs_of(cls):
    """'std::vector<A, B>' -> ('std::vector', ['A','B'])"""
    p = cls.find("<")
    if p < 0:
        return cls, []
    base = cls[:p]
    body = cls[p + 1:cls.rindex(">")]
    out = []
    depth = 0
    cur = ""
    body = _protect(body)
    for c in body:
        if c in "<{[(":
            depth += 1
        elif c in ">}])":
            depth -= 1
        if c == "," and depth == 0:
            out.append(_unprotect(cur.strip()))
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(_unprotect(cur.strip()))
    return base, out


SCALARS = {"unsigned long": "i64", "long": "i64", "unsigned int": "i32", "int": "i32", "double": "double",
           "float": "float", "bool": "i8", "char": "i8", "unsigned char": "i8", "signed char": "i8", "short": "i16",
           "unsigned short": "i16", "unsigned long long": "i64", "long long": "i64", "long double": "x86_fp80"}


def elem_type(ex, T):
    """LLVM type (Ty) of the C++ type with demangled name T, found in the IR itself"""
    cache = ex.__dict__.setdefault("_etc", {})
    if T in cache:
        return cache[T]
    r = None
    if T in SCALARS:
        r = ex.tyobj(SCALARS[T])
    elif T.endswith("*"):
        r = ir.PTR
    else:
        m = ex.m
        keys = ("std::vector<%s, std::allocator<%s>>::" % (T, T), "__gnu_cxx::__normal_iterator<%s*" % T,
                "__gnu_cxx::__normal_iterator<%s const*" % T, "std::array<%s, " % T)
        pat = re.compile(r"getelementptr inbounds (%\"[^\"]+\"|%[-\w.$]+|\[[^\]]*\]|\w+), ptr %[-\w.]+, i64 (%[-\w.]+|1|-1)\s*$")
        for f in m.funcs.values():
            if any(k in f.dem for k in keys):
                sc, me, ta, pa = split_dem(f.dem)
                if not any(sc.startswith(k.rstrip(":")) for k in keys):
                    continue
                if me not in ("operator[]", "operator++", "operator+", "operator--", "back", "push_back", "emplace_back", "resize", "_M_erase_at_end", "operator+=", "data"):
                    continue
                for ln in f.text:
                    mm = pat.search(ln.split(", !")[0])
                    if mm and mm.group(1) != "i8":
                        r = ex.tyobj(mm.group(1))
                        break
            if r is not None:
                break
        if r is None:
            # sret/alloca of a class with that name: unique struct whose demangled base matches
            r = guess_struct(ex, T)
    cache[T] = r
    return r


def guess_struct(ex, T):
    m = ex.m
    # look for  T::method(...) functions with a typed "this": use dereferenceable size only
    for f in list(m.funcs.values()) + list(m.decls.values()):
        if f.dem.startswith("std::vector<%s, std::allocator<%s>>::" % (T, T)):
            pass
    # allocator traits / construct:  look at functions taking T by GEP with struct type
    for f in m.funcs.values():
        if f.dem.startswith(T + "::") and f.text:
            for ln in f.text:
                mm = re.search(r"getelementptr inbounds (%\"[^\"]+\"|%[-\w.$]+), ptr %this1, i32 0", ln)
                if mm:
                    return ex.tyobj(mm.group(1))
    if T.startswith("std::vector<"):
        return ex.tyobj("{ptr, ptr, ptr}")
    if T.startswith("std::set<") or T.startswith("std::map<"):
        return ex.tyobj("[48 x i8]") if False else Ty48
    if T.startswith("std::valarray<"):
        return ex.tyobj("{i64, ptr}")
    if T.startswith("std::__cxx11::basic_string<"):
        return ex.tyobj("{ptr, i64, {i64, i64}}")
    raise Unsupported("cannot find the IR type of " + T)


Ty48 = ir.Ty("struct", (ir.PTR, ir.PTR, ir.PTR, ir.PTR, ir.PTR, ir.PTR))


def buf(ex, v, i, ty):
    return v.step("buf", i, ex.m.size(ty), ex.tyname(ty))


def vlen(C, v):
    return C.ex.read(C.st, v, "len")


def setlen(C, v, n):
    C.ex.write(C.st, v, "len", n)


def ilt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return zi(a) < zi(b)


def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return zi(a) == zi(b)


# sets of integers: an uninterpreted sort built by ins() from EMPTY
card = z3.Function("card", SetSort, INT)
enum_ = z3.Function("enum", SetSort, z3.ArraySort(INT, INT))
rank = z3.Function("rank", SetSort, INT, INT)
mem = z3.Function("mem", SetSort, INT, BOOL)
ins = z3.Function("ins", SetSort, INT, SetSort)
rem = z3.Function("rem", SetSort, INT, SetSort)
EMPTY = z3.Const("emptyset", SetSort)


def set_axioms():
    s = z3.Const("s!s", SetSort)
    x, y = z3.Ints("x!s y!s")
    return [card(EMPTY) == 0,
            z3.ForAll([y], z3.Not(mem(EMPTY, y)), patterns=[mem(EMPTY, y)]),
            z3.ForAll([s, x, y], mem(ins(s, x), y) == z3.Or(x == y, mem(s, y)), patterns=[mem(ins(s, x), y)]),
            z3.ForAll([s, x, y], mem(rem(s, x), y) == z3.And(x != y, mem(s, y)), patterns=[mem(rem(s, x), y)])]


def card_of(st, d):
    c = card(d)
    st.assume(c >= 0)
    st.assume(c < (1 << 60))
    return c


def enum_facts(st, d):
    """the ascending enumeration of d"""
    i, j, x = z3.Ints("i!e j!e x!e")
    e = enum_(d)
    n = card_of(st, d)
    rng = z3.And(0 <= i, i < n)
    st.assume(z3.ForAll([i], z3.Implies(rng, mem(d, z3.Select(e, i))), patterns=[z3.Select(e, i)]))
    st.assume(z3.ForAll([i], z3.Implies(rng, rank(d, z3.Select(e, i)) == i), patterns=[rank(d, z3.Select(e, i))]))
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Select(e, i) < z3.Select(e, j)), patterns=[z3.MultiPattern(z3.Select(e, i), z3.Select(e, j))]))
    st.assume(z3.ForAll([x], z3.Implies(mem(d, x), z3.And(rank(d, x) >= 0, rank(d, x) < n, z3.Select(e, rank(d, x)) == x)), patterns=[rank(d, x)]))
    return e


class StdContracts:
    def __init__(self):
        self.d = {}
        self.pref = []
        reg(self)

    def on(self, scope, *methods):
        def deco(fn):
            for m in methods:
                self.d[(scope, m)] = fn
            return fn
        return deco

    def find(self, dem, mod):
        scope, meth, targs, params = split_dem(dem)
        base, ta = targs_of(scope)
        if base.startswith("std::__cxx11::"):
            base = "std::" + base[len("std::__cxx11::"):]
        short = base.rsplit("::", 1)[-1]
        if meth == short:
            meth = "#ctor"
        elif meth == "~" + short:
            meth = "#dtor"
        fn = self.d.get((base, meth)) or self.d.get((base, "*"))
        if fn is None or (base in ("", "std") and targs and meth in ("sqrt", "fabs", "abs")):
            return None
        return fn, (base, ta, meth, targs, params)


def reg(R):
    # ---------------------------------------------------------------- vector
    def T(C):
        return elem_type(C.ex, C.m[1][0])

    def isbool(C):
        return C.m[1][0] == "bool" and C.m[0] == "std::vector"

    V = "std::vector"

    @R.on(V, "size")
    def vector_size(C):
        return vlen(C, C.args[0])

    @R.on(V, "empty")
    def vector_empty(C):
        n = vlen(C, C.args[0])
        return n == 0 if isinstance(n, int) else (n == 0)

    @R.on(V, "capacity")
    def vector_capacity(C):
        c = C.ex.fresh_int(C.st, "cap", 60)
        C.st.assume(c >= zi(vlen(C, C.args[0])))
        return c

    @R.on(V, "reserve", "shrink_to_fit")
    def vector_nop(C):
        return None

    @R.on(V, "#dtor")
    def vector_dtor(C):
        return None

    @R.on(V, "operator[]")
    def vector_index(C):
        v, i = C.args
        n = vlen(C, v)
        c = ilt(i, n)
        if c is not True:
            C.ex.oblige(C.st, "index in bounds: vector::operator[] in " + short(C), c, "safety")
            C.st.assume(c)
        return buf(C.ex, v, i, T(C))

    @R.on(V, "at")
    def vector_at(C):
        v, i = C.args
        n = vlen(C, v)
        return bounded_access(C, ilt(i, n), lambda st: buf(C.ex, v, i, T(C)))

    @R.on(V, "begin", "cbegin", "data")
    def vector_begin(C):
        return buf(C.ex, C.args[0], 0, T(C))

    @R.on(V, "end", "cend")
    def vector_end(C):
        return buf(C.ex, C.args[0], vlen(C, C.args[0]), T(C))

    @R.on(V, "front")
    def vector_front(C):
        C.ex.oblige(C.st, "front() of non-empty vector", ilt(0, vlen(C, C.args[0])), "safety")
        return buf(C.ex, C.args[0], 0, T(C))

    @R.on(V, "back")
    def vector_back(C):
        n = vlen(C, C.args[0])
        C.ex.oblige(C.st, "back() of non-empty vector", ilt(0, n), "safety")
        C.st.assume(ilt(0, n))
        return buf(C.ex, C.args[0], C.ex.iadd(n, -1), T(C))

    @R.on(V, "clear")
    def vector_clear(C):
        setlen(C, C.args[0], 0)

    @R.on(V, "pop_back")
    def vector_pop_back(C):
        n = vlen(C, C.args[0])
        C.ex.oblige(C.st, "pop_back() of non-empty vector", ilt(0, n), "safety")
        C.st.assume(ilt(0, n))
        setlen(C, C.args[0], C.ex.iadd(n, -1))

    @R.on(V, "push_back")
    def vector_push_back(C):
        v, x = C.args
        n = vlen(C, v)
        t = T(C)
        C.ex.copy_region(C.st, buf(C.ex, v, n, t), x, C.ex.m.size(t))
        if C.m[4].startswith("(") and "&&" in C.m[4]:
            moved_from(C, x, t)
        grow(C, n, 1)
        setlen(C, v, C.ex.iadd(n, 1))

    @R.on(V, "emplace_back")
    def vector_emplace_back(C):
        v = C.args[0]
        n = vlen(C, v)
        t = T(C)
        if len(C.args) == 2:
            C.ex.copy_region(C.st, buf(C.ex, v, n, t), C.args[1], C.ex.m.size(t)) if not needs_conv(C) else construct(C, buf(C.ex, v, n, t), C.args[1:])
        else:
            construct(C, buf(C.ex, v, n, t), C.args[1:])
        grow(C, n, 1)
        setlen(C, v, C.ex.iadd(n, 1))
        return buf(C.ex, v, n, t)

    def needs_conv(C):
        tt = C.m[3].strip("<>& ").replace(" const", "").replace("const ", "").strip("& ")
        return tt != C.m[1][0] and not (tt in SCALARS and C.m[1][0] in SCALARS and SCALARS[tt] == SCALARS[C.m[1][0]])

    def construct(C, p, args):
        Tn = C.m[1][0]
        # the constructor call clang instantiated inside the allocator
        want = "::construct<%s" % Tn
        cands = [f for f in C.ex.m.funcs.values() if f.dem.startswith("void std::__new_allocator<%s>::construct<%s, " % (Tn, Tn)) or f.dem.startswith("void std::__new_allocator<%s>::construct<%s>" % (Tn, Tn))]
        cands = [f for f in cands if len(f.params) == 2 + len(args)]
        if len(cands) != 1:
            raise Unsupported("emplace construct of " + Tn)
        r = "a%d.alloc" % next(C.ex.cnt)
        outs = C.ex.run_sub(C.st, cands[0], [Ptr(r), p] + list(args))
        if len(outs) != 1:
            raise Unsupported("constructor forks")
        s2 = outs[0][0]
        adopt(C.st, s2)

    @R.on(V, "#ctor", "operator=", "assign")
    def vector_ctor(C):
        ex, st = C.ex, C.st
        v = C.args[0]
        t = T(C)
        par = C.m[4]
        cls = C.m[0]
        a = C.args
        meth = C.m[2]
        ret = v if meth == "operator=" else None
        if len(a) == 1 or (len(a) == 2 and "std::allocator<" in par and par.startswith("(std::allocator<")):
            setlen(C, v, 0)
            return ret
        if "std::initializer_list<" in par:
            p, n = a[1], a[2]
            if not isinstance(n, int):
                raise Unsupported("initializer_list length")
            for i in range(n):
                src = C.ex.gep1(st, C.ex.canon(st, p, None), t, i)
                ex.copy_region(st, buf(ex, v, i, t), src, ex.m.size(t))
            setlen(C, v, n)
            return ret
        if par.startswith("(std::vector<"):
            if not same(a[1], v):
                ex.copy_region(st, v, a[1], 24)
                if "&&" in par:
                    ex.write(st, a[1], "len", 0)
            return ret
        if par.startswith("(unsigned long, "):
            n = a[1]
            setlen(C, v, n)
            if not par.startswith("(unsigned long, std::allocator<"):
                src = a[2]
                ex.region_event(st, ("fill", buf(ex, v, 0, t), ex.m.size(t), src, (dict(st.mem), st.rules), 0, None))
            else:
                default_fill(C, v, 0, n, t)
            return ret
        # iterator range
        setlen(C, v, 0)
        insert_range(C, v, 0, a[1], a[2])
        return ret

    def default_fill(C, v, lo, hi, t):
        """elements [lo,hi) are value-initialised"""
        ex, st = C.ex, C.st
        if isinstance(lo, int) and isinstance(hi, int) and lo >= hi:
            return
        r = "a%d.dflt" % next(ex.cnt)
        st.roots[r] = t
        src = Ptr(r)
        default_construct(C, src, t, C.m[1][0])
        full = isinstance(lo, int) and lo == 0
        if not full and ex.prove(st, zi(lo) == 0):
            full = True
        ex.region_event(st, ("fill", buf(ex, v, 0, t), ex.m.size(t), src, (dict(st.mem), st.rules), 0 if full else lo, None if full else hi))

    def default_construct(C, p, t, Tn):
        ex, st = C.ex, C.st
        if Tn.startswith("std::vector<"):
            ex.write(st, p, "len", 0)
            return
        if Tn.startswith("std::set<") or Tn.startswith("std::map<"):
            ex.write(st, p, "dom", EMPTY)
            return
        rt = ex.m.res(t)
        if rt.k in ("int", "f64", "f32", "ptr"):
            ex.zero_region(st, p, ex.m.size(t))
            return
        f = None
        for g in ex.m.funcs.values():
            if g.dem.startswith("void std::_Construct<%s>(%s*)" % (Tn, Tn)) or g.dem.startswith("decltype") and False:
                f = g
                break
        if f is None:
            raise Unsupported("default constructor of " + Tn)
        outs = ex.run_sub(st, f, [p])
        if len(outs) != 1:
            raise Unsupported("default constructor forks")
        adopt(st, outs[0][0])

    C_default_construct = default_construct
    R.default_construct = default_construct

    @R.on(V, "resize")
    def vector_resize(C):
        ex, st = C.ex, C.st
        v, n = C.args[0], C.args[1]
        t = T(C)
        old = vlen(C, v)
        if len(C.args) == 2:
            default_fill(C, v, old, n, t)
        else:
            full = (isinstance(old, int) and old == 0) or ex.prove(st, zi(old) == 0)
            ex.region_event(st, ("fill", buf(ex, v, 0, t), ex.m.size(t), C.args[2], (dict(st.mem), st.rules), 0 if full else old, None if full else n))
        setlen(C, v, n)
        return None

    @R.on(V, "insert")
    def vector_insert(C):
        ex, st = C.ex, C.st
        v = C.args[0]
        pos = C.args[1]
        n = vlen(C, v)
        t = T(C)
        at = pos.idxs[-1]
        if len(C.args) == 4 and "std::initializer_list" not in C.m[4]:
            insert_range(C, v, at, C.args[2], C.args[3])
            return pos
        if len(C.args) == 3:
            if ex.prove(st, zi(at) == zi(n)):
                ex.copy_region(st, buf(ex, v, n, t), C.args[2], ex.m.size(t))
                setlen(C, v, ex.iadd(n, 1))
                return pos
        raise Unsupported("vector::insert form")

    def insert_range(C, v, at, b, e):
        ex, st = C.ex, C.st
        n = vlen(C, v)
        t = T(C)
        atend = (isinstance(at, int) and isinstance(n, int) and at == n) or ex.prove(st, zi(at) == zi(n))
        if ex.m.size(t) == 1 and atend and raw_insert(C, v, n, t, b, e):
            return
        if b.root != e.root or b.steps != e.steps:
            raise Unsupported("insert range")
        i0, i1 = b.idxs[-1], e.idxs[-1]
        cnt = ex.iadd(i1, -i0) if isinstance(i0, int) else zi(i1) - zi(i0)
        if isinstance(cnt, int) and atend:
            S = b.steps[-1][2]
            for q in range(cnt):
                ex.copy_region(st, buf(ex, v, ex.iadd(n, q), t), b.withidx(ex.iadd(i0, q)), ex.m.size(t))
        else:
            # scalar elements only: element-wise array copy
            rt = ex.m.res(t)
            cty = None
            off = 0
            while rt.k == "struct" and len(rt.a) == 1:
                rt = ex.m.res(rt.a[0])
            if rt.k not in ("int", "f64"):
                raise Unsupported("range insert of non-scalar elements")
            cty = ex.cty(rt)
            sk = (b.root, b.steps, b.off, cty)
            src = seln(ex.mat_in(st.mem, st.rules, sk, st), b.idxs[:-1])
            dp = buf(ex, v, 0, t)
            dk = (dp.root, dp.steps, dp.off, cty)
            dst = ex.mat_in(st.mem, st.rules, dk, st)
            oldb = seln(dst, dp.idxs[:-1])
            if isinstance(i0, int) and i0 == 0 and ((isinstance(n, int) and n == 0) or ex.prove(st, zi(n) == 0)):
                newb = src
            else:
                newb = ex.fresh("ins", oldb.sort())
                q = z3.Int("q!i")
                f = z3.ForAll([q], z3.Select(newb, q) == z3.If(z3.And(q >= zi(at), q < zi(at) + cnt), z3.Select(src, zi(i0) + q - zi(at)), z3.If(q < zi(at), z3.Select(oldb, q), z3.Select(oldb, q - cnt))), patterns=[z3.Select(newb, q)])
                st.assume(f)
            st.mem[dk] = ston(dst, dp.idxs[:-1], newb)
        setlen(C, v, ex.iadd(n, cnt))

    def raw_insert(C, v, n, t, b, e):
        """append the bytes of an object or of an array of scalars to a vector of bytes"""
        ex, st = C.ex, C.st
        if not (b.steps == e.steps and all(same(x, y) for x, y in zip(b.idxs, e.idxs))):
            b, e = ex.canon(st, b, None), ex.canon(st, e, None)
        if b.root != e.root:
            return False
        if b.steps == e.steps and all(same(x, y) for x, y in zip(b.idxs, e.idxs)):
            k = e.off - b.off
            if k > 64:
                return False
        elif b.steps == e.steps and b.off == e.off == 0 and all(same(x, y) for x, y in zip(b.idxs[:-1], e.idxs[:-1])):
            S = b.steps[-1][2]
            if S == 1:
                return False
            i0, i1 = b.idxs[-1], e.idxs[-1]
            if isinstance(i0, int) and isinstance(i1, int) and (i1 - i0) * S <= 64:
                k = (i1 - i0) * S
            else:
                w = ex.wide_at(st, b)
                if w is None or w[2] != 0 or ex.m.size(w[1]) != S:
                    return False
                cnt = zi(i1) - zi(i0)
                ex.raw_block_out(st, buf(ex, v, 0, t), n, b, i0, cnt, w[1])
                setlen(C, v, ex.iadd(n, cnt * S))
                return True
        elif len(e.steps) == len(b.steps) and b.steps[:-1] == e.steps[:-1]:
            return False
        else:
            return False
        for q in range(k):
            ex.write(st, buf(ex, v, ex.iadd(n, q), t), "i8", ex.load(st, ex.byte_ptr(st, b, q), ir.IntTy(8)))
        setlen(C, v, ex.iadd(n, k))
        return True

    def scalar_elem(ex, t):
        rt = ex.m.res(t)
        while rt.k == "struct" and len(rt.a) == 1:
            rt = ex.m.res(rt.a[0])
        if rt.k not in ("int", "f64"):
            raise Unsupported("element-wise vector operation on non-scalar elements")
        return ex.cty(rt)

    @R.on(V, "erase")
    def vector_erase(C):
        ex, st = C.ex, C.st
        v, pos = C.args[0], C.args[1]
        if len(C.args) != 2:
            raise Unsupported("vector::erase of a range")
        n = vlen(C, v)
        t = T(C)
        at = pos.idxs[-1]
        ex.oblige(st, "erase: position inside the vector", z3.And(zi(at) >= 0, zi(at) < zi(n)))
        cty = scalar_elem(ex, t)
        dp = buf(ex, v, 0, t)
        dk = (dp.root, dp.steps, dp.off, cty)
        dst = ex.mat_in(st.mem, st.rules, dk, st)
        oldb = seln(dst, dp.idxs[:-1])
        newb = ex.fresh("ers", oldb.sort())
        q = z3.Int("q!e")
        st.assume(z3.ForAll([q], z3.Select(newb, q) == z3.If(q < zi(at), z3.Select(oldb, q), z3.Select(oldb, q + 1)), patterns=[z3.Select(newb, q)]))
        st.mem[dk] = ston(dst, dp.idxs[:-1], newb)
        setlen(C, v, ex.iadd(n, -1) if isinstance(n, int) else zi(n) - 1)
        return pos

    @R.on(V, "assign")
    def vector_assign(C):
        ex, st = C.ex, C.st
        v, n = C.args[0], C.args[1]
        if len(C.args) != 3 or isinstance(n, Ptr):
            raise Unsupported("vector::assign form")
        t = T(C)
        ex.region_event(st, ("fill", buf(ex, v, 0, t), ex.m.size(t), C.args[2], (dict(st.mem), st.rules), 0, None))
        setlen(C, v, n)
        return None

    @R.on(V, "swap")
    def vector_swap(C):
        ex, st = C.ex, C.st
        a, b = C.args
        swap_region(ex, st, a, b, 24)

    # pointers to vector elements behave as iterators
    # ---------------------------------------------------------------- valarray
    VA = "std::valarray"

    @R.on(VA, "#ctor", "operator=")
    def valarray_ctor(C):
        ex, st = C.ex, C.st
        v = C.args[0]
        par = C.m[4]
        t = T(C)
        ret = v if C.m[2] == "operator=" else None
        if len(C.args) == 1:
            setlen(C, v, 0)
            return ret
        if par.startswith("(std::valarray<"):
            ex.copy_region(st, v, C.args[1], 16)
            return ret
        if len(C.args) == 3:
            setlen(C, v, C.args[2])
            ex.region_event(st, ("fill", buf(ex, v, 0, t), ex.m.size(t), C.args[1], (dict(st.mem), st.rules), 0, None))
            return ret
        raise Unsupported("valarray ctor " + par)

    @R.on(VA, "#dtor")
    def valarray_dtor(C):
        return None

    @R.on(VA, "size")
    def valarray_size(C):
        return vlen(C, C.args[0])

    @R.on(VA, "operator[]")
    def valarray_index(C):
        v, i = C.args
        c = ilt(i, vlen(C, v))
        if c is not True:
            C.ex.oblige(C.st, "index in bounds: valarray::operator[] in " + short(C), c, "safety")
            C.st.assume(c)
        return buf(C.ex, v, i, T(C))

    @R.on(VA, "swap")
    def valarray_swap(C):
        swap_region(C.ex, C.st, C.args[0], C.args[1], 16)

    # ---------------------------------------------------------------- set / map
    def keyval(C, p, Tn=None):
        t = elem_type(C.ex, Tn or C.m[1][0])
        rt = C.ex.m.res(t)
        if rt.k != "int":
            raise Unsupported("associative container with non-integer key")
        return C.ex.read(C.st, C.ex.canon(C.st, p, None), C.ex.cty(rt))

    def dom(C, s=None):
        return C.ex.read(C.st, s or C.args[0], "dom")

    def it_of(C, s, i):
        ex = C.ex
        if C.m[0] == "std::set":
            t = elem_type(ex, C.m[1][0])
            return s.step("it", i, ex.m.size(t), ex.tyname(t))
        return s.step("mit", i, 1, "")

    def add_key(C, s, d, x):
        st = C.st
        d2 = ins(d, zi(x))
        st.assume(mem(d2, zi(x)))
        c = card_of(st, d)
        c2 = card(d2)
        st.assume(c2 == c + z3.If(mem(d, zi(x)), z3.IntVal(0), z3.IntVal(1)))
        st.assume(c2 < (1 << 60))
        C.ex.write(st, s, "dom", d2)
        return d2

    for S in ("std::set", "std::map"):
        SZ = 48

        @R.on(S, "#ctor", "operator=")
        def assoc_ctor(C):
            a = C.args
            ret = a[0] if C.m[2] == "operator=" else None
            if len(a) == 1:
                C.ex.write(C.st, a[0], "dom", EMPTY)
                return ret
            if C.m[4].startswith("(" + C.m[0] + "<"):
                if not same(a[0], a[1]):
                    C.ex.copy_region(C.st, a[0], a[1], 48)
                    if "&&" in C.m[4]:
                        C.ex.write(C.st, a[1], "dom", EMPTY)
                return ret
            raise Unsupported("associative container constructor " + C.m[4])

        @R.on(S, "#dtor")
        def assoc_dtor(C):
            return None

        @R.on(S, "size")
        def assoc_size(C):
            return card_of(C.st, dom(C))

        @R.on(S, "empty")
        def assoc_empty(C):
            return card_of(C.st, dom(C)) == 0

        @R.on(S, "clear")
        def assoc_clear(C):
            C.ex.write(C.st, C.args[0], "dom", EMPTY)

        @R.on(S, "begin", "cbegin")
        def assoc_begin(C):
            d = dom(C)
            e = enum_facts(C.st, d)
            p = it_of(C, C.args[0], 0)
            if C.m[0] == "std::set":
                t = elem_type(C.ex, C.m[1][0])
                k = (p.root, p.steps, 0, C.ex.cty(C.ex.m.res(t)))
                old = C.ex.mat_in(C.st.mem, C.st.rules, k, C.st)
                C.st.mem[k] = ston(old, p.idxs[:-1], e)
            return p

        @R.on(S, "end", "cend")
        def assoc_end(C):
            return it_of(C, C.args[0], card_of(C.st, dom(C)))

        @R.on(S, "count")
        def assoc_count(C):
            return z3.If(mem(dom(C), zi(keyval(C, C.args[1]))), z3.IntVal(1), z3.IntVal(0))

    @R.on("std::set", "insert")
    def set_insert(C):
        s, p = C.args[0], C.args[1]
        if len(C.args) != 2:
            raise Unsupported("set::insert form")
        d = dom(C)
        x = keyval(C, p)
        add_key(C, s, d, x)
        isnew = z3.Not(mem(d, zi(x)))
        return Agg([it_of(C, s, C.ex.fresh("pos")), C.ex.b2i(isnew)])

    for S in ("std::_Rb_tree_const_iterator", "std::_Rb_tree_iterator"):
        @R.on(S, "operator*", "operator->")
        def assoc_iter_deref(C):
            # args[0]: pointer to the iterator object holding the position
            it = C.ex.read(C.st, C.args[0], "ptr")
            r = deref_it(C.ex, C.st, it)
            if it.steps[-1][0] != "it":
                mk = re.match(r"std::pair<(unsigned long|long|unsigned int|int) const,", C.m[1][0])
                if mk:            # the key stored in the node
                    key = C.ex.load(C.st, r, ir.IntTy(64 if "long" in mk.group(1) else 32))
                    C.st.assume(zi(key) == zi(r.idxs[-1]))
            return r

        @R.on(S, "operator++")
        def assoc_iter_inc(C):
            it = C.ex.read(C.st, C.args[0], "ptr")
            C.ex.write(C.st, C.args[0], "ptr", it.withidx(C.ex.iadd(it.idxs[-1], 1)))
            return C.args[0] if len(C.args) == 1 else it

        @R.on(S, "operator--")
        def assoc_iter_dec(C):
            it = C.ex.read(C.st, C.args[0], "ptr")
            C.ex.write(C.st, C.args[0], "ptr", it.withidx(C.ex.iadd(it.idxs[-1], -1)))
            return C.args[0] if len(C.args) == 1 else it

    def deref_it(ex, st, it):
        if it.steps[-1][0] == "it":
            return it
        # map: position -> key-indexed pair
        off = it.steps[-1][1]
        base = Ptr(it.root, it.steps[:-1], it.idxs[:-1], off)
        d = ex.read(st, base, "dom")
        k = z3.Select(enum_(d), zi(it.idxs[-1]))
        return base.step("map", k, None, "")

    def pair_second(C):
        """offset of the mapped value inside the node pair"""
        ex = C.ex
        kt = ex.m.size(elem_type(ex, C.m[1][0]))
        vt = elem_type(ex, C.m[1][1])
        al = ex.m.align(vt)
        return (kt + al - 1) // al * al, vt

    @R.on("std::map", "operator[]")
    def map_index(C):
        ex, st = C.ex, C.st
        s, p = C.args
        d = dom(C)
        x = keyval(C, p)
        so, vt = pair_second(C)
        q = s.step("map", x, None, "").add(so)
        outs = []
        present = mem(d, zi(x))
        s1 = st.clone()
        s1.assume(present)
        if ex.feasible(s1):
            outs.append(Outcome(s1, q))
        st.assume(z3.Not(present))
        if ex.feasible(st):
            add_key(C, s, d, x)
            R.default_construct(C, q, vt, C.m[1][1])
            outs.append(Outcome(st, q))
        return outs

    @R.on("std::map", "at")
    def map_at(C):
        ex, st = C.ex, C.st
        s, p = C.args
        d = dom(C)
        x = keyval(C, p)
        so, vt = pair_second(C)
        return bounded_access(C, mem(d, zi(x)), lambda s_: s.step("map", x, None, "").add(so))

    @R.on("std::map", "insert")
    def map_insert(C):
        ex, st = C.ex, C.st
        s, p = C.args[0], C.args[1]
        if len(C.args) != 2 or "std::pair<" not in C.m[4] + C.m[3]:
            raise Unsupported("map::insert form")
        d = dom(C)
        x = keyval(C, p)
        so, vt = pair_second(C)
        q = s.step("map", x, None, "").add(so)
        outs = []
        present = mem(d, zi(x))
        it = it_of(C, s, ex.fresh("pos"))
        s1 = st.clone()
        s1.assume(present)
        if ex.feasible(s1):
            outs.append(Outcome(s1, Agg([it, 0])))
        st.assume(z3.Not(present))
        if ex.feasible(st):
            rv = ex.m.res(vt)
            if rv.k == "int":
                ex.store(st, q, vt, ex.load(st, p.add(so), vt))
            else:
                ex.copy_region(st, q, p.add(so), ex.m.size(vt))
            add_key(C, s, d, x)
            outs.append(Outcome(st, Agg([it, 1])))
        return outs

    # ---------------------------------------------------------------- exceptions & opaque library objects
    E = ["std::runtime_error", "std::out_of_range", "std::logic_error", "std::invalid_argument", "std::exception"]
    for e in E:
        @R.on(e, "#ctor", "#dtor", "operator=")
        def exception_object(C):
            return None

    for s in ("std::basic_string", "std::basic_stringstream", "std::basic_ostringstream", "std::basic_istringstream", "std::allocator", "std::__new_allocator"):
        @R.on(s, "#ctor", "#dtor")
        def opaque_object(C):
            return None

    @R.on("std::basic_stringstream", "str")
    def stringstream_str(C):
        return None

    @R.on("std", "to_string")
    @R.on("std::__cxx11", "to_string")
    def to_string(C):
        return None

    @R.on("std", "operator+")
    def string_concat(C):
        if "basic_string" not in C.dem:
            raise Unsupported(C.dem)
        return None

    @R.on("std", "operator<<")
    def ostream_insert(C):
        return C.args[0]

    @R.on("std::ostream", "operator<<")
    def ostream_insert_m(C):
        return C.args[0]

    @R.on("", "__cxa_allocate_exception")
    def cxa_allocate_exception(C):
        return Ptr("exc%d" % next(C.ex.cnt))

    @R.on("", "__cxa_free_exception", "__cxa_end_catch")
    def cxa_free_exception(C):
        return None

    @R.on("", "__cxa_begin_catch")
    def cxa_begin_catch(C):
        return C.args[0]

    @R.on("", "__cxa_throw")
    def cxa_throw(C):
        ti = C.args[1]
        return [Outcome(C.st, None, throws=ti.root[1:])]

    @R.on("", "__cxa_rethrow")
    def cxa_rethrow(C):
        return [Outcome(C.st, None, throws=C.st.exc)]

    @R.on("", "__clang_call_terminate")
    def call_terminate(C):
        C.ex.oblige(C.st, "std::terminate not reached", False)
        return []

    @R.on("std", "__throw_out_of_range_fmt", "__throw_out_of_range", "__throw_length_error", "__throw_logic_error", "__throw_bad_alloc", "__throw_bad_array_new_length", "__throw_bad_function_call", "__throw_runtime_error")
    def std_throw(C):
        return [Outcome(C.st, None, throws="_ZTISt12out_of_range")]

    @R.on("", "__cxa_guard_acquire")
    def guard_acquire(C):
        k = "guard:%s" % C.args[0].root
        if C.st.ghost.get(k) is not None:
            return 0
        C.st.ghost[k] = z3.BoolVal(True)
        return 1

    @R.on("", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_atexit")
    def guard_release(C):
        return 0

    # ---------------------------------------------------------------- math
    @R.on("", "sqrt")
    @R.on("std", "sqrt")
    def math_sqrt(C):
        return real_sqrt(C.ex, C.st, C.args[0])

    @R.on("", "fabs")
    @R.on("std", "abs")
    def math_abs(C):
        x = C.args[0]
        if C.f.ret.k == "int":
            n = C.f.ret.n
            s = C.ex.to_signed(C.st, x, n)
            if isinstance(s, int):
                return abs(s)
            return z3.If(s >= 0, s, -s)
        if C.ex.fmode != "real":
            return z3.Function("fabs", C.ex.F, C.ex.F)(C.ex.flit(x))
        if not is_sym(x):
            return abs(x)
        return z3.If(x >= 0, x, -x)


sqrtF = z3.Function("sqrt", z3.RealSort(), z3.RealSort())


def real_sqrt(ex, st, x):
    if ex.fmode != "real":
        return z3.Function("fsqrt", ex.F, ex.F)(ex.flit(x))
    x = ex.flit(x)
    x = z3.simplify(x)
    r = sqrtF(x)
    st.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    st.assume(z3.Implies(x > 0, r > 0))
    return r


def adopt(st, s2):
    """continue st as s2 (same frames)"""
    st.mem, st.rules, st.pc, st.pcs, st.ghost, st.roots = s2.mem, s2.rules, s2.pc, s2.pcs, s2.ghost, s2.roots


def grow(C, n, k):
    pass


def moved_from(C, p, t):
    pass


def swap_region(ex, st, a, b, size):
    r = "a%d.swap" % next(ex.cnt)
    st.roots[r] = None
    tmp = Ptr(r)
    ex.copy_region(st, tmp, a, size)
    ex.copy_region(st, a, b, size)
    ex.copy_region(st, b, tmp, size)
    ex.kill_root(st, [r])


def short(C):
    f = C.st.frames[-1].fn.dem
    s, m, t, p = split_dem(f)
    return (targs_of(s)[0] + "::" if s else "") + m


def bounded_access(C, cond, mk):
    """container.at(): in range -> reference, else throws std::out_of_range"""
    ex, st = C.ex, C.st
    if cond is True:
        return mk(st)
    if cond is False:
        return [Outcome(st, None, throws="_ZTISt12out_of_range")]
    s2 = st.clone()
    s2.assume(z3.Not(cond))
    outs = []
    if ex.feasible(s2):
        st.assume(cond)
        if ex.feasible(st):
            outs.append(Outcome(st, mk(st)))
        outs.append(Outcome(s2, None, throws="_ZTISt12out_of_range"))
        return outs
    st.assume(cond)
    return [Outcome(st, mk(st))]
