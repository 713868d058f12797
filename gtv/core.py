"""Symbolic values, access-path memory and states for the deductive verifier.

Memory model (stated in DESIGN.md): C++ objects with value semantics form
ownership trees.  A pointer is (root object, static access path, symbolic
indices, constant byte offset).  Every scalar field of every container level is
one (nested) array; so two pointers alias exactly when their path is equal and
their indices are equal.  A std container's elements live under the access path
of the container object itself."""
import z3
from fractions import Fraction
from . import ir

INT = z3.IntSort()
BOOL = z3.BoolSort()
SetSort = z3.DeclareSort("IntSet")


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ("root", "steps", "idxs", "off")

    def __init__(self, root, steps=(), idxs=(), off=0):
        self.root, self.steps, self.idxs, self.off = root, steps, idxs, off

    def add(self, n):
        return Ptr(self.root, self.steps, self.idxs, self.off + n)

    def step(self, kind, idx, stride, tyname):
        return Ptr(self.root, self.steps + ((kind, self.off, stride, tyname),), self.idxs + (idx,), 0)

    def withidx(self, i):
        return Ptr(self.root, self.steps, self.idxs[:-1] + (i,), self.off)

    def __repr__(self):
        if self.root is None:
            return "null"
        return "&%s%s+%d" % (self.root, "".join("/%s@%d[%s]" % (s[0], s[1], i) for s, i in zip(self.steps, self.idxs)), self.off)


NULL = Ptr(None)


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "fn:" + self.name


class PInt:
    """ptrtoint value"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class Agg:
    """first-class aggregate"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = list(v)

    def __repr__(self):
        return "Agg%r" % (self.v,)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def same(a, b):
    """syntactic equality of index expressions / values"""
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if is_sym(a) or is_sym(b):
        return False
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.root == b.root and a.steps == b.steps and a.off == b.off and all(same(x, y) for x, y in zip(a.idxs, b.idxs))
    if isinstance(a, Fn) and isinstance(b, Fn):
        return a.name == b.name
    if isinstance(a, Agg) and isinstance(b, Agg):
        return len(a.v) == len(b.v) and all(same(x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, PInt) and isinstance(b, PInt):
        return same(a.p, b.p)
    if isinstance(a, (Ptr, Fn, Agg, PInt, Undef)) or isinstance(b, (Ptr, Fn, Agg, PInt, Undef)):
        return False
    return a == b


def zi(x):
    """to z3 Int"""
    if is_sym(x):
        return x
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    raise Unsupported("int expected: %r" % (x,))


def zb(x):
    if is_sym(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    raise Unsupported("bool expected: %r" % (x,))


def sel(arr, i):
    """select with store-forwarding"""
    i_c = i if isinstance(i, int) else (i.as_long() if z3.is_int_value(i) else None)
    a = arr
    while True:
        if z3.is_store(a):
            j = a.arg(1)
            if same(j, zi(i)):
                return a.arg(2)
            if i_c is not None and z3.is_int_value(j) and j.as_long() != i_c:
                a = a.arg(0)
                continue
            d = z3.simplify(zi(i) - j)
            if z3.is_int_value(d):
                if d.as_long() == 0:
                    return a.arg(2)
                a = a.arg(0)
                continue
        elif z3.is_K(a):
            return a.arg(0)
        break
    return z3.Select(a, zi(i))


def sto(arr, i, v):
    if z3.is_store(arr) and same(arr.arg(1), zi(i)):
        arr = arr.arg(0)
    return z3.Store(arr, zi(i), v)


def seln(a, idxs):
    for i in idxs:
        a = sel(a, i)
    return a


def ston(a, idxs, v):
    if not idxs:
        return v
    return sto(a, idxs[0], ston(sel(a, idxs[0]), idxs[1:], v))


class State:
    __slots__ = ("mem", "rules", "pc", "frames", "ghost", "loops", "exc", "roots", "note", "trace", "pcs")

    def __init__(self):
        self.mem = {}
        self.rules = ()
        self.pc = []
        self.pcs = set()
        self.frames = []
        self.ghost = {}
        self.loops = []
        self.exc = None
        self.roots = {}     # root -> Ty or None
        self.note = ()
        self.trace = ()

    def clone(self):
        s = State()
        s.mem = dict(self.mem)
        s.rules = self.rules
        s.pc = list(self.pc)
        s.pcs = set(self.pcs)
        s.frames = [f.clone() for f in self.frames]
        s.ghost = dict(self.ghost)
        s.loops = list(self.loops)
        s.exc = self.exc
        s.roots = dict(self.roots)
        s.note = self.note
        s.trace = self.trace
        return s

    def assume(self, f):
        if isinstance(f, bool):
            if f:
                return
            f = z3.BoolVal(False)
        if z3.is_true(f):
            return
        i = f.get_id()
        if i in self.pcs:
            return
        self.pcs.add(i)
        self.pc.append(f)


class Frame:
    __slots__ = ("fn", "bb", "ip", "env", "prev", "roots", "dst", "inv", "rty", "cont", "site")

    def __init__(self, fn):
        self.fn = fn
        self.bb = None
        self.ip = 0
        self.env = {}
        self.prev = None
        self.roots = []
        self.dst = None       # dst SSA name in the caller
        self.inv = None       # (normal, unwind) labels when called by invoke
        self.rty = None
        self.cont = None      # python continuation run instead of plain return
        self.site = ""

    def clone(self):
        f = Frame(self.fn)
        f.bb, f.ip, f.env, f.prev = self.bb, self.ip, dict(self.env), self.prev
        f.roots = list(self.roots)
        f.dst, f.inv, f.rty, f.cont, f.site = self.dst, self.inv, self.rty, self.cont, self.site
        return f
