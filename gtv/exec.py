"""Symbolic executor / VC generator over LLVM IR with loop cutting."""
import re, time, itertools
import z3
from fractions import Fraction
from . import ir
from .core import *

M64 = 1 << 64
import os
DEBUG = int(os.environ.get('GTV_DEBUG', '0'))


class Outcome:
    def __init__(self, st, val=None, throws=None):
        self.st, self.val, self.throws = st, val, throws


class Obligation:
    __slots__ = ("name", "pc", "goal", "kind", "note", "smt", "result", "solver", "time", "model")

    def __init__(self, name, pc, goal, kind="vc", note=""):
        self.name, self.pc, self.goal, self.kind, self.note = name, pc, goal, kind, note
        self.smt = None
        self.result = None
        self.solver = None
        self.time = 0
        self.model = None


class LoopCtx:
    def __init__(self, header, depth, blocks, fn):
        self.header, self.depth, self.blocks, self.fn = header, depth, blocks, fn
        self.mode = "unroll"
        self.count = 0
        self.k = None
        self.parent = None
        self.name = ""
        self.entry = None
        self.on_back = None
        self.spec = None

    def __repr__(self):
        return "<loop %s %s@%s %s>" % (self.name, self.header, self.fn.dem[:40], self.mode)


from .raw import Raw


class ProbeDone(Exception):
    def __init__(self, const):
        self.const = const


class Exec(Raw):
    def __init__(self, mod, spec, contracts, fmode="real", quick_ms=1500):
        self.m = mod
        self.spec = spec
        self.probe = None
        self.contracts = contracts          # list of (compiled regex, handler)
        self.ccache = {}
        self.fmode = fmode
        self.ptr_targets = {}      # "@global" -> (element size, element type): what its leading pointer refers to
        self.obls = []
        self.checking = True
        self.cnt = itertools.count()
        self.loopnames = {}
        self.fns_entered = set()
        self.contracts_used = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", quick_ms)
        self.solver.set("smt.mbqi", False)
        self.spc = []
        self.nq = 0
        self.tq = 0.0
        self.sorts = {}
        self.maxunroll = 70
        self.wcache = {}
        self.covers = []
        self.steps = 0
        self.deadline = None
        self.facts_used = set()
        self.prov = {}
        self.discovering = 0
        if fmode == "real":
            self.F = z3.RealSort()
        else:
            self.F = z3.DeclareSort("Flt")

    # ------------------------------------------------------------ fresh
    def fresh(self, base, sort=INT):
        return z3.Const("%s!%d" % (base, next(self.cnt)), sort)

    def fresh_int(self, st, base, n=64):
        v = self.fresh(base)
        st.assume(v >= 0)
        st.assume(v < (1 << n))
        return v

    def sort_of(self, ty):
        if ty.startswith("i") and ty[1:].isdigit():
            return BOOL if ty == "i1" else INT
        if ty in ("f64", "f32", "f80"):
            return self.F
        if ty in ("len", "size"):
            return INT
        if ty == "dom":
            return SetSort
        if ty in self.sorts:
            return self.sorts[ty]
        raise Unsupported("sort of cell %s" % ty)

    # ------------------------------------------------------------ solver
    def _sync(self, st):
        pc = st.pc
        n = 0
        m = min(len(pc), len(self.spc))
        while n < m and pc[n] is self.spc[n]:
            n += 1
        k = len(self.spc) - n
        if k:
            self.solver.pop(k)
            del self.spc[n:]
        for f in pc[n:]:
            self.solver.push()
            self.solver.add(f)
            self.spc.append(f)

    def _sync_ground(self, st):
        """the same for the solver which knows the premises without quantifiers only"""
        from . import vc
        if not hasattr(self, "gsolver"):
            self.gsolver, self.gspc, self.isq = z3.Solver(), [], {}
            self.gsolver.set("timeout", 1500)
        pc = st.pc
        n = 0
        m = min(len(pc), len(self.gspc))
        while n < m and pc[n] is self.gspc[n]:
            n += 1
        k = len(self.gspc) - n
        if k:
            self.gsolver.pop(k)
            del self.gspc[n:]
        for f in pc[n:]:
            self.gsolver.push()
            q = self.isq.get(f.get_id())
            if q is None:
                q = self.isq[f.get_id()] = (vc.has_quant(f), f)
            if not q[0]:
                self.gsolver.add(f)
            self.gspc.append(f)

    def prove(self, st, goal):
        """quick entailment test used only for pruning / simplification"""
        if isinstance(goal, bool):
            if goal:
                return True
            goal = z3.BoolVal(False)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        self._sync(st)
        self.nq += 1
        t = time.time()
        self.solver.push()
        self.solver.add(z3.Not(goal))
        r = self.solver.check()
        self.solver.pop()
        self.tq += time.time() - t
        return r == z3.unsat

    def prove_strong(self, st, goal, ms=3000):
        """entailment with a fresh (non-incremental) solver as second attempt"""
        if isinstance(goal, bool):
            return goal or self.prove(st, goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        from . import vc
        if not vc.has_quant(goal) and self.prove(st, goal):
            return True
        t = time.time()
        try:
            return vc.quick(st.pc, goal, ms)
        finally:
            self.tq += time.time() - t

    def feasible(self, st):
        if not self.checking and getattr(self.spec, "ground_discover", False):
            # while looking for write sets and candidates: fewer premises only mean more paths
            self._sync_ground(st)
            t = time.time()
            r = self.gsolver.check()
            self.tq += time.time() - t
            return r != z3.unsat
        self._sync(st)
        self.nq += 1
        t = time.time()
        r = self.solver.check()
        self.tq += time.time() - t
        return r != z3.unsat

    # ------------------------------------------------------------ obligations
    def oblige(self, st, name, goal, kind="vc", note=""):
        if not self.checking:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        ctx = "/".join(l.name for l in st.loops if l.mode == "verify")
        nm = name + ((" @loop " + ctx) if ctx else "")
        self.obls.append(Obligation(nm, list(st.pc), goal, kind, note))

    # ------------------------------------------------------------ types
    def tyobj(self, name):
        t = self._tyc.get(name) if hasattr(self, "_tyc") else None
        if t is None:
            if not hasattr(self, "_tyc"):
                self._tyc = {}
            t = ir.P(self.m, ir.tokenize(name)).type()
            self._tyc[name] = t
        return t

    def tyname(self, t):
        if t.k == "named":
            nm = t.a
            s = '%"' + nm + '"'
        else:
            s = self._tystr(t)
        return s

    def _tystr(self, t):
        if t.k == "int":
            return "i%d" % t.n
        if t.k == "f64":
            return "double"
        if t.k == "f32":
            return "float"
        if t.k == "f80":
            return "x86_fp80"
        if t.k == "named":
            return '%"' + t.a + '"'
        if t.k == "arr":
            return "[%d x %s]" % (t.n, self._tystr(t.a))
        if t.k == "struct":
            return "{" + ", ".join(self._tystr(x) for x in t.a) + "}"
        return t.k

    def pointee(self, st, p):
        """LLVM type of the object at the start of the last step"""
        if p.steps:
            n = p.steps[-1][3]
            return self.tyobj(n) if n else None
        return st.roots.get(p.root)

    def canon(self, st, p, ty):
        """normalise array members reached through constant byte offsets"""
        t = self.pointee(st, p)
        if t is None:
            return p
        off = p.off
        base = 0
        guard = 0
        while guard < 40:
            guard += 1
            try:
                t = self.m.res(t)
            except ir.IRError:
                return p
            if t.k == "struct":
                offs = self.m.offsets(t)
                hit = None
                for o, ft in zip(offs, t.a):
                    if o <= off < o + max(1, self.m.size(ft)):
                        # skip empty-base padding structs [i8]
                        if hit is None or o >= hit[0]:
                            if self.m.size(ft) > 0:
                                hit = (o, ft)
                if hit is None:
                    return p
                base += hit[0]
                off -= hit[0]
                t = hit[1]
                continue
            if t.k == "arr":
                es = self.m.size(t.a)
                if es == 0:
                    return p
                q = Ptr(p.root, p.steps, p.idxs, base).step("arr", off // es, es, self.tyname(t.a))
                q.off = off % es
                return self.canon(st, q, ty)
            return p
        return p

    # ------------------------------------------------------------ memory
    @staticmethod
    def _affects(rp, size, root, steps, off):
        if rp.root != root:
            return False
        n = len(rp.steps)
        if len(steps) < n or steps[:n] != rp.steps:
            return False
        o = off if len(steps) == n else steps[n][1]
        return rp.off <= o < rp.off + size

    def initial(self, st, key):
        root, steps, off, ty = key[:4]
        if root and root.startswith("@"):
            v = self.global_init(root[1:], steps, off, ty)
            if v is not None:
                return v
        s = self.sort_of(ty)
        for _ in steps:
            s = z3.ArraySort(INT, s)
        nm = "%s%s.%d.%s" % (root.replace("@", "G."), "".join("/%s%d" % (x[0], x[1]) for x in steps), off, ty)
        return z3.Const(nm, s)

    def global_init(self, g, steps, off, ty):
        ent = self.m.globals.get(g)
        if ent is None or ent[1] is None or not ent[2]:
            return None
        t, init, const = ent
        return self._gv(t, init, off, steps, ty)

    def _gv(self, t, init, off, steps, ty):
        t = self.m.res(t)
        if t.k == "struct":
            offs = self.m.offsets(t)
            for i, (o, ft) in enumerate(zip(offs, t.a)):
                target = steps[0][1] if steps else off
                if o <= target < o + self.m.size(ft):
                    sub = ("zero", ft) if init[0] == "zero" else init[1][i][1]
                    if steps:
                        st2 = ((steps[0][0], steps[0][1] - o) + steps[0][2:],) + steps[1:]
                        return self._gv(ft, sub, off, st2, ty)
                    return self._gv(ft, sub, off - o, (), ty)
            return None
        if t.k == "arr":
            if not steps or steps[0][0] != "arr" or steps[0][1] != 0:
                return None
            s = self.sort_of(ty)
            for _ in steps[1:]:
                s = z3.ArraySort(INT, s)
            vals = []
            for i in range(t.n):
                sub = ("zero", t.a) if init[0] == "zero" else init[1][i][1]
                v = self._gv(t.a, sub, off, steps[1:], ty)
                if v is None:
                    return None
                vals.append(v)
            arr = z3.K(INT, self.lift(vals[0], s) if vals else None)
            for i, v in enumerate(vals):
                arr = z3.Store(arr, i, self.lift(v, s))
            return arr
        if steps or off:
            return None
        if init[0] == "zero":
            if t.k == "ptr":
                return NULL
            return Fraction(0) if t.k in ("f64", "f32") else 0
        if init[0] == "c":
            return init[1]
        if init[0] == "g":
            return self.gptr(init[1])
        if init[0] == "null":
            return NULL
        return None

    def gptr(self, name):
        if name in self.m.aliases and self.m.aliases[name]:
            name = self.m.aliases[name]
        if name in self.m.funcs or name in self.m.decls:
            return Fn(name)
        return Ptr("@" + name)

    def lift(self, v, sort):
        """python value -> z3 value of the sort"""
        if is_sym(v):
            return v
        if sort == INT:
            return zi(v)
        if sort == BOOL:
            return zb(v)
        if sort == self.F:
            return self.flit(v)
        if isinstance(v, (int, bool)) and isinstance(sort, z3.ArraySortRef):
            # zero-fill
            return z3.K(INT, self.lift(v, sort.range()))
        raise Unsupported("lift %r to %s" % (v, sort))

    def flit(self, v):
        if is_sym(v):
            return v
        if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
            if self.fmode == "real":
                return z3.RealVal(Fraction(v))
            return z3.Const("flit_%s" % str(Fraction(v)), self.F)
        raise Unsupported("float literal %r" % (v,))

    def mat_in(self, mem, rules, key, st):
        v = mem.get(key)
        if v is not None:
            return v
        if key[3] == "ptr":
            return self.mat_ptr(mem, rules, key, st)
        v = self.initial(st, key)
        root, steps, off, ty = key
        for r in rules:
            if self._affects(r[1], r[2], root, steps, off):
                v = self.apply_rule(r, key, v, st)
        mem[key] = v
        return v

    def mat_ptr(self, mem, rules, key, st):
        root, steps, off, ty, idxs = key
        for r in reversed(rules):
            if self._affects(r[1], r[2], root, steps, off):
                if r[0] == "zero":
                    return NULL
                if r[0] == "havoc":
                    raise Unsupported("pointer cell havoced in loop")
                if r[0] == "copy":
                    d, size, s = r[1], r[2], r[3]
                    n = len(d.steps)
                    ok = True
                    for a, b in zip(idxs[:n], d.idxs):
                        if same(a, b):
                            continue
                        if is_sym(a) or is_sym(b):
                            raise Unsupported("symbolic pointer cell index")
                        ok = False
                    if not ok:
                        continue
                    k2 = self.rekey(key, d, s)
                    k2 = k2[:4] + (tuple(s.idxs) + tuple(idxs[n:]),)
                    snap = r[4]
                    v = snap[0].get(k2)
                    if v is None:
                        v = self.mat_ptr(snap[0], snap[1], k2, st)
                    return v
        if root and root.startswith("@"):
            v = self.global_init_ptr(root[1:], steps, off, idxs)
            if v is not None:
                return v
            if root in self.ptr_targets and off == 0 and not steps:
                sz, tn = self.ptr_targets[root]
                return Ptr(root + ".target").step("buf", 0, sz, tn)
        raise Unsupported("uninitialised pointer cell %r" % (key,))

    def global_init_ptr(self, g, steps, off, idxs):
        ent = self.m.globals.get(g)
        if ent is None or ent[1] is None:
            return None
        t, init, const = ent
        t = self.m.res(t)
        o = off
        i = 0
        todo = list(zip(steps, idxs))
        cur = todo[0][0][1] if todo else off
        while True:
            t = self.m.res(t)
            if t.k == "struct":
                for j, (fo, ft) in enumerate(zip(self.m.offsets(t), t.a)):
                    if fo <= cur < fo + self.m.size(ft):
                        init = ("zero", ft) if init[0] == "zero" else init[1][j][1]
                        t = ft
                        cur -= fo
                        break
                else:
                    return None
            elif t.k == "arr":
                if todo:
                    (s, ix) = todo.pop(0)
                    if is_sym(ix):
                        return None
                    cur = todo[0][0][1] if todo else off
                else:
                    es = self.m.size(t.a)
                    ix = cur // es
                    cur = cur % es
                init = ("zero", t.a) if init[0] == "zero" else init[1][ix][1]
                t = t.a
            else:
                break
        return self.cval(init, t)

    @staticmethod
    def rekey(key, d, s):
        n = len(d.steps)
        root, steps, off, ty = key[:4]
        if len(steps) == n:
            return (s.root, s.steps, off - d.off + s.off, ty)
        f = steps[n]
        return (s.root, s.steps + ((f[0], f[1] - d.off + s.off) + f[2:],) + steps[n + 1:], off, ty)

    def apply_rule(self, r, key, old, st):
        kind = r[0]
        d = r[1]
        n = len(d.steps)
        root, steps, off, ty = key
        s = self.sort_of(ty)
        for _ in steps[n:]:
            s = z3.ArraySort(INT, s)
        if kind == "zero":
            if ty == "dom":
                raise Unsupported("zero-fill of container")
            new = self.zero_of(s)
        elif kind == "havoc":
            s2 = s
            for _ in range(n):
                s2 = z3.ArraySort(INT, s2)
            return z3.Const("hv%s.%s%s.%d.%s" % (r[3], root.replace("@", "G."), "".join("/%s%d" % (x[0], x[1]) for x in steps), off, ty), s2)
        elif kind == "copy":
            src, snap = r[3], r[4]
            k2 = self.rekey(key, d, src)
            sv = self.mat_in(snap[0], snap[1], k2, st)
            new = seln(sv, src.idxs) if src.idxs else sv
        elif kind == "fill":
            # vector elements [lo,hi) all equal to the object at src
            src, snap, lo, hi = r[3], r[4], r[5], r[6]
            return self.fill_value(key, old, d, src, snap, lo, hi, st)
        else:
            raise Unsupported(kind)
        if n == 0:
            return new
        if not is_sym(old):
            raise Unsupported("scalar with index")
        return ston(old, d.idxs, self.lift(new, s))

    def fill_value(self, key, old, d, src, snap, lo, hi, st):
        """d: pointer to buf step with (ignored) last index; elements lo<=i<hi := *src"""
        n = len(d.steps)
        k2 = self.rekey(key, d, src)
        sv = self.mat_in(snap[0], snap[1], k2, st)
        sv = seln(sv, src.idxs)
        outer = d.idxs[:-1]
        oldb = seln(old, outer)
        rng = oldb.sort().range()
        sv = self.lift(sv, rng)
        if not is_sym(lo) and lo == 0 and hi is None:
            newb = z3.K(INT, sv)
        else:
            newb = self.fresh("fill", oldb.sort())
            i = z3.Int("i!q")
            cond = i >= zi(lo)
            if hi is not None:
                cond = z3.And(cond, i < zi(hi))
            st.assume(z3.ForAll([i], z3.Select(newb, i) == z3.If(cond, sv, z3.Select(oldb, i)), patterns=[z3.Select(newb, i)]))
        return ston(old, outer, newb)

    def zero_of(self, s):
        if s == INT:
            return 0
        if s == BOOL:
            return False
        if s == self.F:
            return Fraction(0)
        if isinstance(s, z3.ArraySortRef):
            return z3.K(INT, self.lift(self.zero_of(s.range()), s.range()))
        raise Unsupported("zero of %s" % s)

    def key(self, p, ty):
        if ty == "ptr":
            return (p.root, p.steps, p.off, "ptr", tuple(p.idxs))
        return (p.root, p.steps, p.off, ty)

    def read(self, st, p, ty):
        if p.root is None:
            raise Unsupported("null dereference")
        if ty == "ptr":
            k = self.key(p, ty)
            v = st.mem.get(k)
            if v is None:
                # structural index match
                for kk, vv in st.mem.items():
                    if kk[3] == "ptr" and kk[:3] == k[:3] and all(same(a, b) for a, b in zip(kk[4], k[4])):
                        return vv
                v = self.mat_ptr(st.mem, st.rules, k, st)
                st.mem[k] = v
            return v
        k = self.key(p, ty)
        v = st.mem.get(k)
        if v is None:
            v = self.mat_in(st.mem, st.rules, k, st)
        v = seln(v, p.idxs)
        if is_sym(v) and ty[0] == "i" and ty != "i1" and not z3.is_int_value(v):
            n = int(ty[1:])
            if not self._ranged(v, n):
                st.assume(z3.And(v >= 0, v < (1 << n)))
        elif ty in ("len", "size") and is_sym(v):
            st.assume(z3.And(v >= 0, v < (1 << 60)))
        return v

    def _ranged(self, v, n):
        return False

    def write(self, st, p, ty, v):
        if p.root is None:
            raise Unsupported("null store")
        k = self.key(p, ty)
        if ty == "ptr":
            if isinstance(v, (Ptr, Fn)):
                st.mem[k] = v
                return
            raise Unsupported("ptr store of %r" % (v,))
        if not p.idxs:
            st.mem[k] = v
            return
        old = st.mem.get(k)
        if old is None:
            old = self.mat_in(st.mem, st.rules, k, st)
        s = self.sort_of(ty)
        st.mem[k] = ston(old, p.idxs, self.lift(v, s))

    def region_event(self, st, rule):
        """apply a region rule eagerly to materialised cells and log it"""
        d, size = rule[1], rule[2]
        n = len(d.steps)
        for k in list(st.mem):
            if self._affects(d, size, k[0], k[1], k[2]):
                if k[3] == "ptr":
                    if rule[0] == "copy":
                        idxs = k[4]
                        hit = True
                        for a, b in zip(idxs[:n], d.idxs):
                            if not same(a, b):
                                if is_sym(a) or is_sym(b):
                                    raise Unsupported("symbolic ptr cell copy")
                                hit = False
                        if not hit:
                            continue
                    del st.mem[k]   # re-derived through the log
                    continue
                st.mem[k] = self.apply_rule(rule, k, st.mem[k], st)
        # drop older scalar rules fully overwritten (only for index-free regions)
        if n == 0:
            st.rules = tuple(r for r in st.rules if not (r[1].root == d.root and len(r[1].steps) == 0 and d.off <= r[1].off and r[1].off + r[2] <= d.off + size)) + (rule,)
        else:
            st.rules = st.rules + (rule,)

    def copy_region(self, st, d, s, size):
        if size == 0:
            return
        snap = (dict(st.mem), st.rules)
        self.region_event(st, ("copy", d, size, s, snap))
        # small vectors of floats: the copied cells exist from here on, so that loops
        # writing them only through copies still know them as changed
        if 8 <= size <= 64 and size % 8 == 0 and d.root is not None and any(k[0] == s.root and k[3] == "f64" for k in snap[0]):
            try:
                q = self.canon(st, d, "f64")
                k = self.key(q, "f64")
                if k not in st.mem:
                    st.mem[k] = self.mat_in(st.mem, st.rules, k, st)
            except Unsupported:
                pass

    def zero_region(self, st, d, size):
        self.region_event(st, ("zero", d, size))

    def kill_root(self, st, roots):
        rs = set(roots)
        if not rs:
            return
        for k in [k for k in st.mem if k[0] in rs]:
            del st.mem[k]
        if st.rules:
            st.rules = tuple(r for r in st.rules if r[1].root not in rs)
        for r in rs:
            st.roots.pop(r, None)

    # ------------------------------------------------------------ values
    def cty(self, t):
        """cell type string of an LLVM scalar type"""
        if t.k == "int":
            return "i%d" % t.n
        if t.k in ("f64", "f32", "f80", "ptr"):
            return t.k
        raise Unsupported("cell type %r" % t)

    def cval(self, v, t):
        k = v[0]
        if k == "c":
            return v[1]
        if k == "g":
            return self.gptr(v[1])
        if k == "null":
            return NULL
        if k == "undef":
            t = self.m.res(t) if t.k == "named" else t
            if t.k == "struct":
                return Agg([UNDEF] * len(t.a))
            if t.k in ("arr", "vec"):
                return Agg([UNDEF] * t.n)
            return UNDEF
        if k == "zero":
            return self.zero_val(t)
        if k == "agg":
            return Agg([self.cval(x, tt) for tt, x in v[1]])
        if k == "cgep":
            st = None
            base = self.cval(v[2][0][1], ir.PTR)
            return self.gep(None, v[1], base, [self.cval(x, tt) for tt, x in v[2][1:]])
        if k == "ccast":
            x = self.cval(v[3], v[2])
            if v[1] == "ptrtoint" and isinstance(x, Ptr):
                return PInt(x)
            if v[1] == "inttoptr":
                if isinstance(x, int):
                    return NULL if x == 0 else Ptr("#%d" % x)
            return x
        if k == "cf":
            return self.fspecial(v[1])
        raise Unsupported("const %r" % (v,))

    def fspecial(self, s):
        return z3.Const("fspecial_%s" % s, self.F)

    def zero_val(self, t):
        t = self.m.res(t)
        if t.k == "int":
            return False if t.n == 1 else 0
        if t.k in ("f64", "f32"):
            return Fraction(0)
        if t.k == "ptr":
            return NULL
        if t.k == "struct":
            return Agg([self.zero_val(x) for x in t.a])
        if t.k in ("arr", "vec"):
            return Agg([self.zero_val(t.a) for _ in range(t.n)])
        raise Unsupported("zero %r" % t)

    def val(self, st, v, t):
        if v[0] == "l":
            fr = st.frames[-1]
            try:
                return fr.env[v[1]]
            except KeyError:
                raise Unsupported("undefined SSA %s in %s" % (v[1], fr.fn.dem))
        return self.cval(v, t)

    # load/store of any LLVM type
    def load(self, st, p, t):
        if not isinstance(p, Ptr):
            raise Unsupported("load through %r" % (p,))
        t = self.m.res(t)
        if t.k == "struct":
            return Agg([self.load(st, p.add(o), ft) for o, ft in zip(self.m.offsets(t), t.a)])
        if t.k in ("arr", "vec"):
            es = self.m.size(t.a)
            return Agg([self.load(st, self.gep1(st, p, t.a, i), t.a) for i in range(t.n)])
        p = self.canon(st, p, t)
        leaf = self.leaf(st, p)
        if leaf is not None and leaf.k == "int" and t.k == "int" and leaf.n < t.n:
            # coerced load of several smaller integer fields
            tot = 0
            b = 0
            while b < t.n // 8:
                q = self.canon(st, Ptr(p.root, p.steps, p.idxs, p.off + b), None)
                lf = self.leaf(st, q)
                if lf is None or lf.k != "int":
                    b += 1
                    continue
                x = self.read(st, q, self.cty(lf))
                tot = self.addx(tot, self.mulx(x, 1 << (8 * b)))
                b += max(1, self.m.size(lf))
            return tot
        if t.k == "int" and t.n == 8:
            w = self.wide_at(st, p)
            if w is not None:
                return self.raw_byte(st, self.read(st, w[0], self.cty(w[1])), w[1], w[2])
        return self.read(st, p, self.cty(t))

    def addx(self, a, b):
        if is_sym(a) or is_sym(b):
            return zi(a) + zi(b)
        return a + b

    def mulx(self, a, b):
        if b == 1:
            return a
        if is_sym(a):
            return a * b
        return a * b

    def leaf(self, st, p):
        """LLVM scalar type located at p (if root type known)"""
        t = self.pointee(st, p)
        if t is None:
            return None
        off = p.off
        try:
            t = self.m.res(t)
            while t.k == "struct":
                for o, ft in zip(self.m.offsets(t), t.a):
                    sz = self.m.size(ft)
                    if o <= off < o + sz:
                        off -= o
                        t = self.m.res(ft)
                        break
                else:
                    return None
            if t.k in ("int", "f64", "f32", "ptr") and off == 0:
                return t
        except ir.IRError:
            return None
        return None

    def store(self, st, p, t, v):
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % (p,))
        t = self.m.res(t)
        if t.k == "struct":
            if isinstance(v, Undef):
                return
            for o, ft, x in zip(self.m.offsets(t), t.a, v.v):
                self.store(st, p.add(o), ft, x)
            return
        if t.k in ("arr", "vec"):
            if isinstance(v, Undef):
                return
            for i, x in enumerate(v.v):
                self.store(st, self.gep1(st, p, t.a, i), t.a, x)
            return
        p = self.canon(st, p, t)
        if isinstance(v, Undef):
            if t.k == "ptr":
                v = NULL
            else:
                v = self.fresh("undef", self.sort_of(self.cty(t)))
        if isinstance(v, PInt) and t.k == "int":
            if v.p.root is None:
                v = 0
            else:
                raise Unsupported("store of ptrtoint")
        leaf = self.leaf(st, p)
        if leaf is not None and leaf.k == "int" and t.k == "int" and leaf.n < t.n and t.n <= 64:
            b = 0
            rem = v
            while b < t.n // 8:
                q = self.canon(st, Ptr(p.root, p.steps, p.idxs, p.off + b), None)
                lf = self.leaf(st, q)
                if lf is None or lf.k != "int":
                    b += 1
                    continue
                sh = 1 << (8 * b)
                md = 1 << lf.n
                if is_sym(v):
                    x = z3.simplify((v / sh) % md)
                else:
                    x = (v // sh) % md
                self.write(st, q, self.cty(lf), x)
                b += max(1, self.m.size(lf))
            return
        if t.k == "int" and t.n == 8:
            w = self.wide_at(st, p)
            if w is not None:
                self.write(st, w[0], self.cty(w[1]), self.raw_put(st, self.read(st, w[0], self.cty(w[1])), w[1], w[2], v))
                return
        self.write(st, p, self.cty(t), v)

    # ------------------------------------------------------------ GEP
    def sidx(self, i, n=64):
        if isinstance(i, int) and not isinstance(i, bool):
            return i - (1 << n) if i >= (1 << (n - 1)) else i
        return i

    def gep1(self, st, p, et, i):
        """pointer arithmetic on element type"""
        i = self.sidx(i)
        if isinstance(i, int) and i == 0:
            return p
        sz = self.m.size(et)
        if p.steps and p.off == 0 and p.steps[-1][0] in ("buf", "arr", "it") and (p.steps[-1][2] == sz):
            j = p.idxs[-1]
            return p.withidx(self.iadd(j, i))
        if isinstance(i, int):
            # constant displacement; cross into array member if the pointee says so
            if st is not None and sz > 1:
                q = self.canon(st, p, et)
                if q is not p and q.steps and q.off == 0 and q.steps[-1][0] == "arr" and q.steps[-1][2] == sz and len(q.steps) == len(p.steps) + 1 and isinstance(q.idxs[-1], int) and q.idxs[-1] + i >= 0:
                    return q.withidx(q.idxs[-1] + i)
            if p.steps and p.steps[-1][0] in ("buf", "arr") and p.steps[-1][2] and sz and p.steps[-1][2] != sz:
                tot = p.off + i * sz
                S = p.steps[-1][2]
                if 0 <= tot < S:
                    return p.add(i * sz)
                if tot % S == 0 and p.off == 0:
                    return p.withidx(self.iadd(p.idxs[-1], tot // S))
            return p.add(i * sz)
        if st is not None:
            q = self.canon(st, p, et)
            if q is not p and q.steps and q.off == 0 and q.steps[-1][2] == sz:
                return q.withidx(self.iadd(q.idxs[-1], i))
        raise Unsupported("symbolic pointer arithmetic %r + %s x %d" % (p, i, sz))

    def iadd(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        if isinstance(b, int) and b == 0:
            return a
        if isinstance(a, int) and a == 0:
            return b
        return z3.simplify(zi(a) + zi(b)) if not (is_sym(a) and is_sym(b)) else zi(a) + zi(b)

    def gep(self, st, sty, base, idx):
        if isinstance(base, Fn):
            return base
        if not isinstance(base, Ptr):
            raise Unsupported("gep on %r" % (base,))
        p = base
        if p.root is None:
            # null + constant (used in sizeof-like idioms)
            if all(isinstance(i, int) and i == 0 for i in idx):
                return p
            raise Unsupported("gep on null")
        p = self.gep1(st, p, sty, idx[0])
        t = sty
        for i in idx[1:]:
            t = self.m.res(t)
            i = self.sidx(i)
            if t.k == "struct":
                p = p.add(self.m.offsets(t)[i])
                t = t.a[i]
            elif t.k == "arr":
                es = self.m.size(t.a)
                pt = self.pointee(st, p) if st is not None else (self.m.globals[p.root[1:]][0] if p.root[0] == "@" and not p.steps and p.root[1:] in self.m.globals else None)
                p = p.step("arr", i, es, self.tyname(t.a))
                t = t.a
            else:
                raise Unsupported("gep into %r" % t)
        return p

    # ------------------------------------------------------------ integer ops
    def to_signed(self, st, a, n):
        h = 1 << (n - 1)
        if isinstance(a, bool):
            return -1 if (a and n == 1) else int(a)
        if isinstance(a, int):
            return a - (1 << n) if a >= h else a
        if z3.is_bool(a):
            return z3.If(a, z3.IntVal(-1 if n == 1 else 1), z3.IntVal(0))
        if self.prove(st, a < h):
            return a
        return z3.If(a >= h, a - (1 << n), a)

    def wrap(self, st, r, n):
        """reduce an exact integer expression into [0,2^n)"""
        Mx = 1 << n
        if isinstance(r, int):
            return r % Mx
        if self.prove(st, z3.And(r >= 0, r < Mx)):
            return r
        if self.prove(st, z3.And(r >= -Mx, r < 2 * Mx)):
            if self.prove(st, r < 0):
                return r + Mx
            if self.prove(st, r >= Mx):
                return r - Mx
            return z3.If(r < 0, r + Mx, z3.If(r >= Mx, r - Mx, r))
        return r % Mx

    def b2i(self, v):
        if isinstance(v, bool):
            return int(v)
        if is_sym(v) and z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def i2b(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v & 1)
        if z3.is_bool(v):
            return v
        if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
            a, b = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
            if a == 1 and b == 0:
                return v.arg(0)
            if a == 0 and b == 1:
                return z3.Not(v.arg(0))
            return bool(a)
        return (v % 2) == 1

    def ptrdiff(self, a, b):
        if a.root is None and b.root is None:
            return 0
        if b.root is None:
            return PInt(a)
        if a.root != b.root or a.steps != b.steps:
            # a may be an (obj) vs obj+steps mismatch -> unsupported
            raise Unsupported("difference of unrelated pointers %r %r" % (a, b))
        for x, y in zip(a.idxs[:-1], b.idxs[:-1]):
            if not same(x, y):
                raise Unsupported("difference of pointers into different containers")
        d = a.off - b.off
        if a.steps:
            x, y = a.idxs[-1], b.idxs[-1]
            S = a.steps[-1][2] or 1
            if isinstance(x, int) and isinstance(y, int):
                return d + (x - y) * S
            df = zi(x) - zi(y) if not (isinstance(y, int) and y == 0) else zi(x)
            if S != 1:
                df = df * S
            return df + d if d else df
        return d

    def binop(self, st, op, a, b, n, flags):
        if isinstance(a, Undef):
            a = self.fresh_int(st, "undef", n)
        if isinstance(b, Undef):
            b = self.fresh_int(st, "undef", n)
        if n == 1:
            a, b = (self.i2b(a), self.i2b(b))
            if op in ("xor", "add", "sub"):
                if isinstance(a, bool) and isinstance(b, bool):
                    return a != b
                if isinstance(b, bool):
                    return z3.Not(a) if b else a
                if isinstance(a, bool):
                    return z3.Not(b) if a else b
                return z3.Xor(a, b)
            if op in ("and", "mul"):
                if isinstance(a, bool):
                    return b if a else False
                if isinstance(b, bool):
                    return a if b else False
                return z3.And(a, b)
            if op == "or":
                if isinstance(a, bool):
                    return True if a else b
                if isinstance(b, bool):
                    return True if b else a
                return z3.Or(a, b)
            raise Unsupported("i1 " + op)
        if isinstance(a, Fn) and b == 1 and op == "and":
            return 0        # member pointers: addresses of functions are even, odd values are virtual table offsets
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt):
                d = self.ptrdiff(a.p, b.p)
                return self.wrap(st, d, n) if not isinstance(d, PInt) else d
            if op == "sub" and isinstance(a, PInt) and isinstance(b, int) and b == 0:
                return a
            raise Unsupported("arith on ptrtoint")
        Mx = 1 << n
        ci, cj = isinstance(a, int), isinstance(b, int)
        if self.fmode == "uf" and op in ("mul", "sdiv", "udiv", "srem", "urem") and not (ci and cj):
            # machine operation as an uninterpreted function of its operands
            x, y = zi(a), zi(b)
            if op == "mul" and x.sexpr() > y.sexpr():
                x, y = y, x
            r = z3.Function("%s_i%d" % (op, n), INT, INT, INT)(x, y)
            st.assume(z3.And(r >= 0, r < Mx))
            return r
        if ci and cj:
            sa = a - Mx if a >= Mx // 2 else a
            sb = b - Mx if b >= Mx // 2 else b
            if op == "add":
                return (a + b) % Mx
            if op == "sub":
                return (a - b) % Mx
            if op == "mul":
                return (a * b) % Mx
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            if op == "sdiv":
                q = abs(sa) // abs(sb)
                return (q if (sa < 0) == (sb < 0) else -q) % Mx
            if op == "srem":
                q = abs(sa) % abs(sb)
                return (q if sa >= 0 else -q) % Mx
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) % Mx
            if op == "lshr":
                return a >> b
            if op == "ashr":
                return (sa >> b) % Mx
        if op == "add":
            if cj and b >= Mx // 2:
                return self.wrap(st, zi(a) - (Mx - b), n)
            if ci and a >= Mx // 2:
                return self.wrap(st, zi(b) - (Mx - a), n)
            if cj and b == 0:
                return a
            r = zi(a) + zi(b)
            if z3.is_add(zi(a)) and cj:
                r = z3.simplify(r)
            return self.wrap(st, r, n)
        if op == "sub":
            if cj and b == 0:
                return a
            return self.wrap(st, z3.simplify(zi(a) - zi(b)), n)
        if op == "mul":
            if cj and b == 1:
                return a
            if ci and a == 1:
                return b
            if (cj and b == 0) or (ci and a == 0):
                return 0
            if "nsw" in flags or cj and b > Mx // 2:
                x, y = self.to_signed(st, a, n), self.to_signed(st, b, n)
                return self.wrap(st, zi(x) * zi(y), n)
            return self.wrap(st, zi(a) * zi(b), n)
        if op in ("udiv", "urem") and cj and b > 0:
            return zi(a) / b if op == "udiv" else zi(a) % b
        if op in ("udiv", "urem"):
            return zi(a) / zi(b) if op == "udiv" else zi(a) % zi(b)
        if op == "sdiv" and cj:
            x = self.to_signed(st, a, n)
            sb = b - Mx if b >= Mx // 2 else b
            # syntactic  e*S / S
            if z3.is_mul(zi(x)) and zi(x).num_args() == 2:
                for u, w in ((zi(x).arg(0), zi(x).arg(1)), (zi(x).arg(1), zi(x).arg(0))):
                    if z3.is_int_value(u) and u.as_long() == sb:
                        return self.wrap(st, w, n)
            if sb > 0 and self.prove(st, zi(x) >= 0):
                return z3.simplify(zi(x) / sb)
            if "exact" in flags and sb > 0:
                return self.wrap(st, z3.simplify(zi(x) / sb), n)
            q = z3.If(zi(x) >= 0, zi(x) / abs(sb), -((-zi(x)) / abs(sb)))
            return self.wrap(st, q if sb > 0 else -q, n)
        if op == "srem" and cj:
            x = self.to_signed(st, a, n)
            sb = b - Mx if b >= Mx // 2 else b
            if self.prove(st, zi(x) >= 0):
                return zi(x) % abs(sb)
            return self.wrap(st, z3.If(zi(x) >= 0, zi(x) % abs(sb), -((-zi(x)) % abs(sb))), n)
        if op in ("sdiv", "srem"):
            x, y = self.to_signed(st, a, n), self.to_signed(st, b, n)
            if self.prove(st, z3.And(zi(x) >= 0, zi(y) > 0)):
                return zi(x) / zi(y) if op == "sdiv" else zi(x) % zi(y)
        if op == "shl" and cj:
            return self.wrap(st, zi(a) * (1 << b), n)
        if op == "lshr" and cj:
            return zi(a) / (1 << b)
        if op == "ashr" and cj:
            x = self.to_signed(st, a, n)
            return self.wrap(st, zi(x) / (1 << b), n)
        if op == "shl":
            # 2^b for symbolic b: uninterpreted power
            raise Unsupported("symbolic shift")
        if op in ("and", "or", "xor"):
            if ci and not cj:
                a, b, ci, cj = b, a, cj, ci
            if cj:
                if op == "and":
                    if b == 0:
                        return 0
                    if b == Mx - 1:
                        return a
                    if (b & (b + 1)) == 0:
                        return zi(a) % (b + 1)
                    if (b & (b - 1)) == 0:
                        return ((zi(a) / b) % 2) * b
                    c = Mx - 1 - b
                    if (c & (c + 1)) == 0:      # clear low bits
                        return zi(a) - zi(a) % (c + 1)
                    if (c & (c - 1)) == 0:      # clear one bit
                        return zi(a) - ((zi(a) / c) % 2) * c
                if op == "or":
                    if b == 0:
                        return a
                    if b == Mx - 1:
                        return Mx - 1
                    if (b & (b - 1)) == 0:
                        if self.prove(st, (zi(a) / b) % 2 == 0):
                            return zi(a) + b
                        if self.prove(st, (zi(a) / b) % 2 == 1):
                            return a
                        return zi(a) + z3.If((zi(a) / b) % 2 == 1, z3.IntVal(0), z3.IntVal(b))
                    if (b & (b + 1)) == 0:
                        return zi(a) - zi(a) % (b + 1) + b
                if op == "xor":
                    if b == 0:
                        return a
                    if b == Mx - 1:
                        return (Mx - 1) - zi(a)
            f = z3.Function("bv%s_%d" % (op, n), INT, INT, INT)
            r = f(zi(a), zi(b))
            st.assume(z3.And(r >= 0, r < Mx))
            return r
        raise Unsupported("binop %s" % op)

    def icmp(self, st, pred, a, b, t):
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            return self.ptrcmp(st, pred, a, b)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt) and isinstance(b, PInt):
                return self.ptrcmp(st, pred, a.p, b.p)
            raise Unsupported("icmp on ptrtoint")
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.fresh("undef", BOOL)
        if (isinstance(a, tuple) or isinstance(b, tuple)) and pred in ("eq", "ne"):
            return (a == b) == (pred == "eq")        # type of a caught exception
        n = t.n
        if n == 1:
            a, b = self.i2b(a), self.i2b(b)
            if pred in ("eq", "ne"):
                if isinstance(a, bool) and isinstance(b, bool):
                    return (a == b) if pred == "eq" else a != b
                r = zb(a) == zb(b)
                return r if pred == "eq" else z3.Not(r)
            a, b = self.b2i(a), self.b2i(b)
        if pred[0] == "s":
            a, b = self.to_signed(st, a, n), self.to_signed(st, b, n)
        if isinstance(a, int) and isinstance(b, int):
            return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[pred if pred in ("eq", "ne") else pred[1:]]
        # bool-ish simplification: ite(c,1,0) == 0
        A, B = zi(a), zi(b)
        q = pred if pred in ("eq", "ne") else pred[1:]
        r = {"eq": lambda: A == B, "ne": lambda: A != B, "gt": lambda: A > B, "ge": lambda: A >= B, "lt": lambda: A < B, "le": lambda: A <= B}[q]()
        return r

    def ptrcmp(self, st, pred, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.fresh("undef", BOOL)
        if isinstance(a, Fn) or isinstance(b, Fn):
            e = same(a, b)
            return e if pred == "eq" else not e
        if pred in ("eq", "ne"):
            if a.root is None or b.root is None:
                e = a.root is None and b.root is None
            elif a.root != b.root:
                e = False
            elif a.steps != b.steps or a.off != b.off:
                # (arr idx 0 vs. containing object) not compared in the supported code
                e = False
                if a.steps[:len(b.steps)] == b.steps or b.steps[:len(a.steps)] == a.steps:
                    if a.steps != b.steps:
                        A = self.canon(st, a, None)
                        B = self.canon(st, b, None)
                        if A.steps == B.steps:
                            return self.ptrcmp(st, pred, A, B)
                        raise Unsupported("pointer comparison %r %r" % (a, b))
            else:
                cs = []
                e = True
                for x, y in zip(a.idxs, b.idxs):
                    if same(x, y):
                        continue
                    if isinstance(x, int) and isinstance(y, int):
                        e = False
                        break
                    cs.append(zi(x) == zi(y))
                if e and cs:
                    e = z3.And(*cs) if len(cs) > 1 else cs[0]
            if isinstance(e, bool):
                return e if pred == "eq" else not e
            return e if pred == "eq" else z3.Not(e)
        d = self.ptrdiff(a, b)
        q = pred[1:]
        if isinstance(d, int):
            return {"gt": d > 0, "ge": d >= 0, "lt": d < 0, "le": d <= 0}[q]
        return {"gt": d > 0, "ge": d >= 0, "lt": d < 0, "le": d <= 0}[q]

    # ------------------------------------------------------------ float ops
    def fbin(self, op, a, b, ty="f64"):
        for x in (a, b):
            if isinstance(x, Undef):
                raise Unsupported("undef float")
        if self.fmode == "real":
            if not is_sym(a) and not is_sym(b):
                if op == "fadd":
                    return Fraction(a) + Fraction(b)
                if op == "fsub":
                    return Fraction(a) - Fraction(b)
                if op == "fmul":
                    return Fraction(a) * Fraction(b)
                if op == "fdiv" and b != 0:
                    return Fraction(a) / Fraction(b)
            A, B = self.flit(a), self.flit(b)
            if op == "fadd":
                if not is_sym(a) and a == 0:
                    return b
                if not is_sym(b) and b == 0:
                    return a
                return A + B
            if op == "fsub":
                return A - B
            if op == "fmul":
                return A * B
            if op == "fdiv":
                return A / B
            raise Unsupported(op)
        f = z3.Function(op + ("" if ty == "f64" else "_" + ty), self.F, self.F, self.F)
        a, b = self.flit(a), self.flit(b)
        if op in ("fadd", "fmul") and a.sexpr() > b.sexpr():      # IEEE sums and products commute
            a, b = b, a
        return f(a, b)

    def fcmp(self, st, pred, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.fresh("undef", BOOL)
        if self.fmode == "real":
            if pred == "uno":
                return False
            if pred == "ord":
                return True
            q = pred[1:]
            if not is_sym(a) and not is_sym(b):
                return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[q]
            A, B = self.flit(a), self.flit(b)
            return {"eq": lambda: A == B, "ne": lambda: A != B, "gt": lambda: A > B, "ge": lambda: A >= B, "lt": lambda: A < B, "le": lambda: A <= B}[q]()
        neg = False
        A, B = self.flit(a), self.flit(b)
        # canonical predicates: olt, ole, oeq, uno ; everything else derived
        def f(n, x, y):
            if n == "oeq" and x.sexpr() > y.sexpr():
                x, y = y, x
            return z3.Function("fcmp_" + n, self.F, self.F, BOOL)(x, y)
        if pred == "oeq":
            return f("oeq", A, B)
        if pred == "une":
            return z3.Not(f("oeq", A, B))
        if pred == "olt":
            return f("olt", A, B)
        if pred == "ogt":
            return f("olt", B, A)
        if pred == "ole":
            return f("ole", A, B)
        if pred == "oge":
            return f("ole", B, A)
        if pred == "uge":
            return z3.Not(f("olt", A, B))
        if pred == "ule":
            return z3.Not(f("olt", B, A))
        if pred == "ugt":
            return z3.Not(f("ole", A, B))
        if pred == "ult":
            return z3.Not(f("ole", B, A))
        return f(pred, A, B)

    def cast(self, st, op, v, t, t2):
        if isinstance(v, Undef):
            return UNDEF
        if op in ("bitcast", "addrspacecast"):
            if t.k == t2.k:
                return v
            raise Unsupported("bitcast")
        if op == "ptrtoint":
            if isinstance(v, Ptr):
                return 0 if v.root is None else PInt(v)
            raise Unsupported("ptrtoint fn")
        if op == "inttoptr":
            if isinstance(v, Fn):
                return v
            if isinstance(v, PInt):
                return v.p
            raise Unsupported("inttoptr")
        if op == "zext":
            if t.n == 1:
                return self.b2i(v)
            return v
        if op == "sext":
            s = self.to_signed(st, v, t.n)
            if isinstance(s, int):
                return s % (1 << t2.n)
            return self.wrap(st, s, t2.n)
        if op == "trunc":
            if t2.n == 1:
                return self.i2b(v)
            if isinstance(v, PInt):
                raise Unsupported("trunc ptr")
            if isinstance(v, int):
                return v % (1 << t2.n)
            if self.prove(st, v < (1 << t2.n)):
                return v
            return v % (1 << t2.n)
        if op in ("fpext", "fptrunc"):
            if self.fmode == "real":
                return v
            f = z3.Function("%s_%s_%s" % (op, t.k, t2.k), self.F, self.F)
            return f(self.flit(v))
        if op in ("uitofp", "sitofp"):
            x = self.b2i(v)
            if op == "sitofp":
                x = self.to_signed(st, x, t.n)
            if isinstance(x, int):
                return Fraction(x)
            if self.fmode == "real":
                return z3.ToReal(x)
            return z3.Function("itof_" + t2.k, INT, self.F)(x)
        if op in ("fptoui", "fptosi"):
            if self.fmode != "real":
                r = z3.Function("%s_%s_i%d" % (op, t.k, t2.n), self.F, INT)(self.flit(v))
                st.assume(z3.And(r >= 0, r < (1 << t2.n)))
                return r
            if not is_sym(v):
                return int(v) % (1 << t2.n)
            tr = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            return self.wrap(st, tr, t2.n)
        raise Unsupported(op)

    # ------------------------------------------------------------ running
    def explore(self, init, until_depth=None):
        """run all paths of the given states to completion (DFS)"""
        work = list(init)
        while work:
            st = work.pop()
            while st is not None:
                try:
                    nxt = self.run(st, work)
                except Unsupported as x:
                    # while only looking for the cells a loop writes a path may be
                    # dropped: the verifying pass re-checks the write set
                    if not self.discovering or "budget" in str(x):
                        raise
                    nxt = None
                st = nxt

    def run(self, st, work):
        """execute until the path forks/ends; returns next state or None"""
        while True:
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.bb]
            I = blk[fr.ip]
            self.steps += 1
            if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
                raise Unsupported("verification time budget exhausted")
            op = I.op
            env = fr.env
            if op == "load":
                env[I.dst] = self.load(st, self.val(st, I.a, ir.PTR), I.ty)
            elif op == "store":
                self.store(st, self.val(st, I.a[1], ir.PTR), I.ty, self.val(st, I.a[0], I.ty))
            elif op == "alloca":
                r = "a%d.%s" % (next(self.cnt), I.dst)
                fr.roots.append(r)
                st.roots[r] = I.ty
                env[I.dst] = Ptr(r)
                if I.a is not None:
                    raise Unsupported("dynamic alloca")
            elif op == "getelementptr":
                env[I.dst] = self.gep(st, I.ty, self.val(st, I.a[0], ir.PTR), [self.val(st, v, t) for t, v in I.a[1]])
            elif op in ("call", "invoke"):
                r = self.call(st, I, work)
                if r is None:
                    return None
                st = r
                continue
            elif op == "br":
                c, a, b = I.a
                if c is None:
                    r = self.jump(st, a, work)
                else:
                    cv = self.i2b(self.val(st, c, ir.IntTy(1))) if not isinstance(self.val(st, c, ir.IntTy(1)), Undef) else self.fresh("undef", BOOL)
                    r = self.branch(st, cv, a, b, work)
                if r is None:
                    return None
                st = r
                continue
            elif op == "icmp":
                env[I.dst] = self.icmp(st, I.a[0], self.val(st, I.a[1], I.ty), self.val(st, I.a[2], I.ty), I.ty)
            elif op == "fcmp":
                env[I.dst] = self.fcmp(st, I.a[0], self.val(st, I.a[1], I.ty), self.val(st, I.a[2], I.ty))
            elif op in ir.BINOPS:
                a, b = self.val(st, I.a[1], I.ty), self.val(st, I.a[2], I.ty)
                if op[0] == "f":
                    if I.ty.k == "vec":
                        env[I.dst] = Agg([self.fbin(op, x, y, I.ty.a.k) for x, y in zip(a.v, b.v)])
                    else:
                        env[I.dst] = self.fbin(op, a, b, I.ty.k)
                else:
                    env[I.dst] = self.binop(st, op, a, b, I.ty.n, I.a[0])
            elif op == "fneg":
                v = self.val(st, I.a, I.ty)
                if self.fmode == "real":
                    env[I.dst] = -v
                else:
                    env[I.dst] = z3.Function("fneg", self.F, self.F)(self.flit(v))
            elif op in ir.CASTS:
                env[I.dst] = self.cast(st, op, self.val(st, I.a[1], I.a[0]), I.a[0], I.ty)
            elif op == "select":
                c = self.i2b(self.val(st, I.a[0], ir.IntTy(1)))
                a, b = self.val(st, I.a[1], I.ty), self.val(st, I.a[2], I.ty)
                if isinstance(c, bool):
                    env[I.dst] = a if c else b
                elif same(a, b):
                    env[I.dst] = a
                elif isinstance(a, (Ptr, Fn, PInt, Agg)) or isinstance(b, (Ptr, Fn, PInt, Agg)):
                    s2 = st.clone()
                    st.assume(c)
                    s2.assume(z3.Not(c))
                    st.frames[-1].env[I.dst] = a
                    s2.frames[-1].env[I.dst] = b
                    s2.frames[-1].ip += 1
                    if self.feasible(s2):
                        work.append(s2)
                    if not self.feasible(st):
                        return None
                else:
                    s = self.sort_of(self.cty(I.ty))
                    env[I.dst] = z3.If(c, self.lift(a, s), self.lift(b, s))
            elif op == "phi":
                # evaluate all phis of the block together
                vals = []
                j = fr.ip
                while blk[j].op == "phi":
                    J = blk[j]
                    for v, lb in J.a:
                        if lb == fr.prev:
                            vals.append((J.dst, self.val(st, v, J.ty)))
                            break
                    else:
                        raise Unsupported("phi")
                    j += 1
                for d, v in vals:
                    env[d] = v
                fr.ip = j
                continue
            elif op == "extractvalue":
                v = self.val(st, I.a[0], I.ty)
                for i in I.a[1]:
                    v = v.v[i] if isinstance(v, Agg) else UNDEF
                env[I.dst] = v
            elif op == "insertvalue":
                v = self.val(st, I.a[0], I.ty)
                x = self.val(st, I.a[2], I.a[1])
                ix = I.a[3]

                def ins(v, ix):
                    w = list(v.v)
                    w[ix[0]] = x if len(ix) == 1 else ins(w[ix[0]], ix[1:])
                    return Agg(w)
                env[I.dst] = ins(v, ix)
            elif op == "ret":
                v = None if I.a is None else self.val(st, I.a, I.ty)
                r = self.ret(st, v, work)
                if r is None:
                    return None
                st = r
                continue
            elif op == "switch":
                v = self.val(st, I.a[0], I.ty)
                if isinstance(v, int):
                    for cv, lb in I.a[2]:
                        if cv[1] == v:
                            break
                    else:
                        lb = I.a[1]
                    r = self.jump(st, lb, work)
                    if r is None:
                        return None
                    st = r
                    continue
                neg = []
                for cv, lb in I.a[2]:
                    s2 = st.clone()
                    s2.assume(v == zi(cv[1]))
                    neg.append(v != zi(cv[1]))
                    if self.feasible(s2):
                        s3 = self.jump(s2, lb, work)
                        if s3 is not None:
                            work.append(s3)
                for f in neg:
                    st.assume(f)
                if not self.feasible(st):
                    return None
                r = self.jump(st, I.a[1], work)
                if r is None:
                    return None
                st = r
                continue
            elif op == "landingpad":
                ti = st.exc
                seln_ = 0
                for kind, v in I.a:
                    if kind == "catch":
                        cv = self.cval(v, ir.PTR)
                        if (isinstance(cv, Ptr) and cv.root is None) or self.exc_match(ti, cv):
                            seln_ = ("tid", "any" if cv.root is None else cv.root)
                            break
                env[I.dst] = Agg([Ptr("exc"), seln_])
            elif op == "resume":
                r = self.unwind(st, work)
                if r is None:
                    return None
                st = r
                continue
            elif op == "unreachable":
                self.oblige(st, "unreachable code not reached", False)
                return None
            elif op == "freeze":
                env[I.dst] = self.val(st, I.a, I.ty)
            elif op == "extractelement":
                v = self.val(st, I.a[0], I.ty)
                i = self.val(st, I.a[1][0][1], I.a[1][0][0])
                env[I.dst] = v.v[i]
            elif op == "insertelement":
                v = self.val(st, I.a[0], I.ty)
                x = self.val(st, I.a[1][0][1], I.a[1][0][0])
                i = self.val(st, I.a[1][1][1], I.a[1][1][0])
                w = list(v.v)
                w[i] = x
                env[I.dst] = Agg(w)
            elif op == "fence":
                pass
            else:
                raise Unsupported("instr %s" % I.text)
            fr.ip += 1

    def exc_match(self, ti, cv):
        if ti is None:
            return False
        a = self.m.dem.get(ti, ti)
        if cv.root == "@" + ti:
            return True
        if cv.root == "@_ZTISt9exception" and ("St" in ti):
            return True
        return False

    # ---- control
    def branch(self, st, c, a, b, work):
        if self.probe is not None and len(st.frames) == self.probe[0] and (a in self.probe[1]) != (b in self.probe[1]):
            cs = c if isinstance(c, bool) else z3.simplify(c)
            raise ProbeDone(isinstance(cs, bool) or z3.is_true(cs) or z3.is_false(cs))
        if isinstance(c, bool):
            return self.jump(st, a if c else b, work)
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return self.jump(st, a, work)
        if z3.is_false(cs):
            return self.jump(st, b, work)
        s2 = st.clone()
        st.assume(c)
        s2.assume(z3.Not(c))
        f1 = self.feasible(st)
        f2 = self.feasible(s2) if f1 else True
        r1 = r2 = None
        if not f2:
            return self.jump(st, a, work)
        if not f1:
            if not self.feasible(s2):
                return None
            return self.jump(s2, b, work)
        r2 = self.jump(s2, b, work)
        if r2 is not None:
            work.append(r2)
        return self.jump(st, a, work)

    def poploops(self, st, depth, blk):
        """leave loops not containing blk at this frame depth (or deeper frames).
        returns False if the path must be dropped (left a discovery loop)"""
        while st.loops:
            L = st.loops[-1]
            if L.depth > depth or (L.depth == depth and (blk is None or blk not in L.blocks)):
                st.loops.pop()
                if L.mode == "discover":
                    return False
                if L.mode == "verify" and self.checking and L.spec is not None and hasattr(L.spec, "on_exit"):
                    L.spec.on_exit(L, st)
            else:
                break
        return True

    def jump(self, st, bb, work):
        fr = st.frames[-1]
        depth = len(st.frames)
        fr.prev = fr.bb
        fr.bb = bb
        fr.ip = 0
        if not self.poploops(st, depth, bb):
            return None
        Ls = ir.loops(self.m, fr.fn)
        if bb not in Ls:
            return st
        # active?
        if st.loops and st.loops[-1].depth == depth and st.loops[-1].header == bb:
            L = st.loops[-1]
            if L.mode == "unroll":
                L2 = LoopCtx(L.header, L.depth, L.blocks, L.fn)
                L2.__dict__.update(L.__dict__)
                L2.count = L.count + 1
                st.loops[-1] = L2
                if L2.count > self.maxunroll:
                    raise Unsupported("loop without invariant not bounded: %s in %s" % (L.name, fr.fn.dem[:160]))
                return st
            L.on_back(st)
            return None
        L = LoopCtx(bb, depth, Ls[bb], fr.fn)
        par = st.loops[-1] if st.loops else None
        L.parent = next((x for x in reversed(st.loops) if x.mode != "unroll"), None)
        site = "|".join(f.site for f in st.frames) + "|" + fr.fn.name + ":" + bb
        L.site = site
        pname = L.parent.name if L.parent else ""
        reg = self.loopnames.setdefault(pname, {})
        known = site in reg
        sp = None
        if not known:
            L.name = (pname + "." if pname else "") + str(len(reg))
        else:
            L.name = reg[site]
        L.entry = View(self, st.clone())
        sp = self.spec.loop(L)
        if sp is not None and self.spec.unroll_const and self.const_exit(st, L):
            sp = None
        if sp is None:
            L.mode = "unroll"
            st.loops.append(L)
            return st
        if not known:
            reg[site] = L.name
        L.spec = sp
        return self.cut(st, L, work)

    def const_exit(self, st, L):
        """the first exit test of the loop does not depend on anything unknown
        (such a loop is executed as written instead of being cut)"""
        s = st.clone()
        L2 = LoopCtx(L.header, L.depth, L.blocks, L.fn)
        L2.mode = "discover"
        L2.name = L.name + "?"
        L2.on_back = lambda b: None
        s.loops.append(L2)
        saved = self.checking, self.probe
        self.checking = False
        self.discovering += 1
        self.probe = (L.depth, L.blocks)
        try:
            self.explore([s])
        except ProbeDone as x:
            return x.const
        finally:
            self.checking, self.probe = saved
            self.discovering -= 1
        return False

    # ---- loop cutting
    def cut(self, st, L, work):
        fr = st.frames[-1]
        cutname = next(self.cnt)
        k = self.fresh("k_%s" % L.name)
        L.k = k
        W, affine, regions, gh = self.discover(st, L, k)
        sp = L.spec
        if self.discovering:
            head = self.head_state(st, L, k, W, affine, regions, gh, cutname, [])
            L.mode = "verify"
            L.on_back = lambda s: None
            head.loops.append(L)
            return head
        # entry obligations
        s0 = st.clone()
        for f in sp.facts(L, View(self, s0), z3.IntVal(0)):
            s0.assume(f)
        for nm, f in sp.invariant(L, View(self, s0), z3.IntVal(0)):
            self.oblige(s0, "loop %s invariant established: %s" % (L.name, nm), f)
        forms = self.find_forms(st, L, k, W, affine, regions, gh)
        sp = L.spec
        head = self.head_state(st, L, k, W, affine, regions, gh, cutname, forms)
        for nm, f in sp.invariant(L, View(self, head), k):
            head.assume(f)
        for f in sp.facts(L, View(self, head), k):
            head.assume(f)
        L.mode = "verify"
        self.covers_d.setdefault("loop %s: an iteration completes" % L.name, [])
        hmem = dict(head.mem)
        hrules = set(map(id, head.rules))
        hghost = dict(head.ghost)
        rootmark = set(st.roots)
        head0 = head.clone()
        entrymem = frozenset(st.mem)

        def back(s):
            self.check_writes(L, s, head0, hmem, hrules, hghost, rootmark, W, affine, regions, gh, k, entrymem)
            if not self.checking:
                return
            self.covers_d.setdefault("loop %s: an iteration completes" % L.name, []).append(list(s.pc))
            for f in sp.step_facts(L, View(self, s), k):
                s.assume(f)
            for nm, f in sp.invariant(L, View(self, s), k + 1):
                self.oblige(s, "loop %s invariant preserved: %s" % (L.name, nm), f)
        L.on_back = back
        head.loops.append(L)
        return head

    def check_writes(self, L, s, head0, hmem, hrules, hghost, rootmark, W, affine, regions, gh, k, entrymem):
        """the write set used for the cut covers everything this path wrote"""
        for key, v in s.mem.items():
            if key[0] not in rootmark and not key[0].startswith("@"):
                continue
            if key in affine:
                h = hmem[key]
                d = self.affine_step(key, [(v, h)])
                if d != affine[key]:
                    raise Unsupported("induction variable not affine on some path of loop %s" % L.name)
                continue
            if key in W:
                continue
            h = hmem.get(key)
            if h is None:
                if key[3] == "ptr":
                    continue
                h = self.mat_in(head0.mem, head0.rules, key, head0)
            if not same(v, h):
                if key not in entrymem and any(self._affects(d, size, key[0], key[1], key[2]) for d, size in regions):
                    continue      # its value at the head came from the arbitrary-region rule
                raise Unsupported("write set of loop %s incomplete: %r" % (L.name, key))
        for r in s.rules:
            if id(r) not in hrules and (r[1].root in rootmark or r[1].root.startswith("@")):
                if not any(x[0].root == r[1].root and x[0].steps == r[1].steps and x[0].off == r[1].off and x[1] == r[2] for x in regions):
                    raise Unsupported("region write set of loop %s incomplete" % L.name)
        for g, v in s.ghost.items():
            if g not in gh and not same(v, hghost.get(g)):
                raise Unsupported("ghost write set of loop %s incomplete: %s" % (L.name, g))

    def havoc(self, s, W, affine, k, regions, gh, tag, first=None):
        for key in W:
            if key in affine:
                base = s.mem[key]
                c = affine[key]
                if isinstance(base, Ptr):
                    s.mem[key] = base.withidx(self.iadd(base.idxs[-1], k * c if c != 1 else k))
                else:
                    s.mem[key] = z3.simplify(zi(base) + c * k)
                continue
            old = s.mem[key]
            if isinstance(old, (Ptr, Fn)):
                raise Unsupported("pointer variable modified irregularly in loop: %r" % (key,))
            sort = old.sort() if is_sym(old) else (BOOL if isinstance(old, bool) else (self.F if key[3] in ("f64", "f32") else INT))
            v = z3.Const("h%s.%s" % (tag, self.kname(key)), sort)
            s.mem[key] = v
            if sort == INT and key[3][0] == "i":
                s.assume(z3.And(v >= 0, v < (1 << int(key[3][1:]))))
            if key[3] in ("len", "size") and sort == INT:
                s.assume(z3.And(v >= 0, v < (1 << 60)))
        for g in gh:
            if g not in s.ghost:
                continue          # created by the iteration itself (an object of the loop body)
            old = s.ghost[g]
            s.ghost[g] = z3.Const("h%s.ghost_%s" % (tag, g), old.sort())
        for (d, size) in regions:
            # region rules applied inside the loop body: havoc the whole region for future cells
            s.rules = s.rules + (("havoc", Ptr(d.root, d.steps, (0,) * len(d.steps), d.off), size, tag),)

    def kname(self, key):
        return "%s%s.%d.%s" % (key[0].replace("@", "G."), "".join("/%s%d" % (x[0], x[1]) for x in key[1]), key[2], key[3])

    def head_state(self, st, L, k, W, affine, regions, gh, tag, forms):
        s = st.clone()
        s.assume(k >= 0)
        s.assume(k < (1 << 60))
        self.havoc(s, W, affine, k, regions, gh, tag)
        for o in forms:
            s.assume(o.form(k, s))
            for f in o.facts(k, s):
                s.assume(f)
        return s

    def discover(self, st, L, k):
        """which cells/ghosts does one iteration change?  iterate to a fixpoint"""
        ck = L.site + "#" + str(len(st.loops))
        # the cache must not be a lower approximation only: always iterate to fixpoint
        W = set()
        nonaff = set()
        affine = {}
        regions = []
        gh = set()
        sp = L.spec
        saved = self.checking
        self.checking = False
        self.discovering += 1
        rootmark = set(st.roots)
        try:
            for it in range(12):
                s = st.clone()
                for key in list(W):
                    if key not in s.mem:
                        if key[3] == "ptr":
                            W.discard(key)
                            continue
                        self.mat_in(s.mem, s.rules, key, s)
                        if key not in st.mem:
                            st.mem[key] = s.mem[key]
                s.assume(k >= 0)
                s.assume(k < (1 << 60))
                if it == 0:
                    s.assume(k == 0)
                self.havoc(s, W, affine, k, regions, gh, "d%d_%s" % (it, L.name))
                head = s.clone()
                nrules = len(s.rules)
                LD = LoopCtx(L.header, L.depth, L.blocks, L.fn)
                LD.mode = "discover"
                LD.k = k
                LD.name = L.name
                LD.parent = L.parent
                LD.entry = L.entry
                LD.spec = sp
                LD.site = L.site
                diffs = {}
                newW = set()
                newreg = []
                newg = set()
                nback = [0]

                def back(b):
                    nback[0] += 1
                    for key, v in b.mem.items():
                        if key[0] not in rootmark and not key[0].startswith("@"):
                            continue
                        if key not in head.mem:
                            if key[3] == "ptr":
                                # pointer cell written in the loop but uninitialised before: per-iteration temporary
                                continue
                            # materialised during the body: compare with its value at the head
                            hv = self.mat_in(head.mem, head.rules, key, head)
                        else:
                            hv = head.mem[key]
                        if not same(v, hv):
                            newW.add(key)
                            diffs.setdefault(key, []).append((v, hv))
                        elif key in W:
                            diffs.setdefault(key, []).append((v, hv))
                    for key, hv in head.mem.items():
                        if key[3] == "ptr" and key not in b.mem and (key[0] in rootmark):
                            raise Unsupported("pointer cell region-copied in loop")
                    hr = set(map(id, head.rules))
                    for r in b.rules:
                        if id(r) not in hr and r[1].root in rootmark | {x for x in [r[1].root] if x.startswith("@")}:
                            newreg.append((r[1], r[2]))
                    for g, v in b.ghost.items():
                        if not same(v, head.ghost.get(g)):
                            newg.add(g)
                LD.on_back = back
                s.loops.append(LD)
                self.explore([s])
                # affine classification
                ch = False
                for key in list(newW):
                    # a pointer to the first element of an array member: use the element form
                    if key[3] == "ptr" and isinstance(st.mem.get(key), Ptr):
                        h0 = st.mem[key]
                        q0 = self.canon_like(st, h0, [v for v, h in diffs.get(key, [])])
                        if q0 is not None:
                            st.mem[key] = q0
                            diffs[key] = [(v, q0 if same(h, h0) else h) for v, h in diffs[key]]
                            ch = True
                for key in newW | W:
                    ds = diffs.get(key, [])
                    c = self.affine_step(key, ds) if key not in nonaff else None
                    if os.environ.get("GTV_DEBUG") == "3": print("DISC", L.name, it, key, ds, c)
                    if key not in W:
                        W.add(key)
                        ch = True
                        if key not in st.mem and key[3] != "ptr":
                            self.mat_in(st.mem, st.rules, key, st)
                        if c is not None and self.affine_ok(st, key):
                            affine[key] = c
                        else:
                            nonaff.add(key)
                    elif key in affine and (c is None or c != affine[key]):
                        del affine[key]
                        nonaff.add(key)
                        ch = True
                for g in newg - gh:
                    gh.add(g)
                    ch = True
                for r in newreg:
                    d = Ptr(r[0].root, r[0].steps, (), r[0].off)
                    if not any(x[0].root == d.root and x[0].steps == d.steps and x[0].off == d.off and x[1] == r[1] for x in regions):
                        regions.append((d, r[1]))
                        ch = True
                if not ch and it > 0:
                    break
            else:
                raise Unsupported("loop write set did not stabilise")
        finally:
            self.checking = saved
            self.discovering -= 1
        return W, affine, regions, gh

    def canon_like(self, st, h, vs):
        for v in vs:
            if isinstance(v, Ptr) and v.root == h.root and h.root is not None and len(v.steps) == len(h.steps) + 1 and v.steps[-1][0] == "arr":
                es = v.steps[-1][2]
                if v.off == 0 and all(same(x, y) for x, y in zip(v.idxs[:-1], h.idxs)) and v.steps[:-1] == h.steps and h.off >= v.steps[-1][1] and (h.off - v.steps[-1][1]) % es == 0 if isinstance(v.steps[-1][1], int) else False:
                    q = v.withidx((h.off - v.steps[-1][1]) // es)
                    return q
        return None

    def affine_ok(self, st, key):
        v = st.mem.get(key)
        if isinstance(v, Ptr):
            return bool(v.steps) and v.steps[-1][0] in ("buf", "arr", "it", "mit")
        return key[3][0] == "i" and key[3] != "i1" and not key[1]

    def affine_step(self, key, ds):
        c = None
        for v, h in ds:
            if isinstance(v, Ptr) and isinstance(h, Ptr):
                if v.root != h.root or v.steps != h.steps or v.off != h.off or not v.steps:
                    return None
                if not all(same(x, y) for x, y in zip(v.idxs[:-1], h.idxs[:-1])):
                    return None
                d = z3.simplify(zi(v.idxs[-1]) - zi(h.idxs[-1]))
            elif isinstance(v, (Ptr, Fn, Agg, PInt)) or isinstance(h, (Ptr, Fn, Agg, PInt)):
                return None
            else:
                if key[3][0] != "i" or key[3] == "i1" or key[1]:
                    return None
                try:
                    d = z3.simplify(zi(v) - zi(h))
                except Unsupported:
                    return None
            if not z3.is_int_value(d):
                return None
            d = d.as_long()
            if c is None:
                c = d
            elif c != d:
                return None
        return c if c != 0 else None

    def find_forms(self, st, L, k, W, affine, regions, gh):
        """mini-Houdini: candidate invariants over the irregularly changing
        cells of the loop (offered by the specification, plus "unchanged at
        the loop head"); the survivors become ordinary loop invariants and are
        emitted as obligations"""
        sp = L.spec
        nf = getattr(self.spec, "noforms", None)
        if nf and nf(L):
            return []         # the specification states the whole invariant of this loop itself
        cand = []
        s0 = st.clone()
        for f in sp.facts(L, View(self, s0), z3.IntVal(0)):
            s0.assume(f)
        saved = self.checking
        self.checking = False
        try:
            for key in sorted((x for x in W if x not in affine and x[3] != "ptr"), key=repr):
                v0 = st.mem[key]
                offs = []
                for ty, fn in sp.forms(L):
                    if ty == key[3] and not key[1]:
                        offs.append(Offer("variable follows its closed form", lambda kk, S, fn=fn, key=key: self.lift(S.mem[key], self.sort_of(key[3])) == fn(kk)))
                offs += sp.offers(L, self, key, v0)
                if not isinstance(v0, Undef):
                    offs.append(Offer("unchanged at the loop head", lambda kk, S, key=key, v0=v0: self._eqcell(S.mem[key], v0), ms=100))
                for o in offs:
                    o.key = key
                    try:
                        g = o.form(z3.IntVal(0), s0)
                    except Unsupported:
                        continue
                    s1 = s0.clone()
                    for f in o.facts(z3.IntVal(0), s1):
                        s1.assume(f)
                    if self.prove_strong(s1, g):
                        cand.append(o)
                    elif DEBUG:
                        print("DBG loop", L.name, key, "not established:", o.label)
            if not cand:
                return []
            for it in range(8):
                s = self.head_state(st, L, k, W, affine, regions, gh, "c%d_%s" % (it, L.name), cand)
                for nm, f in sp.invariant(L, View(self, s), k):
                    s.assume(f)
                for f in sp.facts(L, View(self, s), k):
                    s.assume(f)
                LD = LoopCtx(L.header, L.depth, L.blocks, L.fn)
                LD.__dict__.update(mode="discover", k=k, name=L.name, parent=L.parent, entry=L.entry, spec=sp, site=L.site)
                bad = []

                def back(b):
                    for f in sp.step_facts(L, View(self, b), k):
                        b.assume(f)
                    for o in cand:
                        if any(o is x for x in bad):
                            continue
                        for f in o.facts(k + 1, b):
                            b.assume(f)
                        if not self.prove_strong(b, o.form(k + 1, b), o.ms):
                            bad.append(o)
                            if DEBUG:
                                print("DBG loop", L.name, o.key, "not preserved:", o.label)
                                if DEBUG > 1:
                                    from . import vc
                                    fn_ = "/tmp/p/fail%d.smt2" % next(self.cnt)
                                    open(fn_, "w").write(vc.smt2(b.pc, o.form(k + 1, b)))
                                    print("   ", fn_)
                LD.on_back = back
                s.loops.append(LD)
                self.explore([s])
                if not bad:
                    break
                cand = [o for o in cand if not any(o is x for x in bad)]
                if not cand:
                    break
        finally:
            self.checking = saved
        if not cand:
            return []
        if self.checking:
            for o in cand:
                s1 = s0.clone()
                for f in o.facts(z3.IntVal(0), s1):
                    s1.assume(f)
                self.oblige(s1, "loop %s invariant established: %s" % (L.name, o.label), o.form(z3.IntVal(0), s1))
            inv, sf = sp.invariant, sp.step_facts

            def inv2(L_, v, kk, inv=inv, cand=cand):
                return list(inv(L_, v, kk)) + [(o.label, o.form(kk, v.st)) for o in cand]

            def sf2(L_, v, kk, sf=sf, cand=cand):
                return list(sf(L_, v, kk)) + [f for o in cand for f in o.facts(kk + 1, v.st)]
            sp2 = sp.__class__.__new__(sp.__class__)
            sp2.__dict__.update(sp.__dict__)
            sp2.invariant = inv2
            sp2.step_facts = sf2
            L.spec = sp2
        return cand

    def _eqcell(self, a, b):
        if is_sym(a):
            return a == self.lift(b, a.sort())
        if is_sym(b):
            return self.lift(a, b.sort()) == b
        return z3.BoolVal(same(a, b))

    # ---- calls
    def contract_for(self, name, dem):
        h = self.ccache.get(name, 0)
        if h == 0:
            h = None
            for rx, fn in self.spec.contracts:
                mm = re.search(rx, dem)
                if mm:
                    h = (fn, mm)
                    break
            if h is None:
                h = self.contracts.find(dem, self.m)
            self.ccache[name] = h
        return h

    def call(self, st, I, work):
        callee, args, nd, ud = I.a
        cv = self.val(st, callee, ir.PTR)
        if not isinstance(cv, Fn):
            raise Unsupported("indirect call through %r" % (cv,))
        name = cv.name
        avals = [self.val(st, v, t) for t, v, at in args]
        byval = [(i, at[1]) for i, (t, v, at) in enumerate(args) if at and at[0] == "byval"]
        for i, t in byval:
            r = "a%d.byval" % next(self.cnt)
            st.frames[-1].roots.append(r)
            st.roots[r] = t
            self.copy_region(st, Ptr(r), avals[i], self.m.size(t))
            avals[i] = Ptr(r)
        return self.do_call(st, I, name, avals, args, work)

    def do_call(self, st, I, name, avals, args, work):
        f = self.m.funcs.get(name) or self.m.decls.get(name)
        if f is None:
            a = self.m.aliases.get(name)
            if a:
                return self.do_call(st, I, a, avals, args, work)
            raise Unsupported("unknown callee " + name)
        if name.startswith("llvm."):
            return self.finish_call(st, I, self.intrinsic(st, name, avals, args, I), work)
        h = self.contract_for(name, f.dem)
        if h is not None:
            fn, mm = h
            self.contracts_used[f.dem] = fn.__name__
            C = Call(self, st, f, name, avals, I, mm)
            try:
                r = fn(C)
            except PushFrame as pf:
                return self.push(st, pf.fn, pf.args, I)
            if isinstance(r, list):
                outs = r
            else:
                outs = [Outcome(C.st, r)]
            res = None
            for o in outs[1:]:
                if o.throws:
                    s3 = self.throw(o.st, o.throws, I, work)
                else:
                    s3 = self.finish_call(o.st, I, o.val, work)
                if s3 is not None:
                    work.append(s3)
            if not outs:
                return None
            o = outs[0]
            if o.throws:
                return self.throw(o.st, o.throws, I, work)
            return self.finish_call(o.st, I, o.val, work)
        if f.text is None:
            raise Unsupported("no contract for external function: " + f.dem)
        return self.push(st, f, avals, I)

    def push(self, st, f, avals, I):
        if len(st.frames) > 120:
            raise Unsupported("recursion too deep")
        ir.body(self.m, f)
        self.fns_entered.add(f.dem)
        fr = Frame(f)
        fr.bb = f.order[0]
        fr.dst = I.dst if I is not None else None
        if I is not None and I.op == "invoke":
            fr.inv = (I.a[2], I.a[3])
        if st.frames:
            c = st.frames[-1]
            fr.site = "%s:%d" % (c.bb, c.ip)
        for (t, nm, s), v in zip(f.params, avals):
            fr.env[nm] = v
        st.frames.append(fr)
        return st

    def finish_call(self, st, I, v, work):
        fr = st.frames[-1]
        if I.dst is not None:
            fr.env[I.dst] = v if v is not None else UNDEF
        if I.op == "invoke":
            return self.jump(st, I.a[2], work)
        fr.ip += 1
        return st

    def ret(self, st, v, work):
        fr = st.frames.pop()
        if not self.poploops(st, len(st.frames), None if not st.frames else st.frames[-1].bb):
            return None
        # lifetimes end
        self.kill_root(st, fr.roots)
        if fr.cont is not None:
            return fr.cont(st, v, work)
        if not st.frames:
            raise Unsupported("return without continuation")
        cf = st.frames[-1]
        if fr.dst is not None:
            cf.env[fr.dst] = v
        if fr.inv:
            return self.jump(st, fr.inv[0], work)
        cf.ip += 1
        return st

    def throw(self, st, tname, I, work):
        st.exc = tname
        if I.op == "invoke":
            return self.jump(st, I.a[3], work)
        return self.unwind(st, work)

    def unwind(self, st, work):
        while st.frames:
            fr = st.frames.pop()
            cont_throw = getattr(fr.cont, "on_throw", None)
            if not self.poploops(st, len(st.frames), None if not st.frames else st.frames[-1].bb):
                return None
            self.kill_root(st, fr.roots)
            if fr.cont is not None:
                if cont_throw:
                    return cont_throw(st, work)
                raise Unsupported("exception escapes contract continuation")
            if fr.inv:
                return self.jump(st, fr.inv[1], work)
        return None

    def intrinsic(self, st, name, a, args, I):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            n = a[2]
            if not isinstance(n, int):
                self.memcpy_n(st, a[0], a[1], n)
                return None
            self.memcpy(st, a[0], a[1], n)
            return None
        if name.startswith("llvm.memset"):
            n = a[2]
            if a[1] != 0 or not isinstance(n, int):
                raise Unsupported("memset nonzero")
            d = a[0]
            if d.steps and d.off == 0 and d.steps[-1][2] and n > d.steps[-1][2]:
                S = d.steps[-1][2]
                for i in range(n // S):
                    self.zero_region(st, d.withidx(self.iadd(d.idxs[-1], i)), S)
            else:
                self.zero_region(st, d, n)
            return None
        if name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") or name.startswith("llvm.assume") or name.startswith("llvm.stack") or name.startswith("llvm.experimental"):
            return None
        if name.startswith("llvm.trap"):
            self.oblige(st, "trap not reached", False)
            st.assume(False)
            return None
        if name.startswith("llvm.expect"):
            return a[0]
        if name.startswith("llvm.eh.typeid.for"):
            return ("tid", a[0].root)
        if name.startswith("llvm.fabs"):
            if self.fmode == "real":
                if not is_sym(a[0]):
                    return abs(a[0])
                return z3.If(a[0] >= 0, a[0], -a[0])
            return z3.Function("fabs", self.F, self.F)(self.flit(a[0]))
        if name.startswith("llvm.abs."):
            v = self.to_signed(st, a[0], int(name.rsplit("i", 1)[1]))
            return abs(v) if isinstance(v, int) else z3.If(v >= 0, v, -v)
        if name.startswith("llvm.fmuladd") or name.startswith("llvm.fma"):
            return self.fbin("fadd", self.fbin("fmul", a[0], a[1]), a[2])
        if name.startswith("llvm.umul.with.overflow"):
            n = int(name.rsplit("i", 1)[1])
            r = zi(a[0]) * zi(a[1]) if (is_sym(a[0]) or is_sym(a[1])) else a[0] * a[1]
            if isinstance(r, int):
                return Agg([r % (1 << n), r >= (1 << n)])
            return Agg([self.wrap(st, r, n), r >= (1 << n)])
        m = re.match(r"llvm\.(umax|umin|smax|smin)", name)
        if m:
            n = int(name.rsplit("i", 1)[1])
            x, y = a
            c = self.icmp(st, {"umax": "ugt", "umin": "ult", "smax": "sgt", "smin": "slt"}[m.group(1)], x, y, ir.IntTy(n))
            if isinstance(c, bool):
                return x if c else y
            return z3.If(c, zi(x), zi(y))
        raise Unsupported("intrinsic " + name)

    def memcpy_n(self, st, d, s, n):
        """n bytes, n symbolic: from a byte buffer into an array of scalars, or between byte buffers"""
        if not isinstance(d, Ptr) or not isinstance(s, Ptr) or not self.is_bytes(st, s):
            raise Unsupported("symbolic memcpy")
        s = self.canon(st, s, None)
        d = self.canon(st, d, None)
        if not (d.steps and d.off == 0 and d.steps[-1][0] in ("arr", "buf")):
            raise Unsupported("symbolic memcpy")
        S = d.steps[-1][2]
        if S == 1:
            t = ir.IntTy(8)
            b = seln(self.mat_in(st.mem, st.rules, (s.root, s.steps, s.off, "i8"), st), s.idxs[:-1])
            dk = self.raw_key(d, t)
            old = self.mat_in(st.mem, st.rules, dk, st)
            oldb = seln(old, d.idxs[:-1])
            new = self.fresh("raw", oldb.sort())
            i = z3.Int("i!r")
            j = i - zi(d.idxs[-1])
            x = z3.Select(new, i)
            st.assume(z3.ForAll([i], z3.If(z3.And(0 <= j, j < zi(n)), x == z3.Select(b, zi(s.idxs[-1]) + j), x == z3.Select(oldb, i)), patterns=[x]))
            st.mem[dk] = ston(old, d.idxs[:-1], new)
            return
        w = self.wide_at(st, d)
        if w is None or w[2] != 0 or self.m.size(w[1]) != S:
            raise Unsupported("symbolic memcpy into non-scalars")
        cnt = self.fresh("cnt", INT)
        self.oblige(st, "memcpy: a whole number of elements", zi(n) % S == 0)
        st.assume(z3.And(cnt >= 0, cnt * S == zi(n)))
        self.raw_block_in(st, d, s, s.idxs[-1], cnt, w[1])

    def memcpy(self, st, d, s, n):
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            raise Unsupported("memcpy operands")
        if n == 0:
            return
        if n <= 64 and self.is_bytes(st, s) != self.is_bytes(st, d) and self.is_bytes(st, s if self.is_bytes(st, s) else d):
            self.raw_copy(st, d, s, n)
            return
        # element-wise when both point into arrays and several elements are copied
        def multi(p):
            return p.steps and p.off == 0 and p.steps[-1][0] in ("arr", "buf") and p.steps[-1][2] and n > p.steps[-1][2]
        if not multi(d) and not multi(s):
            # whole-array copies through the containing object vs. array step
            self.copy_region(st, d, s, n)
            return

        def view(p):
            if multi(p):
                return p
            q = self.canon(st, p, None)
            if q is p:
                return p
            # strip to the outermost array step introduced at p.off
            k = len(p.steps)
            base = Ptr(q.root, q.steps[:k + 1], q.idxs[:k + 1], 0)
            return base
        d2, s2 = view(d), view(s)
        if not (d2.steps and s2.steps) or d2.steps[-1][2] != s2.steps[-1][2]:
            raise Unsupported("array memcpy shape %r %r %d" % (d, s, n))
        S = d2.steps[-1][2]
        if n % S or n // S > 64:
            raise Unsupported("array memcpy size")
        for i in range(n // S):
            self.copy_region(st, d2.withidx(self.iadd(d2.idxs[-1], i)), s2.withidx(self.iadd(s2.idxs[-1], i)), S)

    # ---- entry
    def run_entry(self, fname, args, st, on_ret, on_throw):
        f = self.m.funcs[fname]
        self.push(st, f, args, None)

        def cont(s, v, work):
            on_ret(s, v)
            return None

        def ct(s, work):
            on_throw(s)
            return None
        cont.on_throw = ct
        st.frames[-1].cont = cont
        self.explore([st])

    def run_sub(self, st, f, args):
        """run an IR function to completion from a contract (single path)"""
        outs = []
        s = st.clone()
        self.push(s, f, args, None)

        def cont(s2, v, work):
            outs.append((s2, v))
            return None
        s.frames[-1].cont = cont
        self.explore([s])
        return outs


class PushFrame(Exception):
    def __init__(self, fn, args):
        self.fn, self.args = fn, args


class Call:
    """context handed to a contract"""

    def __init__(self, ex, st, f, name, args, I, mm):
        self.ex, self.st, self.f, self.name, self.args, self.I, self.m = ex, st, f, name, args, I, mm
        self.dem = f.dem

    def throws(self, tname="_ZTISt12out_of_range"):
        return tname


class View:
    """read-only accessor used in specifications"""

    def __init__(self, ex, st):
        self.ex, self.st = ex, st

    def rd(self, p, ty):
        return self.ex.read(self.st, p, ty)

    def arr(self, p, ty):
        """raw (array) value of the cell family at p's path, selected by p.idxs"""
        k = (p.root, p.steps, p.off, ty)
        v = self.st.mem.get(k)
        if v is None:
            v = self.ex.mat_in(self.st.mem, self.st.rules, k, self.st)
        return seln(v, p.idxs)

    @property
    def ghost(self):
        return self.st.ghost


class Offer:
    """candidate loop invariant: form(k, state) -> formula, facts(k, state) -> assumed instances of definitions"""

    def __init__(self, label, form, facts=None, ms=3000):
        self.label, self.form, self._facts, self.key, self.ms = label, form, facts, None, ms

    def facts(self, k, S):
        return self._facts(k, S) if self._facts else []


class LoopSpec:
    """subclass or build with keyword callables"""

    def __init__(self, inv=None, facts=None, step_facts=None, forms=None, offers=None):
        self._inv, self._facts, self._sf, self._forms, self._offers = inv, facts, step_facts, forms, offers

    def offers(self, L, ex, key, v0):
        return self._offers(L, ex, key, v0) if self._offers else []

    def invariant(self, L, v, k):
        return self._inv(L, v, k) if self._inv else []

    def facts(self, L, v, k):
        return self._facts(L, v, k) if self._facts else []

    def step_facts(self, L, v, k):
        return self._sf(L, v, k) if self._sf else []

    def forms(self, L):
        return self._forms(L) if self._forms else []
