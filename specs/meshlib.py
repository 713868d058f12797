"""Symbolic mesh model shared by the mesh specifications."""
import z3
from gtv.core import *
from gtv.spec import *

Tr = z3.DeclareSort("Tr")
app = z3.Function("app", Tr, INT, INT, Tr)
ring = z3.Function("ring", INT, INT, INT)      # ring(c,k): k-th boundary element of cell c
rlen = z3.Function("rlen", INT, INT)
INV = (1 << 64) - 1
BOUND = 1 << 63


class Mesh:
    def __init__(self, ctx, dim):
        self.ctx, self.dim = ctx, dim
        names = ["nc", "nf", "ne", "nv", "nb", "bnd", "left", "right", "nleft", "nright", "ea", "eb"] + (["nsub", "sub"] if dim == 3 else [])
        for n in names:
            if "ob_" + n in ctx.mod.funcs:
                setattr(self, n, ctx.obs("ob_" + n))

    def n(self, v, d):
        if d == self.dim:
            return self.nc(v)
        if d == 0:
            return self.nv(v)
        if d == 1 and self.dim == 3:
            return self.ne(v)
        return self.nf(v)

    def nxt(self, v, c, f):
        return z3.If(zi(self.right(v, f)) == c, zi(self.nright(v, f)), zi(self.nleft(v, f)))

    # instances of the well-formedness precondition
    def wf_cell(self, v, c):
        return z3.Implies(z3.And(c >= 0, c < self.nc(v)),
                          z3.And(rlen(c) >= 1, rlen(c) < (1 << 60), ring(c, 0) == self.bnd(v, c), ring(c, rlen(c)) == self.bnd(v, c)))

    def wf_ring(self, v, c, k):
        f = ring(c, k)
        return z3.Implies(z3.And(c >= 0, c < self.nc(v), k >= 0, k < rlen(c)),
                          z3.And(f >= 0, f < self.nf(v), z3.Or(self.left(v, f) == c, self.right(v, f) == c),
                                 ring(c, k + 1) == self.nxt(v, c, f),
                                 z3.Implies(k > 0, f != self.bnd(v, c))))

    def wf_sub(self, v, f, i):
        return z3.Implies(z3.And(f >= 0, f < self.nf(v)),
                          z3.And(self.nsub(v, f) < (1 << 32), z3.Implies(z3.And(i >= 0, i < self.nsub(v, f)), z3.And(self.sub(v, f, i) >= 0, self.sub(v, f, i) < self.ne(v)))))

    def wf_edge(self, v, e):
        return z3.Implies(z3.And(e >= 0, e < self.ne(v)), z3.And(self.ea(v, e) >= 0, self.ea(v, e) < self.nv(v), self.eb(v, e) >= 0, self.eb(v, e) < self.nv(v)))


class Walk:
    """Specification of the traversal of all (or one) H-dimensional elements
    down to dimension T, visiting through an arbitrary ghost accumulator.
    visit(acc, orig, x) -> acc   is the specification of one visit."""

    def __init__(self, mesh, H, T, visit, sort=Tr, one=None, tag="", base=""):
        self.m, self.H, self.T, self.visit, self.sort = mesh, H, T, visit, sort
        self.one = one
        self.base = base
        self.lv = []
        if one is None:
            self.lv.append(("full", H))
        for d in range(H, T, -1):
            if d == mesh.dim:
                self.lv.append(("ring", d))
            elif d >= 2:
                self.lv.append(("sub", d))
        t = tag + "%d%d" % (H, T)
        self.S = {"ring": z3.Function("S_ring" + t, INT, INT, sort, INT, sort), "sub": z3.Function("S_sub" + t, INT, INT, sort, INT, sort),
                  "full": z3.Function("S_full" + t, INT, sort, sort)}

    # value of the accumulator after processing element x of dimension d
    def elem(self, v, d, x, acc, o):
        if d == self.T:
            return self.visit(acc, o, x)
        if d == self.m.dim:
            return self.S["ring"](x, rlen(x), acc, o)
        if d >= 2:
            return self.S["sub"](x, zi(self.m.nsub(v, x)), acc, o)
        return self.visit(self.visit(acc, o, zi(self.m.ea(v, x))), o, zi(self.m.eb(v, x)))

    def level(self, L):
        """index of the walk level of the cut loop L, or None"""
        n = L.name
        if self.base:
            if not n.startswith(self.base + "."):
                return None
            n = n[len(self.base) + 1:]
        p = n.split(".")
        if any(x != "0" for x in p) or len(p) > len(self.lv):
            return None
        return len(p) - 1

    def x_of(self, L):
        """(element the loop iterates under, orig)"""
        j = self.level(L)
        if j == 0:
            return (None, None) if self.lv[0][0] == "full" else (self.one, self.one)
        xp, o = self.x_of(L.parent)
        kp = L.parent.k
        kind = self.lv[j - 1][0]
        if kind == "full":
            return kp, kp
        if kind == "ring":
            return ring(xp, kp), o
        return zi(self.m.sub(L.entry, xp, kp)), o

    def child(self, v, kind, x, k):
        if kind == "full":
            return k
        if kind == "ring":
            return ring(x, k)
        return zi(self.m.sub(v, x, k))

    def bound(self, v, kind, x):
        if kind == "full":
            return zi(self.m.n(v, self.H))
        if kind == "ring":
            return rlen(x)
        return zi(self.m.nsub(v, x))

    def spec_acc(self, L, acc0, k):
        j = self.level(L)
        kind = self.lv[j][0]
        x, o = self.x_of(L)
        if kind == "full":
            return self.S["full"](k, acc0)
        return self.S[kind](x, k, acc0, o)

    def base_fact(self, L, acc0):
        return self.spec_acc(L, acc0, z3.IntVal(0)) == acc0

    def unfold(self, L, v, acc0, k):
        j = self.level(L)
        kind, d = self.lv[j]
        x, o = self.x_of(L)
        ch = self.child(v, kind, x, k)
        if kind == "full":
            o = k
        d2 = d if kind == "full" else d - 1
        return self.spec_acc(L, acc0, k + 1) == self.elem(v, d2, ch, self.spec_acc(L, acc0, k), o)

    def wf(self, L, v, k):
        """precondition instances needed in one iteration of L"""
        j = self.level(L)
        kind, d = self.lv[j]
        x, o = self.x_of(L)
        m = self.m
        r = []
        if kind == "full":
            if d == m.dim:
                r.append(m.wf_cell(v, k))
            if d == m.dim - 1 and d == 2:
                r.append(m.wf_sub(v, k, z3.IntVal(0)))
            if d == 1:
                r.append(m.wf_edge(v, k))
        elif kind == "ring":
            r += [m.wf_cell(v, x), m.wf_ring(v, x, k), m.wf_ring(v, x, k + 1)]
            if m.dim == 3:
                r.append(m.wf_sub(v, ring(x, k), z3.IntVal(0)))
            else:
                r.append(m.wf_edge(v, ring(x, k)))
        else:
            r += [m.wf_sub(v, x, k), m.wf_edge(v, zi(m.sub(v, x, k)))]
        return r

    def loopspec(self, L, acc="tr", extra=None, acc_offers=None, more_offers=None):
        """acc: name of the ghost accumulator, or None; acc_offers: the sort of
        set-like memory cells that may play the role of the accumulator"""
        if self.level(L) is None:
            return None
        acc0 = L.entry.ghost[acc] if acc else None
        kind = self.lv[self.level(L)][0]
        x, o = self.x_of(L)

        def inv(L, v, k):
            b = self.bound(v, kind, x)
            r = [("visited exactly the incidences of the processed elements", v.ghost[acc] == self.spec_acc(L, acc0, k))] if acc else []
            r += [("iteration bounded (termination)", k < b if kind == "ring" else k <= b)]
            if extra:
                r += extra(L, v, k)
            return r

        def facts(L, v, k):
            return ([self.base_fact(L, acc0), self.unfold(L, v, acc0, k)] if acc else []) + self.wf(L, v, k)

        def offers(L, ex, key, v0):
            r = []
            if key[3] == "dom" and acc_offers is not None:
                srt = ex.sort_of("dom")
                for _ in key[1]:
                    srt = z3.ArraySort(INT, srt)
                if srt == acc_offers:
                    a0 = ex.lift(v0, srt)

                    def form(k, S):
                        return S.mem[key] == self.spec_acc(L, a0, k)

                    def fct(k, S):
                        vw = View(ex, S)
                        return [self.base_fact(L, a0), self.unfold(L, vw, a0, k), z3.Implies(k >= 1, self.unfold(L, vw, a0, k - 1))]
                    r.append(Offer("set holds exactly the incidences of the processed elements", form, fct))
            if more_offers:
                r += more_offers(L, ex, key, v0)
            return r

        def forms(L):
            if kind == "ring":
                return [("i64", lambda k: ring(x, k))]
            return []
        return LoopSpec(inv, facts, facts, forms, offers)
