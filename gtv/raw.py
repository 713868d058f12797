"""The byte view of scalar objects.

Memory cells are typed.  Code that looks at an object through unsigned char
(serialization, memcpy into byte buffers) sees byte q of an n-byte scalar v as
byte(v, q); bytes put together again are join(b0, ..., bn-1), and join is the
inverse of byte.  Nothing is assumed about which byte is which (endianness)."""
import z3
from . import ir
from .core import *


class Raw:
    def wide_at(self, st, p):
        """the multi-byte scalar containing the byte at p: (pointer to it, type, byte number) or None"""
        p = self.canon(st, p, None)
        t = self.pointee(st, p)
        if t is None:
            return None
        off = p.off
        try:
            t = self.m.res(t)
            while t.k == "struct":
                for o, ft in zip(self.m.offsets(t), t.a):
                    if o <= off < o + self.m.size(ft):
                        off -= o
                        t = self.m.res(ft)
                        break
                else:
                    return None
        except ir.IRError:
            return None
        if t.k not in ("int", "f64", "f32"):
            return None
        n = self.m.size(t)
        if n < 2 or off >= n:
            return None
        return Ptr(p.root, p.steps, p.idxs, p.off - off), t, off

    def raw_fns(self, t):
        n = self.m.size(t)
        c = self.cty(t)
        s = self.sort_of(c)
        return n, s, z3.Function("byte_" + c, s, INT, INT), z3.Function("join_" + c, *([INT] * n), s), z3.Function("put_" + c, s, INT, INT, s)

    def raw_axiom(self, v, t):
        """v is the join of its bytes"""
        n, s, B, J, P = self.raw_fns(t)
        return [J(*[B(v, z3.IntVal(i)) for i in range(n)]) == v] + [z3.And(B(v, z3.IntVal(i)) >= 0, B(v, z3.IntVal(i)) < 256) for i in range(n)]

    def raw_puts(self, v, t):
        """(base value, {byte: value}) of a chain of byte stores"""
        n, s, B, J, P = self.raw_fns(t)
        d = {}
        while z3.is_expr(v) and z3.is_app(v) and v.num_args() == 3 and v.decl().eq(P) and z3.is_int_value(v.arg(1)):
            d.setdefault(v.arg(1).as_long(), v.arg(2))
            v = v.arg(0)
        return v, d

    def raw_byte(self, st, v, t, q):
        n, s, B, J, P = self.raw_fns(t)
        v, d = self.raw_puts(v, t)
        if q in d:
            return d[q]
        v = self.lift(v, s)
        if z3.is_app(v) and v.decl().eq(J):
            return v.arg(q)
        for f in self.raw_axiom(v, t):
            st.assume(f)
        return B(v, z3.IntVal(q))

    def raw_put(self, st, v, t, q, b):
        n, s, B, J, P = self.raw_fns(t)
        v = self.lift(v, s)
        base, d = self.raw_puts(v, t)
        d = dict(d)
        d[q] = zi(b)
        if len(d) == n:
            r = J(*[d[i] for i in range(n)])
            if t.k == "int":
                st.assume(z3.And(r >= 0, r < (1 << t.n)))
            return r
        if z3.is_app(base) and base.decl().eq(J):
            r = J(*[d.get(i, base.arg(i)) for i in range(n)])
            if t.k == "int":
                st.assume(z3.And(r >= 0, r < (1 << t.n)))
            return r
        for i in sorted(d):
            base = P(base, z3.IntVal(i), d[i])
        return base

    def byte_ptr(self, st, p, q):
        p = self.canon(st, p, None)
        if p.steps and p.steps[-1][0] in ("arr", "buf") and p.steps[-1][2] and p.off + q >= p.steps[-1][2]:
            S = p.steps[-1][2]
            return p.withidx(self.iadd(p.idxs[-1], (p.off + q) // S)).add((p.off + q) % S - p.off)
        return p.add(q)

    def raw_copy(self, st, d, s, n):
        """n bytes from s to d, at least one of which is a byte buffer"""
        for q in range(n):
            x = self.load(st, self.byte_ptr(st, s, q), ir.IntTy(8))
            self.store(st, self.byte_ptr(st, d, q), ir.IntTy(8), x)

    def is_bytes(self, st, p):
        """does p point at an element of an array of bytes?"""
        p = self.canon(st, p, None)
        return bool(p.steps and p.off == 0 and p.steps[-1][0] in ("arr", "buf") and p.steps[-1][2] == 1)

    def raw_key(self, p, t):
        return (p.root, p.steps, p.off, self.cty(t))

    def raw_block_out(self, st, dst, n0, src, i0, cnt, t):
        """bytes of the scalars src[i0 .. i0+cnt) appended to the byte buffer dst at n0"""
        n, s, B, J, P = self.raw_fns(t)
        a = seln(self.mat_in(st.mem, st.rules, self.raw_key(src, t), st), src.idxs[:-1])
        dk = (dst.root, dst.steps, dst.off, "i8")
        old = self.mat_in(st.mem, st.rules, dk, st)
        oldb = seln(old, dst.idxs[:-1])
        new = self.fresh("raw", oldb.sort())
        i = z3.Int("i!r")
        at = lambda k: z3.Select(a, k + zi(i0)) if not (isinstance(i0, int) and i0 == 0) else z3.Select(a, k)
        st.assume(z3.ForAll([i], z3.Implies(i < zi(n0), z3.Select(new, i) == z3.Select(oldb, i)), patterns=[z3.Select(new, i)]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(cnt)), z3.And(*[z3.Select(new, zi(n0) + n * i + q) == B(at(i), z3.IntVal(q)) for q in range(n)], *self.raw_axiom(at(i), t))), patterns=[at(i)]))
        st.mem[dk] = ston(old, dst.idxs[:-1], new)

    def raw_block_in(self, st, dst, src, p0, cnt, t):
        """the scalars dst[0 .. cnt) become the joins of the bytes at src[p0 ..)"""
        n, s, B, J, P = self.raw_fns(t)
        b = seln(self.mat_in(st.mem, st.rules, (src.root, src.steps, src.off, "i8"), st), src.idxs[:-1])
        dk = self.raw_key(dst, t)
        old = self.mat_in(st.mem, st.rules, dk, st)
        oldb = seln(old, dst.idxs[:-1])
        new = self.fresh("raw", oldb.sort())
        i = z3.Int("i!r")
        d0 = dst.idxs[-1]
        x = z3.Select(new, i)
        j = i - zi(d0) if not (isinstance(d0, int) and d0 == 0) else i
        inn = z3.And(0 <= j, j < zi(cnt))
        st.assume(z3.ForAll([i], z3.If(inn, x == J(*[z3.Select(b, zi(p0) + n * j + q) for q in range(n)]), x == z3.Select(oldb, i)), patterns=[x]))
        st.mem[dk] = ston(old, dst.idxs[:-1], new)
