"""Contracts of the vector operations, stated over the inner product.

A vector is the array of its coordinates; DOT is the scalar product.  The
contracts say what C09 proves coordinate by coordinate (and what the entries
"bilinear/..." prove from the code): sums, differences and multiples are
linear in every scalar product.  With them the arguments about orthogonality
hold for every dimension and need no coordinates."""
from .meshlib import *
from gtv.core import seln, ston
VA = z3.ArraySort(INT, z3.RealSort())
DOT = z3.Function("DOT", VA, VA, z3.RealSort())


def cell(p):
    q = p.step("arr", 0, 8, "double")
    return (q.root, q.steps, 0, "f64"), p.idxs


def vec(ex, st, p):
    """the coordinate array of the vector at p"""
    k, ix = cell(p)
    a = st.mem.get(k)
    if a is None:
        a = ex.mat_in(st.mem, st.rules, k, st)
    return seln(a, ix)


def set_vec(ex, st, p, v):
    k, ix = cell(p)
    a = st.mem.get(k)
    if a is None:
        a = ex.mat_in(st.mem, st.rules, k, st)
    st.mem[k] = ston(a, ix, v)


MUL = z3.Function("MUL", z3.RealSort(), z3.RealSort(), z3.RealSort())     # the product, seen through the axioms below


def mul_is_product(a, b):
    """instance of the definition of MUL"""
    return MUL(a, b) == a * b


def axioms():
    a, b = z3.Consts("a!v b!v", VA)
    c, d = z3.Reals("c!v d!v")
    return [z3.ForAll([a, b], DOT(a, b) == DOT(b, a), patterns=[DOT(a, b)]),
            z3.ForAll([c, d], z3.And(z3.Implies(d == 0, MUL(c, d) == 0), z3.Implies(d == 1, MUL(c, d) == c)), patterns=[MUL(c, d)])]


def linear(ex, st, terms):
    """a new vector: the linear combination sum c*v"""
    N = z3.Const("vec%d" % next(ex.cnt), VA)
    x = z3.Const("x!v", VA)
    st.assume(z3.ForAll([x], DOT(N, x) == sum(DOT(v, x) if isinstance(c, int) and c == 1 else -DOT(v, x) if isinstance(c, int) else MUL(c, DOT(v, x)) for c, v in terms), patterns=[DOT(N, x)]))
    return N


def quotient(ex, st, v, s):
    """a new vector N = v / s:  s * DOT(N, x) = DOT(v, x)"""
    N = z3.Const("vec%d" % next(ex.cnt), VA)
    x = z3.Const("x!v", VA)
    st.assume(z3.ForAll([x], z3.And(MUL(s, DOT(N, x)) == DOT(v, x), z3.Implies(DOT(v, x) == 0, DOT(N, x) == 0)), patterns=[DOT(N, x)]))
    st.assume(z3.Implies(s * s == DOT(v, v), DOT(N, N) == 1))
    return N


def install(ctx, D, sums=None):
    """contracts for Vertex<D, double>"""
    for f in axioms():
        ctx.st.assume(f)
    Vx = r"^(?:\w.* )?Vertex<%du, double>" % D

    def rd(C, p):
        return C.ex.flit(C.ex.read(C.st, p, "f64"))

    def real(v):
        return z3.RealVal(v) if isinstance(v, (int, Fraction)) else v

    def dot(C):
        a, b = C.args
        return DOT(vec(C.ex, C.st, a), vec(C.ex, C.st, b))

    def bin_(s):
        def f(C):
            out, a, b = C.args
            set_vec(C.ex, C.st, out, linear(C.ex, C.st, [(1, vec(C.ex, C.st, a)), (s, vec(C.ex, C.st, b))]))
        return f

    def inp(s):
        def f(C):
            a, b = C.args
            set_vec(C.ex, C.st, a, linear(C.ex, C.st, [(1, vec(C.ex, C.st, a)), (s, vec(C.ex, C.st, b))]))
            return a
        return f

    def mul(C):
        out, a, s = C.args
        set_vec(C.ex, C.st, out, linear(C.ex, C.st, [(real(rd(C, s)), vec(C.ex, C.st, a))]))

    def lmul(C):
        out, s, a = C.args
        set_vec(C.ex, C.st, out, linear(C.ex, C.st, [(real(rd(C, s)), vec(C.ex, C.st, a))]))

    def quot(C, a, s):
        s = real(rd(C, s))
        C.ex.oblige(C.st, "no division of a vector by zero", s != 0)
        C.st.assume(s != 0)
        return quotient(C.ex, C.st, vec(C.ex, C.st, a), s)

    def div(C):
        out, a, s = C.args
        set_vec(C.ex, C.st, out, quot(C, a, s))

    def imul(C):
        a, s = C.args
        set_vec(C.ex, C.st, a, linear(C.ex, C.st, [(real(rd(C, s)), vec(C.ex, C.st, a))]))
        return a

    def idiv(C):
        a, s = C.args
        set_vec(C.ex, C.st, a, quot(C, a, s))
        return a

    def sos(C):
        v = vec(C.ex, C.st, C.args[0])
        r = DOT(v, v)
        C.st.assume(r >= 0)
        if sums:
            sums(C, r)
        return r

    def norm(C):
        v = vec(C.ex, C.st, C.args[0])
        q = DOT(v, v)
        r = z3.Real("norm%d" % next(C.ex.cnt))
        C.st.assume(q >= 0)
        C.st.assume(z3.And(r >= 0, r * r == q))
        if sums:
            sums(C, q)
            C.st.assume(r > 0)
        return r
    c = ctx.contract
    c(Vx + r"::operator\*\(Vertex<%du, double> const&\) const$" % D, dot)
    c(Vx + r"::operator\*<double>\(double const&\) const$", mul)
    c(r"^Vertex<%du, double> operator\*<%du, double>\(double const&, Vertex<%du, double> const&\)$" % (D, D, D), lmul)
    c(Vx + r"::operator/<double>\(double const&\) const$", div)
    c(Vx + r"::operator\*=<double>\(double const&\)$", imul)
    c(Vx + r"::operator/=<double>\(double const&\)$", idiv)
    c(Vx + r"::operator-\(Vertex<%du, double> const&\) const$" % D, bin_(-1))
    c(Vx + r"::operator\+\(Vertex<%du, double> const&\) const$" % D, bin_(1))
    c(Vx + r"::operator-=\(Vertex<%du, double> const&\)$" % D, inp(-1))
    c(Vx + r"::operator\+=\(Vertex<%du, double> const&\)$" % D, inp(1))
    c(Vx + r"::sumOfSquares\(\)(?: const)?$", sos)
    c(Vx + r"::normEuclid\(\)(?: const)?$", norm)
