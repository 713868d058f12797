"""Contracts of std::to_string, of string concatenation and of std::unordered_map<std::string, integer>.

Texts are coded by integers; the code of the text  a;b  determines the numbers a and b
(decimal numbers contain no ';'), nothing is assumed about other texts."""
import re
import z3
from gtv.core import *
from gtv.core import Unsupported
from gtv import ir
from gtv.exec import Outcome

NUMT = z3.Function("s_num", INT, INT)
CATT = z3.Function("s_cat", INT, INT, INT)
LITT = z3.Function("s_lit", INT, INT)
KA = z3.Function("s_first", INT, INT)
KB = z3.Function("s_second", INT, INT)
SEP = LITT(z3.IntVal(ord(";")))


def KEY(a, b):
    return CATT(CATT(NUMT(a), SEP), NUMT(b))


def lit_code(s):
    n = 0
    for c in s:
        n = n * 256 + ord(c)
    return z3.IntVal(n)


class StrMap:
    def __init__(self, ctx, literal):
        self.ctx, self.literal = ctx, literal
        c = ctx.contract
        c(r"^(std::)?(__cxx11::)?(std::__cxx11::)?(basic_string<.*> |std::__cxx11::basic_string<.*> )?(std::)?(__cxx11::)?to_string\((unsigned long|int|unsigned int|long|unsigned long long)\)", self.to_string)
        c(r"std::operator\+(<.*>)?\(.*basic_string|std::operator\+(<.*>)?\(std::(__cxx11::)?string", self.concat)
        c(r"^std::unordered_map<.*>::unordered_map\(\)", self.ctor)
        c(r"^std::unordered_map<.*>::~unordered_map\(\)", lambda C: None)
        c(r"^std::unordered_map<.*>::find\(", self.find)
        c(r"^std::unordered_map<.*>::c?end\(\)", self.end)
        c(r"^std::unordered_map<.*>::operator\[\]\(", self.index)
        c(r"^(bool )?std::__detail::operator==\(std::__detail::_Node_iterator_base<|^std::__detail::operator==.*_Node_iterator_base", self.eq)
        c(r"^std::__detail::_Node_(const_)?iterator<.*>::operator->\(\)", self.arrow)
        a, b = z3.Ints("a! b!")
        ctx.assume(z3.ForAll([a, b], z3.And(KA(KEY(a, b)) == a, KB(KEY(a, b)) == b), patterns=[KEY(a, b)]))

    def key(self, p):
        return "str:%r" % (p,)

    def get(self, C, p):
        t = C.st.ghost.get(self.key(p))
        if t is None:
            raise Unsupported("text of " + repr(p))
        return t

    def to_string(self, C):
        C.st.ghost[self.key(C.args[0])] = NUMT(zi(C.args[1]))
        return None

    def concat(self, C):
        def txt(p):
            s = self.literal(C.ex, p)
            return LITT(lit_code(s)) if s is not None else self.get(C, p)
        C.st.ghost[self.key(C.args[0])] = CATT(txt(C.args[1]), txt(C.args[2]))
        return None

    def dom(self, s):
        return "dom:%r" % (s,)

    def ctor(self, C):
        C.st.ghost[self.dom(C.args[0])] = z3.K(INT, z3.BoolVal(False))

    def cell(self, s, k):
        return s.step("map", k, None, "")

    def find(self, C):
        s, k = C.args[0], self.get(C, C.args[1])
        present = z3.Select(C.st.ghost[self.dom(s)], k)
        outs = []
        s1 = C.st.clone()
        s1.assume(present)
        if C.ex.feasible(s1):
            outs.append(Outcome(s1, self.cell(s, k)))
        C.st.assume(z3.Not(present))
        if C.ex.feasible(C.st):
            outs.append(Outcome(C.st, s.step("mapend", 0, None, "")))
        return outs

    def end(self, C):
        return C.args[0].step("mapend", 0, None, "")

    def eq(self, C):
        p, q = (C.ex.read(C.st, a, "ptr") for a in C.args)
        x, y = p.steps[-1][0], q.steps[-1][0]
        if {x, y} <= {"map", "mapend"}:
            if x != y:
                return 0
            if x == "mapend":
                return 1
            return z3.If(zi(p.idxs[-1]) == zi(q.idxs[-1]), z3.IntVal(1), z3.IntVal(0))
        raise Unsupported("comparison of iterators")

    def arrow(self, C):
        p = C.ex.read(C.st, C.args[0], "ptr")
        if p.steps[-1][0] != "map":
            raise Unsupported("iterator dereferenced at the end")
        return p

    def index(self, C):
        s, k = C.args[0], self.get(C, C.args[1])
        d = C.st.ghost[self.dom(s)]
        q = self.cell(s, k).add(32)
        outs = []
        s1 = C.st.clone()
        s1.assume(z3.Select(d, k))
        if C.ex.feasible(s1):
            outs.append(Outcome(s1, q))
        C.st.assume(z3.Not(z3.Select(d, k)))
        if C.ex.feasible(C.st):
            C.ex.store(C.st, q, ir.IntTy(64), z3.IntVal(0))
            C.st.ghost[self.dom(s)] = z3.Store(d, k, z3.BoolVal(True))
            outs.append(Outcome(C.st, q))
        return outs
