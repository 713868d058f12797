"""Base for property specifications."""
import re
import z3
from .core import *
from . import ir
from .exec import Exec, Outcome, LoopSpec, Offer, View, Call, Unsupported
from .stdlib import StdContracts, set_axioms

STD = StdContracts()


class Entry:
    def __init__(self, name, driver, fn, flags=(), fmode="real", tier="quick", budget=20, timeout=600):
        self.name, self.driver, self.fn, self.flags = name, driver, fn, tuple(flags)
        self.fmode, self.tier, self.budget, self.timeout = fmode, tier, budget, timeout


class SpecObj:
    """what Exec needs from a specification"""

    def __init__(self):
        self.contracts = []
        self.loops = {}
        self.loopfn = None
        self.unroll_const = False

    def loop(self, L):
        if self.loopfn is not None:
            r = self.loopfn(L)
            if r is not None:
                return r
        return self.loops.get(L.name)


class Ctx:
    def __init__(self, mod, fmode="real"):
        self.mod = mod
        self.spec = SpecObj()
        self.ex = Exec(mod, self.spec, STD, fmode)
        self.st = State()
        self.base = None
        self.skip = []
        for g, ent in mod.globals.items():
            self.st.roots["@" + g] = ent[0]
        for f in set_axioms():
            self.st.assume(f)
        self.covers = self.ex.covers_d = {}
        self.contract(r"^gv_nop", lambda C: None)

    # -- helpers
    def nocover(self, rx):
        """these reachability covers are not expected (e.g. the loop cannot
        iterate for the stated capacity)"""
        self.skip.append(re.compile(rx))

    def contract(self, rx, fn):
        self.spec.contracts.append((rx, fn))

    def fresh(self, n, lo=0, hi=None, bits=64):
        v = z3.Int(n)
        self.st.assume(v >= lo)
        self.st.assume(v < (1 << bits) if hi is None else v < hi)
        return v

    def assume(self, *fs):
        for f in fs:
            self.st.assume(f)

    def obs(self, fname, st=None):
        """observer: evaluates an IR function on a state, returns a python callable"""
        ex = self.ex

        def call(view, *args):
            s0 = view.st if isinstance(view, View) else view
            # (reads may materialise lazily initialised cells: do that in the state itself)
            c0, o0 = ex.checking, len(ex.obls)
            ex.checking = False
            try:
                s = s0.clone()
                # restrict to the non-throwing path
                s.loops = []
                outs = ex.run_sub(s, ex.m.funcs[fname], list(args))
            finally:
                ex.checking = c0
            if len(outs) != 1:
                raise Unsupported("observer %s has %d outcomes" % (fname, len(outs)))
            s2, v = outs[0]
            for k in s2.mem:
                if k not in s0.mem and (k[0].startswith("@")):
                    s0.mem[k] = s2.mem[k]
            if is_sym(v) and z3.is_int(v) and not z3.is_int_value(v):
                s0.assume(z3.And(v >= 0, v < (1 << 64)))
            return v
        return call

    def run(self, fname, args, post, throws=None, st=None, name=None):
        """verify: on normal return post(view, value) yields (name, goal)s;
        on exception throws(view) likewise (None: exceptions are forbidden)"""
        ex = self.ex
        st = (st or self.st).clone()
        nm = name or fname
        nret = [0]

        def on_ret(s, v):
            nret[0] += 1
            ex.covers_d.setdefault(nm + ": normal return reachable", []).append(list(s.pc))
            vw = View(ex, s)
            for n, g in post(vw, v):
                ex.oblige(s, nm + ": " + n, g)

        def on_throw(s):
            if throws is None:
                ex.oblige(s, nm + ": no exception (%s) escapes" % s.exc, z3.BoolVal(False))
                return
            ex.covers_d.setdefault(nm + ": exceptional return reachable", []).append(list(s.pc))
            for n, g in throws(View(ex, s)):
                ex.oblige(s, nm + ": on exception: " + n, g)
        ex.loopnames = {}
        ex.run_entry(fname, args, st, on_ret, on_throw)
        return nret[0]
