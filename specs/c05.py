"""Face-to-cell links: complete functional contracts of every operation."""
from .meshlib import *
HARNESS = [("h_c05.cpp", [])]
HARNESS_WHAT = "random operation sequences on faces against a reference record, seeded"
EXPLORED = "all states and arguments (symbolic), per operation"


def mk(op, bits, kind):
    IN = (1 << bits) - 1

    def fn(ctx):
        v0 = View(ctx.ex, ctx.st)
        ob = [ctx.obs("ob_" + n) for n in ("l", "r", "nl", "nr")]
        for o in ob:      # materialise, with the range of the index type
            x = zi(o(v0))
            ctx.assume(x >= 0, x <= IN)
        S0 = [zi(o(v0)) for o in ob]
        l, r, nl, nr = S0

        def same(vw, exp, what="state"):
            return [("%s: %s" % (what, n), zi(o(vw)) == e) for o, e, n in zip(ob, exp, ("left cell", "right cell", "next of left", "next of right"))]
        F, T, If, And, Or, Not = z3.BoolVal(False), z3.BoolVal(True), z3.If, z3.And, z3.Or, z3.Not

        def b(x):
            return x != 0 if not z3.is_bool(x) else x
        args, throws = [], None
        if op == "setcell":
            c = ctx.fresh("c", bits=bits)
            args = [c]
            tl = And(c != IN, l == IN)
            tr = And(c != IN, l != IN, r == IN)

            def post(vw, rv):
                return [("reports success exactly when a side was free", b(zi(rv)) == Or(tl, tr))] + same(vw, [If(tl, c, l), If(tr, c, r), nl, nr])
        elif op in ("setleft", "setright", "setnl", "setnr"):
            c = ctx.fresh("c", bits=bits)
            args = [c]
            i = ["setleft", "setright", "setnl", "setnr"].index(op)

            def post(vw, rv):
                return same(vw, [c if k == i else S0[k] for k in range(4)])
        elif op == "setnext":
            n, c = ctx.fresh("n", bits=bits), ctx.fresh("c", bits=bits)
            args = [n, c]
            ok = And(c != IN, Or(l == c, r == c, l == IN, r == IN))
            left = And(c != IN, Or(l == c, And(r != c, l == IN)))
            right = And(ok, Not(left))

            def post(vw, rv):
                return [("succeeds exactly for a touching cell or a free side", b(zi(rv)) == ok)] + same(vw, [If(left, c, l), If(right, c, r), If(left, n, nl), If(right, n, nr)])
        elif op in ("getnext", "other"):
            c = ctx.fresh("c", bits=bits)
            args = [c]
            touch = And(c != IN, Or(l == c, r == c))

            def post(vw, rv):
                if op == "getnext":
                    val = If(r == c, nr, nl)
                else:
                    val = If(r == c, l, r)
                return [("answers only for a touching cell", touch), ("answers for the side of the cell", zi(rv) == val)] + same(vw, S0)

            def throws(vw):
                return [("refuses only an invalid or foreign cell", Not(touch))] + same(vw, S0)
        elif op == "ok":
            def post(vw, rv):
                return [("both sides occupied", b(zi(rv)) == And(l != IN, r != IN))] + same(vw, S0)
        elif op == "swap":
            def post(vw, rv):
                return same(vw, [r, l, nl, nr])
        elif op == "roundtrip":
            n, c = ctx.fresh("n", bits=bits), ctx.fresh("c", bits=bits)
            args = [n, c]
            ctx.assume(c != IN, Or(l == c, r == c, l == IN, r == IN), Not(And(l == c, r == c)), n != c)

            def post(vw, rv):
                return [("the link set for a cell is read back for it", zi(rv) == n)]
        elif op == "default":
            def post(vw, rv):
                return same(vw, [z3.IntVal(IN)] * 4)
        elif op == "ctor":
            args = [ctx.fresh("a%d" % k, bits=bits) for k in range(4)]

            def post(vw, rv):
                return same(vw, args)
        ctx.run("drv_" + op, args, post, throws)
    fl = {"f3": ("-DGV_FACE3",), "f2": ("-DGV_FACE2",), "link": ("-DGV_CTOR",)}[kind]
    return Entry("link_%s_%d_%s" % (op, bits, kind), "link.cpp", fn, fl + (("-DGV_IT=unsigned", ) if bits == 32 else ()))


def entries():
    r = []
    for bits, kind in ((64, "link"), (32, "link"), (64, "f3"), (64, "f2")):
        for op in ("setcell", "setleft", "setright", "setnl", "setnr", "setnext", "getnext", "other", "ok", "swap", "roundtrip") + (("default", "ctor") if kind == "link" else ()):
            r.append(mk(op, bits, kind))
    return r
