from .meshlib import *
HARNESS = [("h_c01.cpp", [])]


def mk(dim, S, T, one=False, res=None):
    H, Lo = max(S, T), min(S, T)

    def fn(ctx):
        m = Mesh(ctx, dim)
        st = ctx.st
        t0 = z3.Const("t0", Tr)
        st.ghost["tr"] = t0
        desc = S > T

        def visit(acc, o, x):
            return app(acc, o, x) if desc else app(acc, x, o)

        def gv(C):
            a, b = C.args
            C.st.ghost["tr"] = app(C.st.ghost["tr"], zi(a), zi(b))
            return None
        ctx.contract(r"^gv_visit$", gv)
        c = None
        v = View(ctx.ex, st)
        args = []
        if one:
            c = ctx.fresh("c0")
            ctx.assume(c < m.n(v, H))
            args = [c]
        w = Walk(m, H, Lo, visit, one=c)
        ctx.spec.loopfn = lambda L: w.loopspec(L)
        if one:
            if H == dim:
                ctx.assume(m.wf_cell(v, c), m.wf_ring(v, c, z3.IntVal(0)))
            elif H == 2:
                ctx.assume(m.wf_sub(v, c, z3.IntVal(0)))
            goal = w.elem(v, H, c, t0, c)
        else:
            goal = w.S["full"](zi(m.n(v, H)), t0)
        ctx.run("drv_%s_%d%d" % ("one" if one else "apply", S, T), args, lambda v, r: [("visit sequence is exactly the incidence sequence", v.ghost["tr"] == goal)])
    nm = "apply%dD_%s%d%d%s" % (dim, "one" if one else "", S, T, "_res%d" % res if res else "")
    return Entry(nm, "apply.cpp", fn, ("-DGV_DIM=%d" % dim,) + (("-DGV_RES=%d" % res,) if res else ()))


def entries():
    r = []
    for dim in (3, 2):
        for res in ((None, 6) if dim == 3 else (None,)):
            for S in range(dim, -1, -1):
                for T in range(dim, -1, -1):
                    r.append(mk(dim, S, T, False, res))
                    if S > T:
                        r.append(mk(dim, S, T, True, res))
    return r
