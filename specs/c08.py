"""Mesh data containers: allocation, addressing, independence of copies."""
from .meshlib import *
HARNESS = [("h_c08.cpp", [])]
HARNESS_WHAT = "random meshes, several dimension lists and types, histories of reallocation, access in every form, copies"
UTYPES = ["f64"] * 4
TTYPES = ["f64", "i32", "i8", "f32"]


def mk(dims, tup, mdim, op, arg=None, src=None):
    types = (TTYPES if tup else UTYPES)[:len(dims)]
    NP = len(dims)
    first = {d: dims.index(d) for d in dims}
    flags = ["-DGV_DIM=%d" % mdim, "-DGV_DIMS=%s" % ",".join(map(str, dims)), "-DGV_NP=%d" % NP, "-DGV_DIMDEF=" + " ".join("DIM(%d, T%d)" % (d, first[d]) for d in sorted(first))]
    if tup:
        flags.append("-DGV_TUPLE")
    if src:
        flags.append("-DGV_SRC=" + ",".join(map(str, src)))

    def fn(ctx):
        m = Mesh(ctx, mdim)
        P = range(NP)
        on = [ctx.obs("ob_n%d" % p) for p in P]
        ov = [ctx.obs("ob_v%d" % p) for p in P]
        en = [ctx.obs("ob_en%d" % p) for p in P]
        ev = [ctx.obs("ob_ev%d" % p) for p in P]
        sn = [ctx.obs("ob_sn%d" % q) for q in range(4)] if src else None
        v0 = View(ctx.ex, ctx.st.clone())
        j = z3.Int("j*")
        ctx.assume(j >= 0)
        n0 = [zi(f(v0)) for f in on]
        for p in P:
            ctx.assume(n0[p] < (1 << 60), zi(en[p](v0)) < (1 << 60))

        def val(t, nm):
            if t[0] == "f":
                return z3.Real(nm)
            return ctx.fresh(nm, bits=int(t[1:]))

        def same_d(vw, sizes=None):
            r = []
            for p in P:
                r += [zi(on[p](vw)) == n0[p], z3.Implies(j < n0[p], ov[p](vw, j) == ov[p](v0, j))]
            return z3.And(*r)

        def same_e(vw):
            return z3.And(*[z3.And(zi(en[p](vw)) == zi(en[p](v0)), z3.Implies(j < zi(en[p](v0)), ev[p](vw, j) == ev[p](v0, j))) for p in P])
        if op in ("alloc", "ctor", "ctor_d", "alloc_v", "ctor_v", "ctor_dv", "alloc_o", "alloc_ov", "alloc_c", "alloc_cv"):
            if op in ("alloc_o", "alloc_ov"):
                # the first array of a dimension decides
                goal = [zi(en[first[dims[p]]](v0)) for p in P]
                what = "entry per entry of the other container"
            elif op in ("alloc_c", "alloc_cv"):
                goal = [zi(sn[src.index(dims[p])](v0)) for p in P]
                what = "entry per entry of the other container"
                for q in range(4):
                    ctx.assume(zi(sn[q](v0)) < (1 << 60))
            else:
                goal = [zi(m.n(v0, dims[p])) for p in P]
                what = "entry per mesh element"
            init = op.endswith("v")
            vals = []
            if init:
                vals = [val(types[p], "x%d" % p) for p in P] if tup else [val("f64", "x")] * 1
            vv = vals if tup else vals * NP

            def post(vw, rv):
                r = [("array %d (dimension %d) holds exactly one %s" % (p, dims[p], what), zi(on[p](vw)) == goal[p]) for p in P]
                if init:
                    r += [("every entry of array %d equals the initial value" % p, z3.Implies(j < goal[p], ov[p](vw, j) == vv[p])) for p in P]
                if not op.startswith("ctor"):
                    r += [("other container untouched", same_e(vw))]
                return r
            ctx.run("drv_" + op, vals, post)
        elif op in ("copy", "assign"):
            ctx.run("drv_" + op, [], lambda vw, rv: [("copy of array %d equals the original" % p, z3.And(zi(en[p](vw)) == n0[p], z3.Implies(j < n0[p], ev[p](vw, j) == ov[p](v0, j)))) for p in P] + [("original untouched", same_d(vw))])
        elif op[0] == "w" or op[0] == "r":
            kind = op[2:]
            i = ctx.fresh("i")
            bydim = kind in ("dim", "elm", "at", "eix")
            p1 = first[arg] if bydim else arg
            tgt = i
            throws = None
            if kind in ("elm", "at"):
                ctx.assume(i < zi(m.n(v0, arg)))
                tgt = zi(ctx.obs("ob_idx%d" % arg)(v0, i))
                if kind == "at":
                    def throws(vw):
                        return [("refused only when no such entry exists", tgt >= n0[p1]), ("nothing changed", same_d(vw))]
                    ctx.nocover("zzz")
                else:
                    ctx.assume(tgt < n0[p1])
            else:
                ctx.assume(i < n0[p1])
            if op[0] == "w":
                x = val(types[p1], "x")

                def post(vw, rv):
                    r = [("the entry of that dimension and index was written", ov[p1](vw, tgt) == x), ("it exists", tgt < n0[p1])]
                    for p in P:
                        r += [("array %d: size kept" % p, zi(on[p](vw)) == n0[p]),
                              ("array %d: no other entry changed" % p, z3.Implies(z3.And(j < n0[p], z3.BoolVal(True) if p != p1 else j != tgt), ov[p](vw, j) == ov[p](v0, j)))]
                    return r + [("other containers untouched", same_e(vw))]
                ctx.run("drv_%s%d" % (op, arg), [i, x], post, throws)
            else:
                ctx.run("drv_%s%d" % (op, arg), [i], lambda vw, rv: [("the entry of that dimension and index was read", rv == ov[p1](v0, tgt)), ("nothing changed", same_d(vw))], throws)
        elif op == "posof":
            ctx.run("drv_posof%d" % arg, [], lambda vw, rv: [("position of the dimension in the list", zi(rv) == first[arg])])
        elif op == "dimat":
            ctx.run("drv_dimat%d" % arg, [], lambda vw, rv: [("dimension at the position of the list", zi(rv) == dims[arg])])
        elif op == "size":
            ctx.run("drv_size", [], lambda vw, rv: [("number of arrays", zi(rv) == NP)])
    return Entry("data_%dD_%s%s_%s%s" % (mdim, "t" if tup else "u", "".join(map(str, dims)), op, "" if arg is None else arg), "data.cpp", fn, flags)


def entries():
    r = []
    for mdim, dims, tup, src in ((3, [3, 0, 2, 1], False, [0, 1, 2, 3]), (3, [2, 2, 3], False, None), (3, [1, 3, 0, 2], True, None), (3, [0, 3, 0], True, None), (2, [2, 0, 1], False, None), (2, [1, 2], True, None), (3, [2], False, None)):
        ops = ["alloc", "ctor", "alloc_v", "ctor_v", "alloc_o", "alloc_ov", "copy", "assign", "size"] + (["ctor_d", "ctor_dv"] if not tup else []) + (["alloc_c", "alloc_cv"] if src else [])
        for o in ops:
            r.append(mk(dims, tup, mdim, o, src=src))
        for p in range(len(dims)):
            for o in ("w_pos", "w_seq", "r_pos", "r_seq", "dimat"):
                r.append(mk(dims, tup, mdim, o, p, src))
        for d in sorted(set(dims)):
            for o in ("w_dim", "w_elm", "w_at", "w_eix", "r_dim", "r_elm", "r_at", "r_eix", "posof"):
                r.append(mk(dims, tup, mdim, o, d, src))
    return r
