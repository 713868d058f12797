"""Boundary cells: setup, centers, clearing, index tagging."""
from .meshlib import *
HARNESS = [("h_c07.cpp", [])]
HARNESS_WHAT = "random meshes with mixtures of free, occupied and tagged sides, repeated setups, tags of all widths"


def mk(op, dim, res=None):
    def fn(ctx):
        st = ctx.st
        m = Mesh(ctx, dim)
        ob = {k: ctx.obs("ob_" + k) for k in ("fidx", "bidx", "bface", "bcen", "fcen", "ccen")}
        v0 = View(ctx.ex, st.clone())

        def I(n, vw, *a):
            return zi((ob[n] if n in ob else getattr(m, n))(vw, *a))
        nb0, nf = zi(m.nb(v0)), zi(m.nf(v0))
        ctx.assume(nb0 < (1 << 60), nf < (1 << 60), nb0 >= 0, nf >= 0)
        j, mm = z3.Int("j*"), z3.Int("m*")      # an arbitrary face, an arbitrary boundary cell

        def tag(x):
            return x + BOUND
        ctx.assume(j >= 0, j < nf, mm >= 0)

        def old_b(vw):
            return [z3.Implies(mm < nb0, z3.And(I("bidx", vw, mm) == I("bidx", v0, mm), I("bface", vw, mm) == I("bface", v0, mm)))]

        def same_mesh(vw, sides=True):
            r = [I("nc", vw) == I("nc", v0), I("nf", vw) == nf, I("nv", vw) == I("nv", v0), I("nleft", vw, j) == I("nleft", v0, j),
                 I("nright", vw, j) == I("nright", v0, j), I("fidx", vw, j) == I("fidx", v0, j)]
            if sides:
                r += [I("left", vw, j) == I("left", v0, j), I("right", vw, j) == I("right", v0, j)]
            return z3.And(*r)
        L0, R0 = I("left", v0, j), I("right", v0, j)
        if op in ("setup", "again"):
            ctx.assume(I("fidx", v0, j) == j)
            if op == "again":
                ctx.assume(L0 != INV, R0 != INV)

            def done(vw, k):
                L, R = I("left", vw, j), I("right", vw, j)
                nb = I("nb", vw)
                sl, sr = L - BOUND, R - BOUND
                return [("an occupied side keeps its cell", z3.And(z3.Implies(L0 != INV, L == L0), z3.Implies(R0 != INV, R == R0))),
                        ("sides of faces not reached yet are untouched", z3.Implies(j >= k, z3.And(L == L0, R == R0))),
                        ("a free left side gets its own tagged boundary cell which refers back to the face",
                         z3.Implies(z3.And(j < k, L0 == INV), z3.And(sl >= nb0, sl < nb, I("bidx", vw, sl) == L, I("bface", vw, sl) == j))),
                        ("a free right side gets its own tagged boundary cell which refers back to the face",
                         z3.Implies(z3.And(j < k, R0 == INV), z3.And(sr >= nb0, sr < nb, I("bidx", vw, sr) == R, I("bface", vw, sr) == j))),
                        ("two free sides of a face get different boundary cells", z3.Implies(z3.And(j < k, L0 == INV, R0 == INV), L != R)),
                        ("boundary cells present before are untouched", z3.And(nb >= nb0, *old_b(vw)))]

            def owner(vw, k):
                nb = I("nb", vw)
                F = I("bface", vw, mm)
                return [("every new boundary cell belongs to a side of the face it refers to",
                         z3.Implies(z3.And(mm >= nb0, mm < nb), z3.And(F >= 0, F < k, I("bidx", vw, mm) == tag(mm),
                                                                      z3.Or(z3.And(I("left", vw, F) == tag(mm), I("left", v0, F) == INV), z3.And(I("right", vw, F) == tag(mm), I("right", v0, F) == INV)))))]

            def inv(L, vw, k):
                r = done(vw, k) + owner(vw, k) + [("one boundary cell per free side at most", I("nb", vw) <= nb0 + 2 * k), ("iteration bounded (termination)", k <= nf),
                                 ("rest of the mesh untouched", same_mesh(vw, False))]
                q = z3.Int("q!b")
                r += [("faces not reached yet are untouched", z3.ForAll([q], z3.Implies(z3.And(q >= k, q < nf), I(n, vw, q) == I(n, v0, q)), patterns=[I(n, vw, q)])) for n in ("left", "right")]
                if op == "again":
                    r += [("no boundary cell is added", I("nb", vw) == nb0)]
                return r

            def facts(L, vw, k):
                # the face at hand: its index is its position, and it is still as it was before
                r = [z3.Implies(k < nf, I("fidx", v0, k) == k)]
                if op == "again":
                    r += [z3.Implies(k < nf, z3.And(I("left", v0, k) != INV, I("right", v0, k) != INV))]
                return r
            ctx.spec.loopfn = lambda L: LoopSpec(inv, facts) if L.parent is None else None

            def post(vw, rv):
                r = done(vw, nf) + owner(vw, nf) + [("rest of the mesh untouched", same_mesh(vw, False)),
                                    ("no free side is left", z3.And(I("left", vw, j) != INV, I("right", vw, j) != INV))]
                if op == "again":
                    r += [("nothing changes", z3.And(same_mesh(vw), I("nb", vw) == nb0))]
                return r
            ctx.run("drv_setup", [], post)
        elif op == "centers":
            def cen(vw, n, i):
                return [ob[n](vw, i, d) for d in range(dim)]

            def eq(a, b):
                return z3.And(*[x == y for x, y in zip(a, b)])
            fm = I("bface", v0, mm)
            ctx.assume(z3.Implies(mm < nb0, fm < nf))

            def inv(L, vw, k):
                return [("centers of the processed boundary cells are those of their faces", z3.Implies(z3.And(mm < nb0, mm < k), eq(cen(vw, "bcen", mm), cen(v0, "fcen", fm)))),
                        ("boundary cells keep their index and face", z3.And(*old_b(vw))),
                        ("mesh untouched", z3.And(I("nb", vw) == nb0, same_mesh(vw), eq(cen(vw, "fcen", j), cen(v0, "fcen", j)))),
                        ("iteration bounded (termination)", k <= nb0)]

            def facts(L, vw, k):
                return [z3.Implies(k < nb0, z3.And(I("bface", v0, k) >= 0, I("bface", v0, k) < nf))]
            ctx.spec.loopfn = lambda L: LoopSpec(inv, facts) if L.parent is None else None
            ctx.run("drv_centers", [], lambda vw, rv: [("center of every boundary cell is the center of its face", z3.Implies(mm < nb0, eq(cen(vw, "bcen", mm), cen(v0, "fcen", fm)))),
                                                       ("boundary cells keep their index and face", z3.And(*old_b(vw))),
                                                       ("mesh untouched", z3.And(I("nb", vw) == nb0, same_mesh(vw), eq(cen(vw, "fcen", j), cen(v0, "fcen", j))))])
        elif op == "append":
            c, f = ctx.fresh("c"), ctx.fresh("f")
            ctx.run("drv_append", [c, f], lambda vw, rv: [("one boundary cell more", I("nb", vw) == nb0 + 1), ("it carries the index and the face", z3.And(I("bidx", vw, nb0) == c, I("bface", vw, nb0) == f)),
                                                          ("the others stay", z3.And(*old_b(vw))), ("mesh untouched", same_mesh(vw))])
        elif op == "clear":
            ctx.run("drv_clear", [], lambda vw, rv: [("nothing of dimension %d is left" % d, zi(m.n(vw, d)) == 0) for d in range(dim + 1)] + [("no boundary cell is left", I("nb", vw) == 0)])
    return Entry("bound_%s_%dD%s" % (op, dim, "_res%d" % res if res else ""), "bound.cpp", fn, ("-DGV_DIM=%d" % dim,) + (("-DGV_RES=%d" % res,) if res else ()))


def tag(op, bits):
    def fn(ctx):
        i = ctx.fresh("i", bits=bits)
        B = 1 << (bits - 1)
        low = i < B

        def post(vw, rv):
            r = zi(rv) if not z3.is_bool(rv) else z3.If(rv, z3.IntVal(1), z3.IntVal(0))
            if op == "make":
                return [("the tag is added and the position kept", z3.Implies(low, r == i + B)), ("tagging twice changes nothing", z3.Implies(z3.Not(low), r == i))]
            if op == "extract":
                return [("the tag is removed and the position kept", r == z3.If(low, i, i - B))]
            if op == "isb":
                return [("recognises exactly tagged indices", (r == 1) == z3.Not(low))]
            if op == "isinv":
                return [("recognises exactly the invalid index", (r == 1) == (i == 2 * B - 1))]
            if op == "roundtrip":
                return [("stripping undoes tagging", z3.Implies(low, r == i))]
            return [("value of the constant", r == {"inv": 2 * B - 1, "bnd": B, "mask": B - 1}[op])]
        ctx.run("drv_" + op, [] if op in ("inv", "bnd", "mask") else [i], post)
    return Entry("tag_%s_%d" % (op, bits), "tag.cpp", fn, ("-DGV_IT=uint%d_t" % bits,))


def entries():
    r = []
    for dim, res in ((3, None), (3, 6), (2, None)):
        for op in ("setup", "again", "centers", "append", "clear"):
            r.append(mk(op, dim, res))
    for bits in (64, 32, 16, 8):
        for op in ("make", "extract", "isb", "isinv", "roundtrip", "inv", "bnd", "mask"):
            r.append(tag(op, bits))
    return r
