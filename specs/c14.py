"""Class traits: access to the described members."""
from .meshlib import *
from .c12 import eqv
HARNESS = [("h_c14.cpp", [])]
HARNESS_WHAT = "random accesses to a class with twelve described members of all kinds (strings, lists, maps, nested classes), bound and default traits, function objects with a state, class templates, mesh data of many dimensions, against a plain mirror of the object"
EXPLORED = "proved: every kind of access for all member values and the traits of mesh data; bounded (harness): members of library types (strings, maps), std::function accessors"
ASSUMPTIONS = ["addresses of functions are even (representation of pointers to member functions of the target ABI)"]
LEVEL = "proved"
MEM = ("i", "d", "c", "ia", "ib", "x", "y", "s", "l")


def world(ctx):
    w = type("W", (), {})()
    A, B = ctx.obs("ob_a")(ctx.st), ctx.obs("ob_b")(ctx.st)
    obs = {m: ctx.obs("ob_" + m) for m in MEM}
    w.v0 = View(ctx.ex, ctx.st.clone())
    w.get = lambda vw, o, m: obs[m](vw, A if o == "a" else B)
    w.eq = lambda a, b: eqv(ctx, a, b)
    # everything but the given members of the given objects keeps its value
    w.frame = lambda vw, but=(): [("member %s of the %s object untouched" % (m, "accessed" if o == "a" else "other"), w.eq(w.get(vw, o, m), w.get(w.v0, o, m))) for o in "ab" for m in MEM if (o, m) not in but]
    return w


def access(pos, name, mem, drv, const, direct, setp, tr="DefaultTraits", what=""):
    inner = mem == ("ia", "ib")

    def fn(ctx):
        w = world(ctx)
        V = [ctx.obs("ob_va"), ctx.obs("ob_vb")] if inner else [ctx.obs("ob_v")]
        read = "get" in drv

        def post(vw, rv):
            r = []
            for m, v in zip(mem, V):
                if read:
                    r += [("value of member %s is read" % m, w.eq(v(vw), w.get(w.v0, "a", m)))]
                else:
                    r += [("member %s has the value" % m, w.eq(w.get(vw, "a", m), v(w.v0))), ("the value is untouched", w.eq(v(vw), v(w.v0)))]
            return r + w.frame(vw, () if read else [("a", m) for m in mem])
        if drv == "name":
            ctx.run("drv_name", [], lambda vw, rv: [("declared name", zb(rv))] + w.frame(vw))
        else:
            ctx.run("drv_" + drv, [], post)
    fl = ["-DGV_P=%d" % pos, '-DGV_NAME="%s"' % name, "-DGV_TR=" + tr] + (["-DGV_INNER"] if inner else []) + (["-DGV_CONST"] if const else []) + (["-DGV_DIRECT"] if direct else []) + (["-DGV_SETP"] if setp else [])
    return Entry("%s/%s/%s" % (what or name, drv, tr[7:10]) if tr != "DefaultTraits" else "%s/%s" % (what or name, drv), "traits.cpp", fn, tuple(fl))


def simple(name, drv, post):
    def fn(ctx):
        w = world(ctx)
        for k in ("order", "sum", "t0", "t1", "t2", "gi"):
            setattr(w, k, ctx.obs("ob_" + k))
        ctx.run(drv, [], lambda vw, rv: post(w, vw, rv))
    return Entry(name, "traits.cpp", fn, ("-DGV_APPLY",))


def entries():
    E = []
    for pos, name, mem, const, direct, setp, what in (
            (0, "int", ("i",), 1, 1, 1, "member pointer"), (1, "dbl", ("d",), 1, 1, 1, "member pointer double"), (2, "chr", ("c",), 1, 1, 1, "member pointer char"), (3, "inner", ("ia", "ib"), 1, 1, 1, "member pointer class"),
            (4, "x", ("x",), 1, 0, 1, "member functions"), (5, "y", ("y",), 0, 0, 1, "non-constant getter"), (6, "s", ("s",), 1, 1, 1, "reference function"),
            (7, "free", ("l",), 1, 0, 0, "free functions"), (8, "ref", ("ib",), 1, 1, 0, "free reference function"), (9, "fun", ("ia",), 1, 0, 0, "function objects"), (10, "fur", ("ia",), 1, 1, 0, "reference function object")):
        for d in ["get", "getp", "set", "rget", "name"] + (["setp"] if setp else []) + (["cget", "cgetp"] if const else []) + (["attr", "attrget"] if direct else []) + (["attrp"] if direct and setp else []):
            E.append(access(pos, name, mem, d, const, direct, setp, what=what))
    for pos, name, mem in ((0, "second", ("d",)), (1, "first", ("i",))):
        for d in ("get", "set", "attr", "name"):
            E.append(access(pos, name, mem, d, 1, 1, 1, "DefaultArithmeticTraits"))
    for pos, name, mem in ((0, "int", ("i",)), (4, "x", ("x",))):
        for d in ("get", "set", "name"):
            E.append(access(pos, name, mem, d, 1, pos == 0, 1, "DefaultIOTraits"))
    R = lambda ctx, v: v
    E.append(simple("apply", "drv_apply", lambda w, vw, rv: [("every described member once, in declared order", zi(w.order(vw)) == (zi(w.order(w.v0)) * 256 + 0x12) % (1 << 64))] + w.frame(vw)))
    E.append(simple("apply/without index", "drv_apply2", lambda w, vw, rv: [("every described member once, in declared order", zi(w.order(vw)) == (zi(w.order(w.v0)) * 256 + 0x84) % (1 << 64))] + w.frame(vw)))
    E.append(simple("apply/write", "drv_zero", lambda w, vw, rv: [("described members are written", z3.And(w.eq(w.get(vw, "a", "d"), z3.RealVal(0)), w.eq(w.get(vw, "a", "i"), 0)))] + w.frame(vw, [("a", "d"), ("a", "i")])))
    E.append(simple("size", "drv_size", lambda w, vw, rv: [("number of described members", zi(rv) == 1122)]))
    E.append(simple("free get", "drv_nested", lambda w, vw, rv: [("member by position", w.eq(w.get(vw, "b", "d"), w.get(w.v0, "a", "d")))] + w.frame(vw, [("b", "d")])))
    E.append(simple("class template", "drv_tset", lambda w, vw, rv: [("member written", zi(w.t2(vw)) == zi(w.gi(w.v0))), ("other members untouched", z3.And(zi(w.t0(vw)) == zi(w.t0(w.v0)), w.eq(w.t1(vw), w.t1(w.v0))))] + w.frame(vw)))
    E.append(simple("bound traits", "drv_bind", lambda w, vw, rv: [("bound traits are selected, the object is the bound one", zi(rv) == 21)] + w.frame(vw)))
    E.append(simple("bound traits/value", "drv_own", lambda w, vw, rv: [("value through the bound traits", zi(rv) == zi(w.get(w.v0, "a", "l")))] + w.frame(vw)))
    E.append(simple("bound traits/default", "drv_dflt", lambda w, vw, rv: [("default traits where none are bound", zi(rv) == zi(w.get(w.v0, "a", "i")))] + w.frame(vw)))
    E.append(simple("bound traits/second", "drv_second", lambda w, vw, rv: [("value through the second bound traits", w.eq(rv, w.get(w.v0, "a", "ib")))] + w.frame(vw)))
    return E


def mesh_data(what, drv, post, d0, d1, argn=0):
    def fn(ctx):
        w = type("W", (), {})()
        n0, n1, a, b, nv, vv = [ctx.obs("ob_" + k) for k in ("n0", "n1", "v0", "v1", "nv", "vv")]
        w.v0 = v0 = View(ctx.ex, ctx.st.clone())
        i0, i1, iv = ctx.fresh("i0*"), ctx.fresh("i1*"), ctx.fresh("iv*")
        ctx.assume(i0 < zi(n0(v0)), i1 < zi(n1(v0)), iv < zi(nv(v0)), zi(n0(v0)) < (1 << 50), zi(n1(v0)) < (1 << 50), zi(nv(v0)) < (1 << 50))
        w.i0, w.i1, w.iv, w.a, w.b, w.n0, w.n1, w.nv, w.vv = i0, i1, iv, a, b, n0, n1, nv, vv
        w.first = lambda vw: [("first array untouched", z3.And(zi(n0(vw)) == zi(n0(v0)), zi(a(vw, i0)) == zi(a(v0, i0))))]
        w.second = lambda vw: [("second array untouched", z3.And(zi(n1(vw)) == zi(n1(v0)), zi(b(vw, i1)) == zi(b(v0, i1))))]
        w.args = [ctx.fresh("k*")] if argn else []
        if argn:
            ctx.assume(w.args[0] < zi(n1(v0)))
        ctx.run(drv, w.args, lambda vw, rv: post(w, vw, rv))
    return Entry("mesh data %d %d/%s" % (d0, d1, what), "mdtraits.cpp", fn, ("-DGV_DIMS=%d,%d" % (d0, d1), '-DGV_NAME0="dim %d"' % d0, '-DGV_NAME1="dim %d"' % d1))


def mesh_entries():
    E = []
    for d0, d1 in ((0, 3), (2, 1), (10, 9), (100, 101), (110, 999), (205, 90)):
        E.append(mesh_data("names", "drv_names", lambda w, vw, rv: [("arrays are named by their dimensions", zb(rv))], d0, d1))
    for d0, d1 in ((0, 3), (2, 1)):
        E.append(mesh_data("get", "drv_get", lambda w, vw, rv: [("value of the array at the position", zi(rv) == zi(w.b(w.v0, w.args[0])))] + w.first(vw) + w.second(vw), d0, d1, 1))
        E.append(mesh_data("set", "drv_set", lambda w, vw, rv: [("the array has the written values", z3.And(zi(w.n0(vw)) == zi(w.nv(w.v0)), zi(w.a(vw, w.iv)) == zi(w.vv(w.v0, w.iv)))), ("written values untouched", zi(w.vv(vw, w.iv)) == zi(w.vv(w.v0, w.iv)))] + w.second(vw), d0, d1))
        E.append(mesh_data("reference", "drv_attr", lambda w, vw, rv: [("the element is written, the others are not", zi(w.b(vw, w.i1)) == z3.If(w.i1 == w.args[0], 7, zi(w.b(w.v0, w.i1)))), ("length kept", zi(w.n1(vw)) == zi(w.n1(w.v0)))] + w.first(vw), d0, d1, 1))
        E.append(mesh_data("size", "drv_size", lambda w, vw, rv: [("number of arrays", zi(rv) == 2)], d0, d1))
    return E


_entries = entries


def entries():
    return _entries() + mesh_entries()
