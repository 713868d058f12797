// Cell data written in VTK format: the values in the text, and what is read back from it.
#include "gv_io.hpp"
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h>
#ifdef D2
#define DIM 2
#define TY(x) MeshNativeType<2>::x
#else
#define DIM 3
#define TY(x) MeshNativeType<3>::x
#endif
typedef UnstructuredMesh<DIM, size_t, double> MM;
typedef Vector<DIM, double> Vec;
struct Full { double pressure; Vec velocity; int count; float temp; Vec grad; };
MAKE_ATTRIBUTE_TRAIT(Full, pressure, velocity, count, temp, grad);
struct Other { int extra; Vec g; double p; Vec v; float t; int c; };       // the same attributes in another order
MAKE_NAMED_ATTRIBUTE_TRAIT(Other, "grad", g, "count", c, "temp", t, "velocity", v, "pressure", p);
struct Sub { double q; Vec w; };
MAKE_NAMED_ATTRIBUTE_TRAIT(Sub, "temp", q, "grad", w);
class Hidden { double a; Vec b; public: double getA() const { return a; } void setA(const double& x) { a = x; } Vec getB() const { return b; } void setB(const Vec& x) { b = x; } };
MAKE_CUSTOM_TRAIT(Hidden, "a", std::make_pair(&Hidden::getA, &Hidden::setA), "VECTORSOFb", std::make_pair(&Hidden::getB, &Hidden::setB));
struct Bound { Vec SCALARSlike; double second; };
typedef Traits<Bound, Vec, double> BT;
static double val(Rng& R) { switch (R.below(6)) { case 0: return double(R.below(7)) - 3; case 1: return R.range(-1e5, 1e5); case 2: return R.range(-1, 1) * 1e-9; case 3: return 0; default: return R.range(-2, 2); } }
static Full mk(Rng& R) { Full f; f.pressure = val(R); f.count = int(R.below(2001)) - 1000; f.temp = float(val(R)); for (int k = 0; k < DIM; k++) { f.velocity[k] = val(R); f.grad[k] = val(R); } return f; }
static double tol = 0;
static bool eq(double a, double b) { return std::fabs(a - b) <= tol * std::fabs(b) || a == b; }
static bool eqv(const Vec& a, const Vec& b) { for (int k = 0; k < DIM; k++) if (!eq(a[k], b[k])) return false; return true; }
static bool eqf(float a, float b) { return eq(a, b); }
int main(int argc, char** argv) {
    uint64_t seed = std::strtoull(argv[1], 0, 10); bool th = std::string(argv[2]) == "thorough"; int N = th ? 900 : 90;
    for (int i = 0; i < N; i++) {
        Rng R(seed * 910001 + i); VTKMeshWriter<DIM> wr; std::vector<int> ty; Ref r; std::string d;
        for (int step = 0; step < 1 + int(R.below(2)); step++) {
#ifdef D2
        GenOpts o = gv_opts(R, false, 5); r = gv_generate(R, o); d = gv_desc(o, seed * 910001 + i); for (size_t c = 0; c < r.n(2); c++) ty.push_back(0); bool split = false;
#else
        bool split = R.coin(0.6); size_t x = 1 + R.below(3), y = 1 + R.below(2), z = 1 + R.below(3); int kind = int(R.below(3)); r = gv_shapes(R, x, y, z, kind, false, ty);
        d = "shapes " + std::to_string(kind) + " " + std::to_string(x) + "x" + std::to_string(y) + "x" + std::to_string(z) + " seed=" + std::to_string(seed * 910001 + i);
        if (split) { int how = int(R.below(4)); for (size_t c = 0; c < ty.size(); c++) if (how == 0 || (how == 1 ? R.coin(0.5) : how == 2 ? c == 0 : c + 1 == ty.size())) ty[c] = 305; }
#endif
        MM m; gv_fill(m, r); size_t nc = r.n(DIM);
#ifndef D2
        if (split) m.initializeCenters();
#endif
        MeshDataContainer<MeshNativeType<DIM>::ElementType, DIM> tc(m);
        for (size_t c = 0; c < nc; c++)
#ifdef D2
            tc.getDataByPos<0>()[c] = TY(POLYGON);
#else
            tc.getDataByPos<0>()[c] = MeshNativeType<3>::ElementType(ty[c]);
#endif
        bool full = R.coin(0.8); tol = full ? 0 : 1e-5;
        std::ostringstream os; if (full) os.precision(17);
        MeshDataContainer<Full, DIM> data(m); for (auto& v : data.getDataByPos<0>()) v = mk(R);
        d += split ? " some cells split" : ""; gv_case(d);
        try {
        wr.writeHeader(os, "data"); wr.writeToStream(os, m, tc); std::string mt = os.str();
        VTKMeshDataWriter<DIM>::writeToStream(os, data, wr);
        std::string text = os.str();
        // the text of the data
        std::vector<size_t> src; for (size_t c = 0; c < nc; c++) { size_t parts = 1;
#ifndef D2
            if (ty[c] == 305) { parts = 0; for (size_t f : r.down[3][c]) parts += r.down[2][f].size(); }
#endif
            for (size_t k = 0; k < parts; k++) src.push_back(c); }
        { auto& D = data.getDataByPos<0>(); Toks t(text.substr(mt.size())); bool ok = t.str() == "CELL_DATA" && t.idx() == src.size(); std::string bad = "CELL_DATA";
          auto sc = [&](const std::string& n, std::function<double(const Full&)> g, bool flt) { if (!ok) return; bad = n; ok = t.str() == "SCALARS" && t.str() == n && t.str() == "double" && t.str() == "1" && t.str() == "LOOKUP_TABLE" && t.str() == "default"; for (size_t k = 0; ok && k < src.size(); k++) { double v = t.num(); ok = flt ? eqf(float(v), float(g(D[src[k]]))) : eq(v, g(D[src[k]])); } };
          auto ve = [&](const std::string& n, std::function<Vec(const Full&)> g) { if (!ok) return; bad = n; ok = t.str() == "VECTORS" && t.str() == n && t.str() == "double"; for (size_t k = 0; ok && k < src.size(); k++) { Vec w = g(D[src[k]]); for (int j = 0; j < 3; j++) ok = eq(t.num(), j < DIM ? w[j < DIM ? j : 0] : 0.0) && ok; } };
          sc("pressure", [](const Full& f) { return f.pressure; }, false); ve("velocity", [](const Full& f) { return f.velocity; }); sc("count", [](const Full& f) { return double(f.count); }, false); sc("temp", [](const Full& f) { return double(f.temp); }, true); ve("grad", [](const Full& f) { return f.grad; });
          if (ok && !t.end()) { ok = false; bad = "text after the last attribute"; }
          if (!ok) { gv_fail("data-text", d + ": the attribute " + bad + " is not written with the value of the cell of each written part"); if (gv_fails > 30) return gv_done(); continue; } }
        // read for the cells of the text
        std::istringstream in(text); VTKMeshReader<DIM> rd; MM back; rd.loadFromStream(in, back);
        size_t n = back.getCells().size(); if (n != src.size()) { gv_fail("cells", d + ": " + std::to_string(n) + " cells read"); continue; }
        auto& D = data.getDataByPos<0>();
        MeshDataContainer<Full, DIM> a(back); VTKMeshDataReader<DIM, size_t>::readFromStream(in, a);
        MeshDataContainer<Other, DIM> b(back); for (auto& v : b.getDataByPos<0>()) v.extra = 77; VTKMeshDataReader<DIM, size_t>::readFromStream(in, b);
        MeshDataContainer<Sub, DIM> s(back); VTKMeshDataReader<DIM, size_t>::readFromStream(in, s);
        bool ok = a.getDataByPos<0>().size() == n;
        for (size_t k = 0; k < n && ok; k++) { auto& w = D[src[k]]; auto& g = a.getDataByPos<0>()[k]; ok = eq(g.pressure, w.pressure) && eqv(g.velocity, w.velocity) && g.count == w.count && eqf(g.temp, w.temp) && eqv(g.grad, w.grad); if (!ok) gv_fail("data-read", d + ": cell " + std::to_string(k) + " reads other values than were written"); }
        for (size_t k = 0; k < n && ok; k++) { auto& w = D[src[k]]; auto& g = b.getDataByPos<0>()[k]; ok = eq(g.p, w.pressure) && eqv(g.v, w.velocity) && g.c == w.count && eqf(g.t, w.temp) && eqv(g.g, w.grad) && g.extra == 77; if (!ok) gv_fail("data-order", d + ": cell " + std::to_string(k) + " reads other values when the members are described in another order"); }
        for (size_t k = 0; k < n && ok; k++) { auto& w = D[src[k]]; auto& g = s.getDataByPos<0>()[k]; ok = eqf(float(g.q), w.temp) && eqv(g.w, w.grad); if (!ok) gv_fail("data-subset", d + ": cell " + std::to_string(k) + " reads other values when fewer members are described"); }
        // several containers, only those of cells with described members are written
        { MeshDataContainer<std::tuple<double, Sub, Hidden>, DIM, DIM, DIM> mc(m); for (size_t c = 0; c < nc; c++) { mc.getDataByPos<1>()[c].q = val(R); for (int k = 0; k < DIM; k++) mc.getDataByPos<1>()[c].w[k] = val(R); mc.getDataByPos<2>()[c].setA(val(R)); Vec v; for (int k = 0; k < DIM; k++) v[k] = val(R); mc.getDataByPos<2>()[c].setB(v); }
          std::ostringstream o2; if (full) o2.precision(17); wr.writeHeader(o2, "two"); wr.writeToStream(o2, m, tc); VTKMeshDataWriter<DIM>::writeToStream(o2, mc, wr); std::istringstream i2(o2.str());
          MeshDataContainer<Hidden, DIM> h(back); VTKMeshDataReader<DIM, size_t>::readFromStream(i2, h); MeshDataContainer<Sub, DIM> s2(back); VTKMeshDataReader<DIM, size_t>::readFromStream(i2, s2);
          ok = true; for (size_t k = 0; k < n && ok; k++) { ok = eq(h.getDataByPos<0>()[k].getA(), mc.getDataByPos<2>()[src[k]].getA()) && eqv(h.getDataByPos<0>()[k].getB(), mc.getDataByPos<2>()[src[k]].getB()); if (!ok) gv_fail("data-custom", d + ": cell " + std::to_string(k) + " of the second container reads other values"); }
          for (size_t k = 0; k < n && ok; k++) { ok = eq(s2.getDataByPos<0>()[k].q, mc.getDataByPos<1>()[src[k]].q) && eqv(s2.getDataByPos<0>()[k].w, mc.getDataByPos<1>()[src[k]].w); if (!ok) gv_fail("data-several", d + ": cell " + std::to_string(k) + " of the first container reads other values"); }
#ifndef OLD
          MeshDataContainer<std::tuple<double, Sub, Hidden>, DIM, DIM, DIM> mr(back); VTKMeshDataReader<DIM, size_t>::readFromStream(i2, mr);
          for (size_t k = 0; k < n && ok; k++) { ok = eq(mr.getDataByPos<1>()[k].q, mc.getDataByPos<1>()[src[k]].q) && eqv(mr.getDataByPos<2>()[k].getB(), mc.getDataByPos<2>()[src[k]].getB()); if (!ok) gv_fail("data-containers", d + ": cell " + std::to_string(k) + " of several containers reads other values"); }
#endif
        }
#ifndef OLD
        { // one container by itself, written and read
          std::ostringstream o3; if (full) o3.precision(17); wr.writeHeader(o3, "one"); wr.writeToStream(o3, m, tc); VTKMeshDataWriter<DIM>::writeToStream(o3, data.getDataByPos<0>(), wr); std::istringstream i3(o3.str()); MeshDataContainer<Full, DIM> a3(back); VTKMeshDataReader<DIM, size_t>::readFromStream(i3, a3.getDataByPos<0>());
          ok = true; for (size_t k = 0; k < n && ok; k++) { auto& w = D[src[k]]; auto& g = a3.getDataByPos<0>()[k]; ok = eq(g.pressure, w.pressure) && eqv(g.velocity, w.velocity) && g.count == w.count && eqf(g.temp, w.temp) && eqv(g.grad, w.grad); if (!ok) gv_fail("data-container", d + ": cell " + std::to_string(k) + " reads other values through one container"); } }
        { // traits given at the call, a name holding a keyword
          auto bt = std::make_tuple(makeTraits<Bound>("SCALARSlike", &Bound::SCALARSlike, "second", &Bound::second)); MeshDataContainer<Bound, DIM> bd(m); for (auto& v : bd.getDataByPos<0>()) { v.second = val(R); for (int k = 0; k < DIM; k++) v.SCALARSlike[k] = val(R); }
          std::ostringstream o4; if (full) o4.precision(17); wr.writeHeader(o4, "bound"); wr.writeToStream(o4, m, tc); VTKMeshDataWriter<DIM>::writeToStream(o4, bd, wr, bt); std::istringstream i4(o4.str()); MeshDataContainer<Bound, DIM> br(back); VTKMeshDataReader<DIM, size_t>::readFromStream(i4, br, bt);
          ok = true; for (size_t k = 0; k < n && ok; k++) { auto& w = bd.getDataByPos<0>()[src[k]]; auto& g = br.getDataByPos<0>()[k]; ok = eq(g.second, w.second) && eqv(g.SCALARSlike, w.SCALARSlike); if (!ok) gv_fail("data-bound", d + ": cell " + std::to_string(k) + " reads other values with traits given at the call"); } }
#endif
        } catch (const std::exception& e) { gv_fail("throws", d + ": " + e.what()); }
        if (gv_fails > 30) return gv_done();
        ty.clear(); }
    }
    return gv_done();
}
