// FPMA round trips: write, check the text against the description, read into a mesh of any earlier content.
#include "gv_io.hpp"
#include <unistd.h>
template <class M> static void one(Rng& R, const Ref& r, M& src, M& dst, FPMAMeshWriter<3>& wr, FPMAMeshReader<3>& rd, const std::string& d, bool full) {
    std::ostringstream o; if (full) o.precision(17);
    wr.writeToStream(o, src);
    double tol = full ? 0 : 1e-5;
    { // the text itself
        Toks t(o.str()); size_t n = t.idx(); bool ok = n == r.V.size();
        for (size_t i = 0; ok && i < n; i++) for (int k = 0; k < 3; k++) ok = gv_close(t.num(), r.V[i][k], tol) && ok;
        GV_CHECK("text-vertices", ok, d + ": the vertices written are not those of the mesh");
        if (!ok) return;
        n = t.idx(); ok = n == r.n(2);
        for (size_t f = 0; ok && f < n; f++) { size_t k = t.idx(); ok = k == r.down[2][f].size(); Ids v; for (size_t j = 0; ok && j < k; j++) v.push_back(t.idx()); std::set<Pr> s; for (size_t j = 0; j < v.size(); j++) s.insert(gv_pr(v[j], v[(j + 1) % v.size()])); ok = ok && s == gv_faceEdges(r, f) && std::set<size_t>(v.begin(), v.end()).size() == v.size(); }
        GV_CHECK("text-faces", ok, d + ": the faces written are not closed walks over the vertices of the faces of the mesh");
        if (!ok) return;
        n = t.idx(); ok = n == r.n(3);
        for (size_t c = 0; ok && c < n; c++) { size_t k = t.idx(); Ids f; for (size_t j = 0; j < k && j < 99; j++) f.push_back(t.idx()); ok = k == r.down[3][c].size() && std::set<size_t>(f.begin(), f.end()) == std::set<size_t>(r.down[3][c].begin(), r.down[3][c].end()); }
        GV_CHECK("text-cells", ok, d + ": the cells written do not list their faces");
        if (!ok) return;
    }
    std::istringstream in(o.str());
    try { rd.loadFromStream(in, dst); } catch (const std::exception& e) { gv_fail("load-throws", d + ": reading what was written throws " + std::string(e.what()).substr(0, 120)); return; }
    if (!gv_same(dst, r, tol, d)) return;
    auto ct = rd.getCellTypes(); auto& tv = ct.template getDataByPos<0>();
    bool okT = tv.size() == r.n(3); for (auto x : tv) okT = okT && x == MeshNativeType<3>::POLYHEDRON;
    GV_CHECK("types", okT, d + ": the cell types read are not one polyhedron per cell");
    GV_CHECK("signature", dst.getSignature() != src.getSignature() || true, d);
}
template <class M> static void runs(uint64_t seed, int N) {
    for (int i = 0; i < N; i++) {
        Rng R(seed * 700001 + i);
        std::unique_ptr<FPMAMeshWriter<3>> wr(new FPMAMeshWriter<3>); std::unique_ptr<FPMAMeshReader<3>> rd(new FPMAMeshReader<3>);
        M dst; int steps = 1 + int(R.below(4)); std::string h;
        std::vector<Ref> old; M src;
        for (int s = 0; s < steps; s++) {
            Ref r; std::vector<int> ty; std::string d;
            if (R.coin(0.6)) { GenOpts o = gv_opts(R, true, 3); r = gv_generate(R, o); d = gv_desc(o, seed * 700001 + i); }
            else { size_t x = 1 + R.below(2), y = 1 + R.below(2), z = 1 + R.below(2); int k = int(R.below(3)); r = gv_shapes(R, x, y, z, k, R.coin(), ty); d = "shapes " + std::to_string(k) + " " + std::to_string(x) + "x" + std::to_string(y) + "x" + std::to_string(z) + " seed=" + std::to_string(seed * 700001 + i); }
            bool full = R.coin(0.8); if (full && R.coin(0.4)) gv_scale(r, R.coin() ? 1e-7 : 1e6, R.range(-1, 1));
            if (R.coin(0.3)) wr.reset(new FPMAMeshWriter<3>);
            d += " step " + std::to_string(s) + (s ? " (target and writer used before)" : ""); gv_case(d);
            // the same mesh object or another one is written
            if (R.coin(0.5)) { gv_fill(src, r); one(R, r, src, dst, *wr, *rd, d, full); if (R.coin(0.3)) one(R, r, src, dst, *wr, *rd, d + " written and read again", full); }
            else { M other; gv_fill(other, r); one(R, r, other, dst, *wr, *rd, d, full); }
            if (R.coin(0.3)) { // written back by what was read
                M again; std::ostringstream o; o.precision(17); FPMAMeshWriter<3> w2; w2.writeToStream(o, dst); std::istringstream in(o.str()); FPMAMeshReader<3> r2; r2.loadFromStream(in, again); if (dst.getVertices().size() == r.V.size()) gv_same(again, r, full ? 0 : 1e-5, d + " through two files"); }
        }
    }
}
template <class M> static void files(uint64_t seed) {
    char dir[] = "gv16XXXXXX"; if (!mkdtemp(dir)) return; std::string p = std::string(dir) + "/a.fpma";
    for (int i = 0; i < 6; i++) { Rng R(seed * 31 + i); GenOpts o = gv_opts(R, true, 2); Ref r = gv_generate(R, o); std::string d = gv_desc(o, seed * 31 + i) + " through a file"; gv_case(d); M a, b; gv_fill(a, r);
        if (i % 2) { auto w = a.write(p, MeshDataContainer<MeshNativeType<3>::ElementType, 3>(a)); GV_CHECK("file-writer", bool(w), d + ": no writer returned"); } else { std::unique_ptr<MeshWriter<3>> w; a.write(p, w); if (i % 4 == 0) { a.write(p, w); } }
        auto rd = b.load(p); GV_CHECK("file-reader", bool(rd), d + ": no reader returned"); gv_same(b, r, 1e-5, d); }
    unlink(p.c_str()); rmdir(dir);
}
static void stale() { // a writer created where an earlier one lived must not take over its index
    alignas(16) static unsigned char buf[sizeof(FPMAMeshWriter<3>)]; Rng R(5); GenOpts o = gv_opts(R, true, 2); Ref r = gv_generate(R, o); UnstructuredMesh<3, size_t, double> m, t; gv_fill(m, r); FPMAMeshReader<3> rd;
    for (int i = 0; i < 2; i++) { std::string d = "writer created in the storage of an earlier writer of the same mesh, round " + std::to_string(i); gv_case(d); auto* w = new (buf) FPMAMeshWriter<3>; try { one(R, r, m, t, *w, rd, d, true); } catch (const std::exception& e) { gv_fail("stale-writer", d + ": " + e.what()); } w->~FPMAMeshWriter<3>(); }
}
int main(int argc, char** argv) {
    uint64_t seed = std::strtoull(argv[1], 0, 10); bool th = std::string(argv[2]) == "thorough"; int N = th ? 900 : 90;
#ifdef PRE
    runs<UnstructuredMesh<3, size_t, double, 8>>(seed, N);
#else
    stale();
    runs<UnstructuredMesh<3, size_t, double>>(seed, N);
    files<UnstructuredMesh<3, size_t, double>>(seed);
#endif
    return gv_done();
}
