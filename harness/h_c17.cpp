// VTK round trips: the text written and the mesh read from it.
#include "gv_io.hpp"
#include <unistd.h>
struct VtkText { std::vector<std::array<double, 3>> P; std::vector<Ids> C; std::vector<int> T; bool ok = false; std::string why; };
static VtkText parse(const std::string& s) {
    VtkText r; size_t p = s.find("POINTS"); if (p == s.npos) { r.why = "no POINTS"; return r; }
    Toks t(s.substr(p)); t.str(); size_t n = t.idx(); if (t.str() != "double" || n > 1000000) { r.why = "POINTS line"; return r; }
    for (size_t i = 0; i < n; i++) { std::array<double, 3> a; for (auto& x : a) x = t.num(); r.P.push_back(a); }
    if (t.str() != "CELLS") { r.why = "CELLS expected after the points"; return r; }
    n = t.idx(); size_t tot = t.idx(), cnt = 0; if (n > 1000000) { r.why = "CELLS line"; return r; }
    for (size_t i = 0; i < n; i++) { size_t k = t.idx(); if (k > 10000) { r.why = "cell size"; return r; } Ids c; for (size_t j = 0; j < k; j++) c.push_back(t.idx()); cnt += k + 1; r.C.push_back(c); }
    if (cnt != tot) { r.why = "the total of the CELLS line is not the number of the numbers"; return r; }
    if (t.str() != "CELL_TYPES" || t.idx() != n) { r.why = "CELL_TYPES expected with the number of cells"; return r; }
    for (size_t i = 0; i < n; i++) r.T.push_back(int(t.idx()));
    if (!t.end() && t.str() != "CELL_DATA") { r.why = "more text after the types"; return r; }
    r.ok = true; for (auto& c : r.C) for (size_t v : c) if (v >= r.P.size()) { r.ok = false; r.why = "a cell names vertex " + std::to_string(v) + " of " + std::to_string(r.P.size()); }
    return r;
}
static double det4(const std::array<double, 3>& a, const std::array<double, 3>& b, const std::array<double, 3>& c, const std::array<double, 3>& d) {
    double u[3], v[3], w[3]; for (int k = 0; k < 3; k++) { u[k] = b[k] - a[k]; v[k] = c[k] - a[k]; w[k] = d[k] - a[k]; }
    return std::fabs(u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0])) / 6;
}
static bool points(const VtkText& t, const Ref& r, double tol, const std::string& d) {
    bool ok = t.P.size() >= r.V.size();
    for (size_t i = 0; ok && i < r.V.size(); i++) for (unsigned k = 0; k < 3; k++) ok = ok && gv_close(t.P[i][k], k < r.dim ? r.V[i][k] : 0.0, tol);
    GV_CHECK("text-points", ok, d + ": the points written are not the vertices of the mesh");
    return ok;
}
static Ids loop2(const Ref& r, size_t c) { // vertices of a planar cell around its boundary
    std::map<size_t, Ids> nb; for (size_t e : r.down[2][c]) { size_t a = r.down[1][e][0], b = r.down[1][e][1]; nb[a].push_back(b); nb[b].push_back(a); }
    Ids l; size_t v = nb.begin()->first, p = SIZE_MAX; do { l.push_back(v); size_t n = nb[v][0] == p ? nb[v][1] : nb[v][0]; p = v; v = n; } while (v != l[0]); return l;
}
#ifdef D2
typedef UnstructuredMesh<2, size_t, double> M2;
static void run2(uint64_t seed, int N) {
    for (int i = 0; i < N; i++) {
        Rng R(seed * 810001 + i); VTKMeshWriter<2> wr; VTKMeshReader<2> rd; M2 dst; int steps = 1 + int(R.below(4));
        for (int s = 0; s < steps; s++) {
            GenOpts o = gv_opts(R, false, 5); Ref r = gv_generate(R, o); bool full = R.coin(0.8); if (full && R.coin(0.4)) gv_scale(r, R.coin() ? 1e-7 : 1e6, R.range(-1, 1));
            for (auto& v : r.V) v[2] = 0;
            // the edges of a cell may be linked in any order
            if (R.coin(0.3)) for (auto& c : r.down[2]) R.shuffle(c);
            std::string d = gv_desc(o, seed * 810001 + i) + " step " + std::to_string(s); gv_case(d);
            M2 m; gv_fill(m, r);
            MeshDataContainer<MeshNativeType<2>::ElementType, 2> ty(m);
            for (size_t c = 0; c < r.n(2); c++) { size_t k = r.down[2][c].size(); ty.getDataByPos<0>()[c] = k == 3 ? MeshNativeType<2>::TRIANGLE : k == 4 ? MeshNativeType<2>::QUAD : MeshNativeType<2>::POLYGON; }
            std::ostringstream os; if (full) os.precision(17); double tol = full ? 0 : 1e-5;
            try { wr.writeHeader(os, "mesh"); wr.writeToStream(os, m, ty); } catch (const std::exception& e) { gv_fail("write-throws", d + ": " + e.what()); continue; }
            VtkText t = parse(os.str()); if (!t.ok) { gv_fail("text", d + ": " + t.why); continue; }
            if (t.P.size() != r.V.size()) { gv_fail("text-points", d + ": " + std::to_string(t.P.size()) + " points written"); continue; }
            if (!points(t, r, tol, d)) continue;
            bool ok = t.C.size() == r.n(2);
            for (size_t c = 0; ok && c < r.n(2); c++) { std::set<Pr> a, b; for (size_t k = 0; k < t.C[c].size(); k++) a.insert(gv_pr(t.C[c][k], t.C[c][(k + 1) % t.C[c].size()])); for (size_t e : r.down[2][c]) b.insert(gv_pr(r.down[1][e][0], r.down[1][e][1])); int vt = b.size() == 3 ? 5 : b.size() == 4 ? 9 : 7; ok = a == b && t.C[c].size() == b.size() && t.T[c] == vt; }
            GV_CHECK("text-cells", ok, d + ": a cell written is not the closed walk over its vertices with its type"); if (!ok) continue;
            GV_CHECK("number-of-cells", wr.getNumberOfCells() == r.n(2), d + ": getNumberOfCells");
            std::istringstream in(os.str());
            try { if (R.coin(0.2)) static_cast<MeshElements<2, size_t, double>&>(dst) = rd.loadFromStream<size_t, double>(in); else rd.loadFromStream(in, dst); } catch (const std::exception& e) { gv_fail("load-throws", d + ": " + e.what()); continue; }
            if (!gv_same(dst, r, tol, d)) continue;
            auto ct = rd.getCellTypes(); ok = ct.getDataByPos<0>().size() == r.n(2); for (size_t c = 0; ok && c < r.n(2); c++) ok = ct.getDataByPos<0>()[c] == ty.getDataByPos<0>()[c];
            GV_CHECK("types", ok, d + ": the cell types read are not those written");
            // the mesh that was read is written again by the writer which has written the first one
            std::ostringstream o2; o2.precision(17); VTKMeshWriter<2>& w2 = wr; w2.writeHeader(o2, "x"); w2.writeToStream(o2, dst, ct); M2 again; std::istringstream i2(o2.str()); VTKMeshReader<2> r2; r2.loadFromStream(i2, again); gv_same(again, r, tol, d + " through two files");
        }
    }
    alignas(16) static unsigned char buf[sizeof(VTKMeshWriter<2>)]; Rng R(5); GenOpts o = gv_opts(R, false, 2); Ref r = gv_generate(R, o); M2 m; gv_fill(m, r); MeshDataContainer<MeshNativeType<2>::ElementType, 2> ty(m, MeshNativeType<2>::POLYGON);
    for (int i = 0; i < 2; i++) { std::string d = "writer created in the storage of an earlier writer of the same mesh, round " + std::to_string(i); gv_case(d); auto* w = new (buf) VTKMeshWriter<2>; std::ostringstream os; w->writeHeader(os, "x"); w->writeToStream(os, m, ty); VtkText t = parse(os.str()); GV_CHECK("stale-writer", t.ok && t.C.size() == r.n(2), d + ": the cells are not written"); w->~VTKMeshWriter<2>(); }
    { char dir[] = "gv17XXXXXX"; if (mkdtemp(dir)) { std::string p = std::string(dir) + "/a.vtk"; std::string d = "planar mesh through a file"; gv_case(d); auto w = m.write(p, ty, "name"); M2 b; auto rd = b.load(p); GV_CHECK("file", bool(w) && bool(rd), d); gv_same(b, r, 1e-5, d); m.write(p, w, ty, "again"); M2 c; c.load(p); gv_same(c, r, 1e-5, d + " again"); unlink(p.c_str()); rmdir(dir); } }
}
#else
typedef UnstructuredMesh<3, size_t, double GV_RESARG> M3;
static void splitCheck(const VtkText& t, const Ref& r, const M3& m, const std::vector<int>& types, double tol, const std::string& d, bool vol) {
    size_t k = 0; std::vector<char> usedP(t.P.size(), 0);
    for (size_t c = 0; c < r.n(3); c++) {
        if (types[c] != 305 && types[c] != 304) {
            if (k >= t.C.size()) { gv_fail("text-cells", d + ": too few cells written"); return; }
            std::set<size_t> w; for (size_t f : r.down[3][c]) for (auto& p : gv_faceEdges(r, f)) { w.insert(p.first); w.insert(p.second); }
            const int code[] = {10, 12, 13, 14}; static const int E[4][24] = {{0,1,1,2,2,0,0,3,1,3,2,3,-1}, {0,1,1,2,2,3,3,0,4,5,5,6,6,7,7,4,0,4,1,5,2,6,3,7}, {0,1,1,2,2,0,3,4,4,5,5,3,0,3,1,4,2,5,-1}, {0,1,1,2,2,3,3,0,0,4,1,4,2,4,3,4,-1}};
            std::set<Pr> es, we; for (size_t f : r.down[3][c]) for (auto& p : gv_faceEdges(r, f)) we.insert(p);
            bool ok = t.T[k] == code[types[c] - 300] && std::set<size_t>(t.C[k].begin(), t.C[k].end()) == w && t.C[k].size() == w.size();
            if (ok) for (int e = 0; e < 24 && E[types[c] - 300][e] >= 0; e += 2) es.insert(gv_pr(t.C[k][E[types[c] - 300][e]], t.C[k][E[types[c] - 300][e + 1]]));
            if (!ok || es != we) { gv_fail("text-standard", d + ": cell " + std::to_string(c) + " of type " + std::to_string(types[c]) + " is written as type " + std::to_string(t.T[k]) + " with vertices " + gv_list(t.C[k])); return; }
            k++; continue;
        }
        std::multiset<std::set<size_t>> want; std::map<std::set<size_t>, size_t> fe; double sum = 0; auto cc = m.getCells()[c].getCenter();
        size_t parts = 0; for (size_t f : r.down[3][c]) parts += r.down[2][f].size();
        std::map<std::pair<Pr, size_t>, int> seen;
        for (size_t q = 0; q < parts; q++, k++) {
            if (k >= t.C.size()) { gv_fail("text-cells", d + ": too few parts of cell " + std::to_string(c)); return; }
            auto& x = t.C[k]; if (t.T[k] != 10 || x.size() != 4) { gv_fail("text-part", d + ": a part of a split cell is not a tetrahedron"); return; }
            Pr e = gv_pr(x[0], x[1]); bool hit = false;
            for (size_t f : r.down[3][c]) { auto fc = m.getFaces()[f].getCenter(); bool g = gv_faceEdges(r, f).count(e) > 0; for (int j = 0; j < 3; j++) g = g && gv_close(t.P[x[2]][j], fc[j], tol) && gv_close(t.P[x[3]][j], cc[j], tol); if (g && !seen[{e, f}]) { seen[{e, f}] = 1; hit = true; break; } }
            if (!hit) { gv_fail("text-part", d + ": part " + std::to_string(k) + " of cell " + std::to_string(c) + " is not an edge of a face with the centers of the face and of the cell, or is repeated"); return; }
            sum += det4(t.P[x[0]], t.P[x[1]], t.P[x[2]], t.P[x[3]]);
        }
        if (vol) { double w = 0, lo[3], hi[3]; for (int j = 0; j < 3; j++) { lo[j] = 1e300; hi[j] = -1e300; } for (size_t f : r.down[3][c]) for (auto& p : gv_faceEdges(r, f)) for (int j = 0; j < 3; j++) { lo[j] = std::min(lo[j], r.V[p.first][j]); hi[j] = std::max(hi[j], r.V[p.first][j]); } w = (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2]); if (!(std::fabs(sum - w) <= 1e-4 * w)) { gv_fail("text-volume", d + ": the parts of cell " + std::to_string(c) + " fill " + std::to_string(sum) + " of " + std::to_string(w)); return; } }
    }
    if (k != t.C.size()) gv_fail("text-cells", d + ": more cells written than the mesh has");
}
static void run3(uint64_t seed, int N) {
    for (int i = 0; i < N; i++) {
        Rng R(seed * 820001 + i); VTKMeshWriter<3> wr; VTKMeshReader<3> rd; M3 dst; int steps = 1 + int(R.below(3));
        for (int s = 0; s < steps; s++) {
            std::vector<int> ty; Ref r; std::string d; bool split = R.coin(0.4), boxes = false; size_t x = 1 + R.below(3), y = 1 + R.below(2), z = 1 + R.below(2); int kind = int(R.below(3));
            if (split && R.coin()) { GenOpts o = gv_opts(R, true, 3); boxes = R.coin(); if (boxes) { o.split = o.merge = o.drop = o.jitter = false; } r = gv_generate(R, o); if (boxes) for (auto& v : r.V) v[0] = std::round(v[0] * 4) / 4; ty.assign(r.n(3), 305); d = gv_desc(o, seed * 820001 + i); boxes = false; }
            else { r = gv_shapes(R, x, y, z, kind, R.coin(), ty); d = "shapes " + std::to_string(kind) + " " + std::to_string(x) + "x" + std::to_string(y) + "x" + std::to_string(z) + " seed=" + std::to_string(seed * 820001 + i); if (split) { for (auto& q : ty) if (R.coin(0.4)) q = 305; } }
            bool full = R.coin(0.8); if (full && R.coin(0.4)) gv_scale(r, R.coin() ? 1e-7 : 1e6, R.range(-1, 1));
            d += " step " + std::to_string(s) + (split ? " with cells to split" : ""); gv_case(d);
            M3 m; gv_fill(m, r); if (split) m.initializeCenters();
            bool anySplit = false; MeshDataContainer<MeshNativeType<3>::ElementType, 3> tc(m); for (size_t c = 0; c < r.n(3); c++) { tc.getDataByPos<0>()[c] = MeshNativeType<3>::ElementType(ty[c]); anySplit = anySplit || ty[c] == 305; }
            std::ostringstream os; if (full) os.precision(17); double tol = full ? 0 : 1e-5;
            try { wr.writeHeader(os, "mesh"); wr.writeToStream(os, m, tc); } catch (const std::exception& e) { gv_fail("write-throws", d + ": " + e.what()); continue; }
            VtkText t = parse(os.str()); if (!t.ok) { gv_fail("text", d + ": " + t.why); continue; }
            size_t ctr = 0; { std::set<size_t> fs; for (size_t c = 0; c < r.n(3); c++) if (ty[c] == 305) { ctr++; fs.insert(r.down[3][c].begin(), r.down[3][c].end()); } ctr += fs.size(); }
            if (t.P.size() < r.V.size() || t.P.size() > r.V.size() + 2 * ctr) { gv_fail("text-points", d + ": " + std::to_string(t.P.size()) + " points written for " + std::to_string(r.V.size()) + " vertices and " + std::to_string(ctr) + " centers"); continue; }
            if (!points(t, r, tol, d)) continue;
            splitCheck(t, r, m, ty, tol, d, boxes);
            GV_CHECK("number-of-cells", wr.getNumberOfCells() == t.C.size(), d + ": getNumberOfCells");
            if (gv_fails > 40) return;
            std::istringstream in(os.str());
            try { if (R.coin(0.2)) static_cast<MeshElements<3, size_t, double GV_RESARG>&>(dst) = rd.loadFromStream<size_t, double GV_RESARG>(in); else rd.loadFromStream(in, dst); } catch (const std::exception& e) { gv_fail("load-throws", d + ": " + e.what()); continue; }
            auto ct = rd.getCellTypes();
            if (!anySplit) {
                if (!gv_same(dst, r, tol, d)) continue;
                bool ok = ct.getDataByPos<0>().size() == r.n(3); for (size_t c = 0; ok && c < r.n(3); c++) ok = int(ct.getDataByPos<0>()[c]) == ty[c];
                GV_CHECK("types", ok, d + ": the cell types read are not those written");
                std::ostringstream o2; o2.precision(17); wr.writeHeader(o2, "x"); wr.writeToStream(o2, dst, ct); M3 again; std::istringstream i2(o2.str()); VTKMeshReader<3> r2; r2.loadFromStream(i2, again); gv_same(again, r, tol, d + " through two files");
            } else { // what was read has the cells that were written, over the vertices that were written
                bool ok = dst.getVertices().size() == t.P.size() && dst.getCells().size() == t.C.size() && ct.getDataByPos<0>().size() == t.C.size();
                for (size_t v = 0; ok && v < t.P.size(); v++) for (int k = 0; k < 3; k++) ok = ok && dst.getVertices()[v][k] == t.P[v][k];
                for (size_t c = 0; ok && c < t.C.size(); c++) { std::set<size_t> vs; size_t f = dst.getCells()[c].getBoundaryElementIndex(), f0 = f, n = 0; do { size_t b = 0; for (auto& p : gv_faceEdges(dst, f, b)) { vs.insert(p.first); vs.insert(p.second); } n++; f = dst.getFaces()[f].getNextBElem(c); } while (f != f0 && n < 20); ok = vs == std::set<size_t>(t.C[c].begin(), t.C[c].end()) && f == f0 && n == (t.T[c] == 10 ? 4u : t.T[c] == 12 ? 6u : 5u); }
                GV_CHECK("split-read", ok, d + ": the cells read are not the written ones");
                // every face separates exactly the cells which share its vertices
                std::map<std::set<size_t>, std::set<size_t>> share; for (size_t c = 0; ok && c < dst.getCells().size(); c++) { size_t f = dst.getCells()[c].getBoundaryElementIndex(), f0 = f; do { std::set<size_t> vs; size_t b = 0; for (auto& p : gv_faceEdges(dst, f, b)) { vs.insert(p.first); vs.insert(p.second); } share[vs].insert(c); f = dst.getFaces()[f].getNextBElem(c); } while (f != f0); }
                ok = ok && share.size() == dst.getFaces().size();
                GV_CHECK("split-faces", ok, d + ": two faces read have the same vertices");
            }
        }
    }
    { char dir[] = "gv17XXXXXX"; if (mkdtemp(dir)) { std::string p = std::string(dir) + "/a.vtk"; std::string d = "mesh through a file"; gv_case(d); Rng R(9); std::vector<int> ty; Ref r = gv_shapes(R, 2, 2, 1, 1, false, ty); M3 m; gv_fill(m, r); MeshDataContainer<MeshNativeType<3>::ElementType, 3> tc(m); for (size_t c = 0; c < r.n(3); c++) tc.getDataByPos<0>()[c] = MeshNativeType<3>::ElementType(ty[c]);
        auto w = m.write(p, tc, "name"); M3 b; auto rd = b.load(p); GV_CHECK("file", bool(w) && bool(rd), d); gv_same(b, r, 1e-5, d); b.write(p, w, *rd, "again"); M3 c; c.load(p); gv_same(c, r, 1e-5, d + " again"); unlink(p.c_str()); rmdir(dir); } }
}
// tetrahedra in which the faces of edges 1 12 233 and 11 22 33 are different triangles
static void keys3() {
    std::vector<Ids> C; for (size_t c = 0; c < 39; c++) C.push_back({4 * c, 4 * c + 1, 4 * c + 2, 4 * c + 3});
    C[2][0] = 2; C[38][2] = 1; C[38][3] = 9; C[3][1] = 7; C[5][0] = 6; C[5][3] = 15; C.push_back({1, 2, 9, 156}); C.push_back({6, 7, 15, 157});
    std::string d = "reading tetrahedra with faces of edges 1 12 233 and 11 22 33"; gv_case(d); std::ostringstream o; o << "# vtk DataFile Version 2.0\nname\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS 158 double\n"; for (int i = 0; i < 158; i++) o << i % 7 << " " << i % 11 << " " << i << "\n";
    o << "\nCELLS " << C.size() << " " << 5 * C.size() << "\n"; for (auto& c : C) o << "4 " << c[0] << " " << c[1] << " " << c[2] << " " << c[3] << "\n"; o << "\nCELL_TYPES " << C.size() << "\n"; for (size_t c = 0; c < C.size(); c++) o << "10\n";
    M3 m; std::istringstream in(o.str()); VTKMeshReader<3> rd; try { rd.loadFromStream(in, m); } catch (const std::exception& e) { gv_fail("keys", d + ": " + e.what()); return; }
    bool ok = m.getCells().size() == C.size() && m.getFaces().size() == 4 * C.size();
    for (size_t c = 0; ok && c < C.size(); c++) { std::set<size_t> vs; size_t f = m.getCells()[c].getBoundaryElementIndex(), f0 = f, n = 0; do { size_t b = 0; for (auto& p : gv_faceEdges(m, f, b)) { vs.insert(p.first); vs.insert(p.second); } n++; f = m.getFaces()[f].getNextBElem(c); } while (f != f0 && n < 9); ok = f == f0 && n == 4 && vs == std::set<size_t>(C[c].begin(), C[c].end()); }
    GV_CHECK("keys", ok, d + ": a cell read is not over its vertices or two different faces are one");
}
#endif
template <class M, class RD> static void refuse(const std::string& what, const std::string& text, bool bad) {
    std::string d = "reading " + what; gv_case(d); std::istringstream in(text); M m; RD rd; bool thrown = false;
    try { rd.loadFromStream(in, m); } catch (const std::exception&) { thrown = true; }
    GV_CHECK("refuse", thrown == bad, d + (bad ? " is not refused" : " is refused"));
}
int main(int argc, char** argv) {
    uint64_t seed = std::strtoull(argv[1], 0, 10); bool th = std::string(argv[2]) == "thorough"; int N = th ? 900 : 90;
    std::string h = "# vtk DataFile Version 2.0\nname\n";
#ifdef D2
    run2(seed, N);
    std::string b = "POINTS 4 double\n0 0 0\n1 0 0\n1 1 0\n0 1 0\n\nCELLS 2 8\n3 0 1 2\n3 0 2 3\n\nCELL_TYPES 2\n5\n";
    refuse<M2, VTKMeshReader<2>>("a planar mesh of triangles", h + "ASCII\nDATASET UNSTRUCTURED_GRID\n" + b + "5\n", false);
    refuse<M2, VTKMeshReader<2>>("a binary file", h + "BINARY\nDATASET UNSTRUCTURED_GRID\n" + b + "5\n", true);
    refuse<M2, VTKMeshReader<2>>("a structured grid", h + "ASCII\nDATASET STRUCTURED_GRID\n" + b + "5\n", true);
    refuse<M2, VTKMeshReader<2>>("a file without DATASET", h + "ASCII\nFIELD UNSTRUCTURED_GRID\n" + b + "5\n", true);
    for (int t : {1, 2, 4, 6, 10, 12, 22, 42}) refuse<M2, VTKMeshReader<2>>("a planar cell of type " + std::to_string(t), h + "ASCII\nDATASET UNSTRUCTURED_GRID\n" + b + std::to_string(t) + "\n", true);
#else
    keys3();
    run3(seed, N);
    std::string b = "POINTS 5 double\n0 0 0\n1 0 0\n1 1 0\n0 1 0\n0 0 1\n\nCELLS 2 10\n4 0 1 2 4\n4 0 2 3 4\n\nCELL_TYPES 2\n10\n";
    refuse<M3, VTKMeshReader<3>>("a mesh of tetrahedra", h + "ASCII\nDATASET UNSTRUCTURED_GRID\n" + b + "10\n", false);
    refuse<M3, VTKMeshReader<3>>("a binary file", h + "BINARY\nDATASET UNSTRUCTURED_GRID\n" + b + "10\n", true);
    refuse<M3, VTKMeshReader<3>>("a structured grid", h + "ASCII\nDATASET STRUCTURED_GRID\n" + b + "10\n", true);
    refuse<M3, VTKMeshReader<3>>("a file without DATASET", h + "ASCII\nFIELD UNSTRUCTURED_GRID\n" + b + "10\n", true);
    for (int t : {1, 3, 5, 7, 9, 15, 24, 42}) refuse<M3, VTKMeshReader<3>>("a cell of type " + std::to_string(t), h + "ASCII\nDATASET UNSTRUCTURED_GRID\n" + b + std::to_string(t) + "\n", true);
    refuse<M3, VTKMeshReader<3>>("a cell of seven vertices", h + "ASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS 7 double\n0 0 0\n1 0 0\n1 1 0\n0 1 0\n0 0 1\n0 1 1\n1 1 1\n\nCELLS 1 8\n7 0 1 2 3 4 5 6\n\nCELL_TYPES 1\n12\n", true);
#endif
    return gv_done();
}
