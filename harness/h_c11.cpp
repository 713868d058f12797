// Centers, measures, normals, distances, center differences and orientations
// against independent formulas (Newell area vectors, divergence theorem).
#include "gv_mesh.hpp"
#include <cmath>
#include <sstream>
typedef long double L;
typedef std::array<L, 3> P;
static P operator-(const P& a, const P& b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
static P operator+(const P& a, const P& b) { return {{a[0] + b[0], a[1] + b[1], a[2] + b[2]}}; }
static P operator*(L s, const P& a) { return {{s * a[0], s * a[1], s * a[2]}}; }
static L dot(const P& a, const P& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static P cross(const P& a, const P& b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static L len(const P& a) { return std::sqrt(dot(a, a)); }
static P pt(const std::array<double, 3>& v) { return {{L(v[0]), L(v[1]), L(v[2])}}; }
template <unsigned D> static P vv(const Vertex<D, double>& v) { P p{{0, 0, 0}}; for (unsigned i = 0; i < D; i++) p[i] = v.data()[i]; return p; }
static bool near(L a, L b, L scale, L tol = 1e-9) { return std::fabs(a - b) <= tol * (std::fabs(scale) + std::fabs(b)); }
static bool nearv(const P& a, const P& b, L scale, L tol = 1e-9) { return len(a - b) <= tol * (scale + len(b)); }
static std::string str(const P& p) { std::ostringstream s; s.precision(12); s << "(" << double(p[0]) << "," << double(p[1]) << "," << double(p[2]) << ")"; return s.str(); }
static std::string str(L x) { std::ostringstream s; s.precision(12); s << double(x); return s.str(); }

struct Geo {       // the reference values
    std::vector<P> V; std::vector<std::vector<P>> C; std::vector<std::vector<L>> Ms; std::vector<P> N; L size = 0;
    // vertices of an element in loop order
    static Ids loop(const Ref& r, const Ids& es) {
        Ids l; if (es.size() < 3) return l;
        auto& d = r.down[1];
        std::map<size_t, std::vector<size_t>> at; for (size_t e : es) { at[d[e][0]].push_back(e); at[d[e][1]].push_back(e); }
        size_t v = d[es[0]][0], e = es[0];
        for (size_t i = 0; i < es.size(); i++) { l.push_back(v); v = d[e][0] == v ? d[e][1] : d[e][0]; e = at[v][0] == e ? at[v][1] : at[v][0]; }
        return l;
    }
    P area(const Ref& r, const Ids& es) const { Ids l = loop(r, es); P s{{0, 0, 0}}; for (size_t i = 0; i < l.size(); i++) s = s + cross(V[l[i]] - V[l[0]], V[l[(i + 1) % l.size()]] - V[l[0]]); return L(0.5) * s; }
    explicit Geo(const Ref& r) {
        unsigned D = r.dim; C.resize(D + 1); Ms.resize(D + 1);
        for (auto& v : r.V) { V.push_back(pt(v)); size = std::max(size, len(V.back())); }
        C[0] = V;
        for (unsigned d = 1; d <= D; d++) for (auto& s : r.down[d]) { P c{{0, 0, 0}}; for (size_t k : s) c = c + C[d - 1][k]; C[d].push_back(L(1) / L(s.size()) * c); }
        for (auto& e : r.down[1]) Ms[1].push_back(len(V[e[0]] - V[e[1]]));
        for (auto& f : r.down[2]) Ms[2].push_back(len(area(r, f)));
        if (D == 3) for (size_t c = 0; c < r.n(3); c++) { L v = 0; for (size_t f : r.down[3][c]) { P a = area(r, r.down[2][f]); P q = C[2][f] - C[3][c]; v += std::fabs(dot(a, q)) / 3; } Ms[3].push_back(v); }
        for (size_t f = 0; f < r.n(D - 1); f++) {
            P n;
            if (D == 3) n = area(r, r.down[2][f]); else { P t = V[r.down[1][f][1]] - V[r.down[1][f][0]]; n = {{t[1], -t[0], 0}}; }
            n = L(1) / len(n) * n;
            P out = r.left[f] != SIZE_MAX ? C[D - 1][f] - C[D][r.left[f]] : C[D][r.right[f]] - C[D - 1][f];
            if (dot(n, out) < 0) n = L(-1) * n;
            N.push_back(n);
        }
    }
};
// the vertices under a random affine map (faces stay planar, cells star-shaped)
static void affine(Rng& G, Ref& r) {
    double A[3][3], t[3]; bool plain = G.coin(0.2);
    for (;;) {
        for (int i = 0; i < 3; i++) { t[i] = plain ? 0 : G.range(-5, 5); for (int j = 0; j < 3; j++) A[i][j] = plain ? (i == j) : (i == j ? 1.2 : 0) + G.range(-1, 1); }
        if (r.dim == 2) { A[2][0] = A[2][1] = A[0][2] = A[1][2] = 0; A[2][2] = 1; t[2] = 0; }
        double det = A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]);
        if (std::fabs(det) > 0.15) break;
    }
    double s = G.coin(0.3) ? std::pow(10.0, G.range(-4, 4)) : 1;
    for (auto& v : r.V) { std::array<double, 3> w; for (int i = 0; i < 3; i++) { w[i] = t[i]; for (int j = 0; j < 3; j++) w[i] += A[i][j] * v[j]; w[i] *= s; } if (r.dim == 2) w[2] = 0; v = w; }
}
template <class MD, class F> static void values(const std::string& key, const std::string& in, MD& got, size_t n, F f) {
    if (got.size() != n) { gv_fail(key, in + ": " + std::to_string(got.size()) + " values for " + std::to_string(n) + " elements"); return; }
    for (size_t i = 0; i < n; i++) { std::string m = f(i); if (!m.empty()) { gv_fail(key, in + ": element " + std::to_string(i) + ": " + m); return; } }
}
template <unsigned D, class M> static void centers(const std::string& what, const std::string& in, M& c, const Geo& g) {
    auto& e1 = c.template getDataByDim<1>();
    values(what + "-edge", in, e1, g.C[1].size(), [&](size_t i) { return nearv(vv(e1[i]), g.C[1][i], g.size) ? "" : "center " + str(vv(e1[i])) + " instead of " + str(g.C[1][i]); });
    auto& e2 = c.template getDataByDim<2>();
    values(what + "-2d", in, e2, g.C[2].size(), [&](size_t i) { return nearv(vv(e2[i]), g.C[2][i], g.size) ? "" : "center " + str(vv(e2[i])) + " instead of " + str(g.C[2][i]); });
    auto& e3 = c.template getDataByDim<D>();
    values(what + "-cell", in, e3, g.C[D].size(), [&](size_t i) { return nearv(vv(e3[i]), g.C[D][i], g.size) ? "" : "center " + str(vv(e3[i])) + " instead of " + str(g.C[D][i]); });
}
template <unsigned D, class M> static void measures(const std::string& what, const std::string& in, M& m, const Geo& g) {
    auto& e1 = m.template getDataByDim<1>();
    values(what + "-length", in, e1, g.Ms[1].size(), [&](size_t i) { return near(e1[i], g.Ms[1][i], g.size * 1e-3) ? "" : "length " + str(e1[i]) + " instead of " + str(g.Ms[1][i]); });
    auto& e2 = m.template getDataByDim<2>();
    values(what + "-area", in, e2, g.Ms[2].size(), [&](size_t i) { return near(e2[i], g.Ms[2][i], g.size * g.size * 1e-3) ? "" : "area " + str(e2[i]) + " instead of " + str(g.Ms[2][i]); });
    auto& e3 = m.template getDataByDim<D>();
    if (D == 3) values(what + "-volume", in, e3, g.Ms[D].size(), [&](size_t i) { return near(e3[i], g.Ms[D][i], g.size * g.size * g.size * 1e-3) ? "" : "volume " + str(e3[i]) + " instead of " + str(g.Ms[D][i]); });
}
template <unsigned D, class M> static void normals(const std::string& what, const std::string& in, M& md, const Geo& g) {
    auto& n = md.template getDataByPos<0>();
    values(what, in, n, g.N.size(), [&](size_t i) { return nearv(vv(n[i]), g.N[i], 1, 1e-7) ? "" : "normal " + str(vv(n[i])) + " instead of " + str(g.N[i]); });
}
template <class M> static void tess(M&, const std::string&, const Ref&, const Geo&, std::integral_constant<unsigned, 2>) {}
template <class M> static void tess(M& m, const std::string& in, const Ref& r, const Geo& g, std::integral_constant<unsigned, 3>) {
    auto mt = m.template computeElementMeasures<METHOD_TESSELLATED>(); measures<3>("measure-tessellated", in, mt, g);
    auto nt = m.template computeFaceNormals<METHOD_TESSELLATED>(); normals<3>("normal-tessellated", in, nt, g);
    auto nn = computeFaceNormals<METHOD_DEFAULT>(m).template getDataByPos<0>();
    for (size_t f = 0; f < r.n(2) && f < 40; f++) for (size_t e : r.down[2][f]) {
        P a = g.V[r.down[1][e][0]] - g.C[2][f], b = g.V[r.down[1][e][1]] - g.C[2][f];
        L x = dot(cross(a, b), g.N[f]); if (std::fabs(x) < 1e-9 * g.size * g.size) continue;
        if (edgeIsLeft(m, m.getFaces()[f], m.getEdges()[e], nn[f]) != (x > 0)) { gv_fail("edge-left", in + ": face " + std::to_string(f) + " edge " + std::to_string(e)); return; }
    }
    auto o = edgesOrientation(m); auto& od = o.template getDataByPos<0>();
    if (od.size() != r.n(2)) { gv_fail("edges-orientation", in + ": " + std::to_string(od.size()) + " entries"); return; }
    for (size_t f = 0; f < r.n(2); f++) {
        if (od[f].size() != r.down[2][f].size()) { gv_fail("edges-orientation", in + ": face " + std::to_string(f) + " has " + std::to_string(od[f].size()) + " entries"); return; }
        for (size_t k = 0; k < r.down[2][f].size(); k++) {
            size_t e = r.down[2][f][k]; P a = g.V[r.down[1][e][0]] - g.C[2][f], b = g.V[r.down[1][e][1]] - g.C[2][f];
            L x = dot(cross(a, b), g.N[f]); if (std::fabs(x) < 1e-9 * g.size * g.size) continue;
            if (od[f][k] != (x > 0)) { gv_fail("edges-orientation", in + ": face " + std::to_string(f) + " edge " + std::to_string(k)); return; }
        }
    }
    if (r.n(2) < 60) { size_t f = 0, e = r.down[2][0].back(); P a = g.V[r.down[1][e][0]] - g.C[2][f], b = g.V[r.down[1][e][1]] - g.C[2][f]; L x = dot(cross(a, b), g.N[f]); if (std::fabs(x) > 1e-9 * g.size * g.size && edgeIsLeft(m, f, e) != (x > 0)) gv_fail("edge-left", in + ": by index: face 0 edge " + std::to_string(e)); }
}
template <class M> static void left2(M& m, const std::string& in, const Ref& r, const Geo& g, std::integral_constant<unsigned, 3>) {}
template <class M> static void left2(M& m, const std::string& in, const Ref& r, const Geo& g, std::integral_constant<unsigned, 2>) {
    for (size_t c = 0; c < r.n(2); c++) for (size_t e : r.down[2][c]) {
        P a = g.V[r.down[1][e][0]] - g.C[2][c], b = g.V[r.down[1][e][1]] - g.C[2][c]; L x = cross(a, b)[2]; if (std::fabs(x) < 1e-9 * g.size * g.size) continue;
        if (edgeIsLeft(m, m.getCells()[c], m.getEdges()[e]) != (x > 0) || edgeIsLeft(m, c, e) != (x > 0)) { gv_fail("edge-left", in + ": cell " + std::to_string(c) + " edge " + std::to_string(e)); return; }
    }
}
template <class M> static void between(M& m, const std::string& in, const Ref& r, const Geo& g, const std::string& sfx) {
    constexpr unsigned D = M::meshDimension();
    auto d = computeCellsDistance(m); auto& dd = d.template getDataByPos<0>();
    auto c = computeCellsCenterDifference(m); auto& cc = c.template getDataByPos<0>();
    auto L_ = [&](size_t f) { return r.left[f] == SIZE_MAX ? g.C[D - 1][f] : g.C[D][r.left[f]]; };
    auto R_ = [&](size_t f) { return r.right[f] == SIZE_MAX ? g.C[D - 1][f] : g.C[D][r.right[f]]; };
    values("distance" + sfx, in, dd, r.n(D - 1), [&](size_t f) { L w = len(R_(f) - L_(f)); return near(dd[f], w, g.size) ? "" : "distance " + str(dd[f]) + " instead of " + str(w); });
    values("difference" + sfx, in, cc, r.n(D - 1), [&](size_t f) { P w = R_(f) - L_(f); return nearv(vv(cc[f]), w, g.size) ? "" : "difference " + str(vv(cc[f])) + " instead of " + str(w); });
}
template <class M> static void one(uint64_t seed, int size) {
    constexpr unsigned D = M::meshDimension();
    Rng G(seed);
    GenOpts o = gv_opts(G, D == 3, size);
    Ref r = gv_generate(G, o); affine(G, r);
    for (auto& f : r.down[D == 3 ? 2 : 1]) { (void) f; if (D == 3 && G.coin(0.3)) std::reverse(f.begin(), f.end()); if (D == 3 && G.coin(0.3)) G.shuffle(f); }
    // some interior faces lose a cell side only through dropped cells; swap sides at random
    for (size_t f = 0; f < r.left.size(); f++) if (G.coin(0.3)) std::swap(r.left[f], r.right[f]);
    std::string in = gv_desc(o, seed); gv_case(in);
    Geo g(r);
    M m; gv_fill(m, r);
    auto cen = computeCenters<METHOD_DEFAULT>(m); centers<D>("center", in, cen, g);
    auto cen2 = m.computeElementCenters(); centers<D>("center-member", in, cen2, g);
    if (G.coin()) m.initializeCenters(); else m.initializeCenters(cen);
    for (size_t i = 0; i < r.n(D); i++) if (!nearv(vv(m.getCells()[i].getCenter()), g.C[D][i], g.size)) { gv_fail("center-init", in + ": cell " + std::to_string(i)); break; }
    for (size_t i = 0; i < r.n(D - 1); i++) if (!nearv(vv(m.getFaces()[i].getCenter()), g.C[D - 1][i], g.size)) { gv_fail("center-init", in + ": face " + std::to_string(i)); break; }
    auto all = [&](const std::string& s) {
        auto me = m.computeElementMeasures(); measures<D>("measure" + s, in, me, g);
        auto me2 = computeMeasures<METHOD_DEFAULT>(m); measures<D>("measure" + s, in, me2, g);
        auto no = m.computeFaceNormals(); normals<D>("normal" + s, in, no, g);
        tess(m, in, r, g, std::integral_constant<unsigned, D>());
        left2(m, in, r, g, std::integral_constant<unsigned, D>());
        between(m, in, r, g, s);
    };
    all("");
    auto before = m.getCells();
    m.setupBoundaryCells(); m.setupBoundaryCellsCenters();
    all("-with-boundary-cells");
    for (size_t i = 0; i < r.V.size(); i++) for (unsigned d = 0; d < D; d++) if (m.getVertices()[i][d] != r.V[i][d]) { gv_fail("geometry-changes-mesh", in + ": vertex " + std::to_string(i)); i = r.V.size() - 1; break; }
}
int main(int, char** argv) {
    uint64_t s = strtoull(argv[1], 0, 10) * 1000003;
    bool deep = std::string(argv[2]) != "quick";
    for (int i = 0; i < (deep ? 3000 : 250); i++) {
        int sz = i % 40 == 39 ? 9 : 1 + i % 4;
#ifdef P2
        one<UnstructuredMesh<2, size_t, double>>(s + i, sz * 2);
#elif defined(P3)
        one<UnstructuredMesh<3, size_t, double>>(s + i, sz);
#else
        one<UnstructuredMesh<3, size_t, double, 6>>(s + i, sz);
#endif
    }
    return gv_done();
}
