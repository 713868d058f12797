// Comparison of a loaded mesh with an independent description (round trips).
#ifndef GV_IO_HPP
#define GV_IO_HPP
#include "gv_mesh.hpp"
#include <sstream>
#include <cmath>
#include <limits>
typedef std::pair<size_t, size_t> Pr;
static Pr gv_pr(size_t a, size_t b) { return Pr(std::min(a, b), std::max(a, b)); }
// meshes of standard shapes: 0 Kuhn tetrahedra, 1 hexahedra and pyramids, 2 prisms over triangles and
// quadrilaterals (wedges and hexahedra); type codes as in MeshNativeType<3>
static Ref gv_shapes(Rng& R, size_t nx, size_t ny, size_t nz, int kind, bool jitter, std::vector<int>& types) {
    std::vector<std::array<double, 3>> V; std::vector<std::vector<Ids>> C; std::vector<int> T;
    auto id = [&](size_t x, size_t y, size_t z) { return (z * (ny + 1) + y) * (nx + 1) + x; };
    for (size_t z = 0; z <= nz; z++) for (size_t y = 0; y <= ny; y++) for (size_t x = 0; x <= nx; x++) {
        double j = jitter ? 0.1 : 0;
        V.push_back({{x + R.range(-j, j), y + R.range(-j, j), double(z) * 1.25 + R.range(-j, j)}});
    }
    for (size_t z = 0; z < nz; z++) for (size_t y = 0; y < ny; y++) for (size_t x = 0; x < nx; x++) {
        size_t c[8]; for (int b = 0; b < 8; b++) c[b] = id(x + (b & 1), y + (b >> 1 & 1), z + (b >> 2));
        std::vector<Ids> q = {{c[0], c[1], c[3], c[2]}, {c[4], c[5], c[7], c[6]}, {c[0], c[1], c[5], c[4]}, {c[2], c[3], c[7], c[6]}, {c[0], c[2], c[6], c[4]}, {c[1], c[3], c[7], c[5]}};
        if (kind == 0) {
            int p[3] = {1, 2, 4};
            do { size_t a = c[0], b = c[p[0]], d = c[p[0] | p[1]], e = c[7]; C.push_back({{a, b, d}, {a, b, e}, {a, d, e}, {b, d, e}}); T.push_back(300); } while (std::next_permutation(p, p + 3));
        } else if (kind == 1) {
            if (R.coin()) { C.push_back(q); T.push_back(301); }
            else { size_t m = V.size(); std::array<double, 3> s{{0, 0, 0}}; for (size_t k : c) for (int d = 0; d < 3; d++) s[d] += V[k][d] / 8; V.push_back(s);
                for (auto& f : q) { std::vector<Ids> fs = {f}; for (int k = 0; k < 4; k++) fs.push_back({f[k], f[(k + 1) % 4], m}); C.push_back(fs); T.push_back(303); } }
        }
    }
    if (kind == 2) for (size_t y = 0; y < ny; y++) for (size_t x = 0; x < nx; x++) {
        bool sp = R.coin(), dg = R.coin();
        std::vector<std::array<size_t, 2>> L = {{{x, y}}, {{x + 1, y}}, {{x + 1, y + 1}}, {{x, y + 1}}};
        std::vector<Ids> base; if (!sp) base = {{0, 1, 2, 3}}; else if (dg) base = {{0, 1, 2}, {0, 2, 3}}; else base = {{1, 2, 3}, {1, 3, 0}};
        for (auto& b : base) for (size_t z = 0; z < nz; z++) {
            Ids lo, hi; for (size_t k : b) { lo.push_back(id(L[k][0], L[k][1], z)); hi.push_back(id(L[k][0], L[k][1], z + 1)); }
            std::vector<Ids> fs = {lo, hi}; for (size_t k = 0; k < b.size(); k++) { size_t n = (k + 1) % b.size(); fs.push_back({lo[k], lo[n], hi[n], hi[k]}); }
            C.push_back(fs); T.push_back(b.size() == 3 ? 302 : 301);
        }
    }
    std::map<Pr, size_t> em; std::map<std::set<size_t>, size_t> fm;
    Ref m; m.dim = 3; m.down.resize(4);
    Ids vp = gv_perm(R, V.size(), true), cp = gv_perm(R, C.size(), true);
    m.V.resize(V.size()); for (size_t i = 0; i < V.size(); i++) m.V[vp[i]] = V[i];
    m.down[3].resize(C.size()); types.assign(C.size(), 0);
    for (size_t c = 0; c < C.size(); c++) {
        types[cp[c]] = T[c]; R.shuffle(C[c]);
        for (auto& f : C[c]) {
            Ids g; for (size_t v : f) g.push_back(vp[v]);
            if (R.coin()) std::reverse(g.begin(), g.end());
            std::rotate(g.begin(), g.begin() + R.below(g.size()), g.end());
            std::set<size_t> k(g.begin(), g.end()); auto it = fm.find(k);
            if (it == fm.end()) {
                Ids es; for (size_t i = 0; i < g.size(); i++) { size_t a = g[i], b = g[(i + 1) % g.size()]; auto e = em.find(gv_pr(a, b)); if (e == em.end()) { e = em.emplace(gv_pr(a, b), m.down[1].size()).first; m.down[1].push_back(R.coin() ? Ids{a, b} : Ids{b, a}); } es.push_back(e->second); }
                if (R.coin()) R.shuffle(es);
                it = fm.emplace(k, m.down[2].size()).first; m.down[2].push_back(es);
            }
            m.down[3][cp[c]].push_back(it->second);
        }
    }
    m.left.assign(m.n(2), SIZE_MAX); m.right.assign(m.n(2), SIZE_MAX);
    for (size_t c = 0; c < m.n(3); c++) for (size_t f : m.down[3][c]) { bool l = m.left[f] == SIZE_MAX && (m.right[f] != SIZE_MAX || R.coin()); (l ? m.left : m.right)[f] = c; }
    return m;
}
static std::set<Pr> gv_faceEdges(const Ref& r, size_t f) { std::set<Pr> s; if (r.dim == 2) s.insert(gv_pr(r.down[1][f][0], r.down[1][f][1])); else for (size_t e : r.down[2][f]) s.insert(gv_pr(r.down[1][e][0], r.down[1][e][1])); return s; }
template <class M> struct gv_mdim { enum { v = M::meshDimension() }; };
template <unsigned int... Rs> static std::vector<Pr> gv_faceEdges(const UnstructuredMesh<3, size_t, double, Rs...>& m, size_t f, size_t& bad) { std::vector<Pr> s; for (auto& e : m.getFaces()[f].getSubelements()) { if (size_t(e) >= m.getEdges().size()) { bad = 1; return s; } s.push_back(gv_pr(m.getEdges()[e].getVertexAIndex(), m.getEdges()[e].getVertexBIndex())); } return s; }
template <unsigned int... Rs> static std::vector<Pr> gv_faceEdges(const UnstructuredMesh<2, size_t, double, Rs...>& m, size_t f, size_t&) { return {gv_pr(m.getEdges()[f].getVertexAIndex(), m.getEdges()[f].getVertexBIndex())}; }
static bool gv_close(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
// the mesh m describes the same mesh as r, up to the numbering of edges and faces and the order of the rings
template <class M> static bool gv_same(const M& m, const Ref& r, double tol, const std::string& w) {
    const unsigned D = r.dim; char b[200];
    if (m.getVertices().size() != r.V.size()) { gv_fail("vertices", w + ": " + std::to_string(m.getVertices().size()) + " vertices read, " + std::to_string(r.V.size()) + " written"); return false; }
    for (size_t i = 0; i < r.V.size(); i++) { if (m.getVertices()[i].getIndex() != i) { gv_fail("vertex-index", w + ": vertex " + std::to_string(i) + " has index " + std::to_string(m.getVertices()[i].getIndex())); return false; }
        for (unsigned k = 0; k < D; k++) if (!gv_close(m.getVertices()[i][k], r.V[i][k], tol)) { std::snprintf(b, sizeof b, ": vertex %zu coordinate %u read %.17g written %.17g", i, k, m.getVertices()[i][k], r.V[i][k]); gv_fail("vertex", w + b); return false; } }
    if (m.getEdges().size() != r.n(1)) { gv_fail("edges", w + ": " + std::to_string(m.getEdges().size()) + " edges read, " + std::to_string(r.n(1)) + " written"); return false; }
    std::set<Pr> eg, ew; for (size_t e = 0; e < r.n(1); e++) { ew.insert(gv_pr(r.down[1][e][0], r.down[1][e][1])); eg.insert(gv_pr(m.getEdges()[e].getVertexAIndex(), m.getEdges()[e].getVertexBIndex())); if (m.getEdges()[e].getIndex() != e) { gv_fail("edge-index", w + ": edge " + std::to_string(e) + " has index " + std::to_string(m.getEdges()[e].getIndex())); return false; } }
    if (eg != ew) { gv_fail("edges", w + ": the edges read join other vertices than those written"); return false; }
    if (m.getFaces().size() != r.n(D - 1)) { gv_fail("faces", w + ": " + std::to_string(m.getFaces().size()) + " faces read, " + std::to_string(r.n(D - 1)) + " written"); return false; }
    if (m.getCells().size() != r.n(D)) { gv_fail("cells", w + ": " + std::to_string(m.getCells().size()) + " cells read, " + std::to_string(r.n(D)) + " written"); return false; }
    std::map<std::set<Pr>, size_t> fmap; for (size_t f = 0; f < r.n(D - 1); f++) fmap[gv_faceEdges(r, f)] = f;
    Ids to(r.n(D - 1)); std::set<size_t> used;
    for (size_t f = 0; f < r.n(D - 1); f++) {
        size_t bad = 0; auto es = gv_faceEdges(m, f, bad); std::set<Pr> k(es.begin(), es.end());
        auto it = fmap.find(k);
        if (bad || k.size() != es.size() || it == fmap.end() || !used.insert(it->second).second) { gv_fail("face-edges", w + ": face " + std::to_string(f) + " of the mesh read has edges of no face written or repeats them"); return false; }
        to[f] = it->second;
        if (m.getFaces()[f].getIndex() != f) { gv_fail("face-index", w + ": face " + std::to_string(f) + " has index " + std::to_string(m.getFaces()[f].getIndex())); return false; }
        std::multiset<size_t> a{m.getFaces()[f].getCellLeftIndex() == INVALID_INDEX(size_t) ? SIZE_MAX : size_t(m.getFaces()[f].getCellLeftIndex()), m.getFaces()[f].getCellRightIndex() == INVALID_INDEX(size_t) ? SIZE_MAX : size_t(m.getFaces()[f].getCellRightIndex())};
        std::multiset<size_t> c{r.left[to[f]], r.right[to[f]]};
        if (a != c) { gv_fail("face-cells", w + ": face " + std::to_string(f) + " of the mesh read is attached to other cells than the one written"); return false; }
    }
    for (size_t c = 0; c < r.n(D); c++) {
        if (m.getCells()[c].getIndex() != c) { gv_fail("cell-index", w + ": cell " + std::to_string(c) + " has index " + std::to_string(m.getCells()[c].getIndex())); return false; }
        std::set<size_t> want(r.down[D][c].begin(), r.down[D][c].end()), got; size_t f = m.getCells()[c].getBoundaryElementIndex(), s = f, n = 0; bool ok = true;
        do { if (f >= m.getFaces().size()) { ok = false; break; } got.insert(to[f]); n++; auto& F = m.getFaces()[f]; if (F.getCellLeftIndex() != c && F.getCellRightIndex() != c) { ok = false; break; } f = F.getNextBElem(c); } while (f != s && n <= want.size());
        if (!ok || f != s || n != want.size() || got != want) { gv_fail("ring", w + ": the ring of cell " + std::to_string(c) + " does not visit each of its " + std::to_string(want.size()) + " faces exactly once"); return false; }
    }
    return true;
}
static void gv_scale(Ref& r, double s, double t) { for (auto& v : r.V) for (auto& x : v) x = x * s + t; }
// whitespace separated tokens of a text
struct Toks { std::vector<std::string> t; size_t p = 0; explicit Toks(const std::string& s) { std::istringstream i(s); std::string w; while (i >> w) t.push_back(w); } bool end() const { return p >= t.size(); } std::string str() { return end() ? std::string() : t[p++]; } double num() { return std::strtod(str().c_str(), 0); } size_t idx() { return size_t(std::strtoull(str().c_str(), 0, 10)); } };
#endif
