// Random polygonal / polyhedral meshes with an independent description of
// their incidence (used as the oracle of the concrete supplements).
#ifndef GV_MESH_HPP
#define GV_MESH_HPP
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <GTMesh/UnstructuredMesh/MeshFunctions/MeshFunctions.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <functional>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    size_t below(size_t n) { return n ? size_t(next() >> 11) % n : 0; }
    double unit() { return double(next() >> 11) / 9007199254740992.0; }
    double range(double a, double b) { return a + (b - a) * unit(); }
    bool coin(double p = 0.5) { return unit() < p; }
    template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]); }
};

static size_t gv_cases = 0, gv_fails = 0;
static std::set<std::string> gv_seen;
static void gv_fail(const std::string& key, const std::string& what) {
    gv_fails++;
    if (gv_seen.count(key) && gv_fails > 20) return;
    gv_seen.insert(key);
    std::string w = what;
    for (auto& c : w) if (c == '\n') c = ' ';
    std::printf("FAIL %s %s\n", key.c_str(), w.c_str());
    std::fflush(stdout);
}
static void gv_case(const std::string& d) { gv_cases++; if (gv_cases < 5000 || gv_cases % 16 == 0) { std::printf("CASE %s\n", d.c_str()); std::fflush(stdout); } }
static int gv_done() { std::printf("CASES %zu\n", gv_cases); std::fflush(stdout); return 0; }
#define GV_CHECK(key, cond, what) do { if (!(cond)) gv_fail(key, what); } while (0)
template <class T> static std::string gv_list(const std::vector<T>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::to_string((long long)v[i]); return r + "]"; }

typedef std::vector<size_t> Ids;

// incidence description: down[d][i] = sub-elements of dimension d-1 of element i
// of dimension d, in storage order (cells: boundary ring order; edges: A, B)
struct Ref {
    unsigned dim = 3;
    std::vector<std::array<double, 3>> V;
    std::vector<std::vector<Ids>> down;
    std::vector<size_t> left, right;      // cells of the faces (SIZE_MAX: none)
    bool convexCells = true;
    size_t n(unsigned d) const { return d == 0 ? V.size() : down[d].size(); }

    // first-visit list of the T-dimensional elements met when walking down from (S,i), S > T,
    // with multiplicity
    void walk(unsigned S, unsigned T, size_t i, Ids& out) const {
        if (S == T) { out.push_back(i); return; }
        for (size_t k : down[S][i]) {
            if (S - 1 == T) out.push_back(k); else walk(S - 1, T, k, out);
        }
    }
    // order of the calls of the traversal from S to T (from all elements)
    std::vector<std::pair<size_t, size_t>> calls(unsigned S, unsigned T) const {
        std::vector<std::pair<size_t, size_t>> r;
        unsigned H = std::max(S, T), L = std::min(S, T);
        for (size_t i = 0; i < n(H); i++) {
            Ids o; walk(H, L, i, o);
            for (size_t k : o) r.push_back(S >= T ? std::make_pair(i, k) : std::make_pair(k, i));
        }
        return r;
    }
    std::vector<std::set<size_t>> incid(unsigned S, unsigned T) const {
        std::vector<std::set<size_t>> r(n(S));
        for (auto& p : calls(S, T)) r[p.first].insert(p.second);
        return r;
    }
};

struct GenOpts {
    size_t nx = 2, ny = 2, nz = 2;
    bool split = true, merge = true, drop = false, permute = true, jitter = true;
    bool threeD = true;
};

// 2D polygon soup -> list of vertex loops
static void gv_polys(Rng& R, const GenOpts& o, std::vector<std::array<double, 3>>& V, std::vector<Ids>& P, bool& convex) {
    size_t W = o.nx + 1, H = o.ny + 1;
    for (size_t y = 0; y < H; y++) for (size_t x = 0; x < W; x++) {
        double jx = o.jitter ? R.range(-0.18, 0.18) : 0, jy = o.jitter ? R.range(-0.18, 0.18) : 0;
        V.push_back({{double(x) + jx, double(y) + jy, 0.0}});
    }
    std::vector<char> used(o.nx * o.ny, 0);
    auto id = [&](size_t x, size_t y) { return y * W + x; };
    for (size_t y = 0; y < o.ny; y++) for (size_t x = 0; x < o.nx; x++) {
        if (used[y * o.nx + x]) continue;
        used[y * o.nx + x] = 1;
        if (o.drop && R.coin(0.12) && o.nx * o.ny > 2) continue;
        Ids q = {id(x, y), id(x + 1, y), id(x + 1, y + 1), id(x, y + 1)};
        if (o.merge && x + 1 < o.nx && R.coin(0.25)) {
            used[y * o.nx + x + 1] = 1;
            P.push_back({id(x, y), id(x + 1, y), id(x + 2, y), id(x + 2, y + 1), id(x + 1, y + 1), id(x, y + 1)});
            if (o.jitter) convex = false;
        } else if (o.split && R.coin(0.35)) {
            if (R.coin()) { P.push_back({q[0], q[1], q[2]}); P.push_back({q[0], q[2], q[3]}); }
            else { P.push_back({q[1], q[2], q[3]}); P.push_back({q[1], q[3], q[0]}); }
        } else P.push_back(q);
    }
    for (auto& p : P) { if (R.coin()) std::reverse(p.begin(), p.end()); std::rotate(p.begin(), p.begin() + R.below(p.size()), p.end()); }
}

static Ids gv_perm(Rng& R, size_t n, bool on) { Ids p(n); for (size_t i = 0; i < n; i++) p[i] = i; if (on) R.shuffle(p); return p; }

static Ref gv_generate(Rng& R, const GenOpts& o) {
    Ref m;
    std::vector<std::array<double, 3>> V2; std::vector<Ids> P;
    bool convex = true;
    do { V2.clear(); P.clear(); convex = true; gv_polys(R, o, V2, P, convex); } while (P.empty());
    m.convexCells = convex;
    std::vector<Ids> faceLoops; std::vector<Ids> cellFaces;
    std::map<std::pair<size_t, size_t>, size_t> em; std::vector<Ids> E;
    auto edge = [&](size_t a, size_t b) {
        auto k = std::make_pair(std::min(a, b), std::max(a, b));
        auto it = em.find(k);
        if (it != em.end()) return it->second;
        size_t id = E.size(); em[k] = id;
        E.push_back(R.coin() ? Ids{a, b} : Ids{b, a});
        return id;
    };
    if (!o.threeD) {
        m.dim = 2; m.V = V2; m.down.resize(3);
        for (auto& p : P) { Ids c; for (size_t i = 0; i < p.size(); i++) c.push_back(edge(p[i], p[(i + 1) % p.size()])); cellFaces.push_back(c); }
        m.down[1] = E; m.down[2] = cellFaces;
    } else {
        m.dim = 3; m.down.resize(4);
        size_t n2 = V2.size();
        double hz = R.range(0.6, 1.7), sx = R.range(-0.2, 0.2);
        for (size_t z = 0; z <= o.nz; z++) for (auto& v : V2) m.V.push_back({{v[0] + sx * double(z), v[1], hz * double(z)}});
        std::map<std::set<size_t>, size_t> fm; std::vector<Ids> F;
        auto face = [&](const Ids& loop) {
            std::set<size_t> k(loop.begin(), loop.end());
            auto it = fm.find(k);
            if (it != fm.end()) return it->second;
            Ids es; for (size_t i = 0; i < loop.size(); i++) es.push_back(edge(loop[i], loop[(i + 1) % loop.size()]));
            size_t id = F.size(); fm[k] = id; F.push_back(es); return id;
        };
        for (size_t z = 0; z < o.nz; z++) for (auto& p : P) {
            Ids lo, hi, c;
            for (size_t v : p) { lo.push_back(v + n2 * z); hi.push_back(v + n2 * (z + 1)); }
            c.push_back(face(lo)); c.push_back(face(hi));
            for (size_t i = 0; i < p.size(); i++) { size_t j = (i + 1) % p.size(); c.push_back(face({lo[i], lo[j], hi[j], hi[i]})); }
            R.shuffle(c);
            cellFaces.push_back(c);
        }
        m.down[1] = E; m.down[2] = F; m.down[3] = cellFaces;
    }
    // renumber everything at random
    unsigned D = m.dim;
    std::vector<Ids> pm(D + 1);
    for (unsigned d = 0; d <= D; d++) pm[d] = gv_perm(R, m.n(d), o.permute);
    Ref r; r.dim = D; r.convexCells = m.convexCells; r.V.resize(m.V.size()); r.down.resize(D + 1);
    for (size_t i = 0; i < m.V.size(); i++) r.V[pm[0][i]] = m.V[i];
    for (unsigned d = 1; d <= D; d++) {
        r.down[d].resize(m.down[d].size());
        for (size_t i = 0; i < m.down[d].size(); i++) { Ids s; for (size_t k : m.down[d][i]) s.push_back(pm[d - 1][k]); r.down[d][pm[d][i]] = s; }
    }
    r.left.assign(r.n(D - 1), SIZE_MAX); r.right.assign(r.n(D - 1), SIZE_MAX);
    for (size_t c = 0; c < r.n(D); c++) for (size_t f : r.down[D][c]) {
        bool toLeft = r.left[f] == SIZE_MAX && (r.right[f] != SIZE_MAX || R.coin());
        (toLeft ? r.left : r.right)[f] = c;
    }
    return r;
}

template <unsigned D> struct gv_put {
    template <class M> static void vertex(M& m, size_t i, const std::array<double, 3>& p) { for (unsigned k = 0; k < M::meshDimension(); k++) m.getVertices()[i][k] = p[k]; }
};

// fills a mesh of the library from the description
template <class M> static void gv_cells(M& m, const Ref& r) {
    unsigned D = r.dim;
    m.getCells().resize(r.n(D));
    for (size_t f = 0; f < r.n(D - 1); f++) {
        m.getFaces()[f].setCellLeftIndex(r.left[f] == SIZE_MAX ? INVALID_INDEX(size_t) : r.left[f]);
        m.getFaces()[f].setCellRightIndex(r.right[f] == SIZE_MAX ? INVALID_INDEX(size_t) : r.right[f]);
    }
    for (size_t c = 0; c < r.n(D); c++) {
        m.getCells()[c].setIndex(c);
        m.getCells()[c].setBoundaryElementIndex(r.down[D][c][0]);
        for (size_t k = 0; k < r.down[D][c].size(); k++) {
            auto& f = m.getFaces()[r.down[D][c][k]];
            size_t nx = r.down[D][c][(k + 1) % r.down[D][c].size()];
            if (r.left[r.down[D][c][k]] == c) f.setNextBElemWRTCL(nx); else f.setNextBElemWRTCR(nx);
        }
    }
}
template <class M> static void gv_edges(M& m, const Ref& r) {
    m.getVertices().resize(r.V.size());
    for (size_t i = 0; i < r.V.size(); i++) { m.getVertices()[i].setIndex(i); gv_put<0>::vertex(m, i, r.V[i]); }
    m.getEdges().resize(r.n(1));
    for (size_t i = 0; i < r.n(1); i++) { m.getEdges()[i].setIndex(i); m.getEdges()[i].setVertexAIndex(r.down[1][i][0]); m.getEdges()[i].setVertexBIndex(r.down[1][i][1]); }
}
template <unsigned int... Rs> static void gv_fill(UnstructuredMesh<3, size_t, double, Rs...>& m, const Ref& r) {
    m.clear(); m.getBoundaryCells().clear();
    gv_edges(m, r);
    m.getFaces().resize(r.n(2));
    for (size_t i = 0; i < r.n(2); i++) { m.getFaces()[i].setIndex(i); for (size_t e : r.down[2][i]) m.getFaces()[i].getSubelements().addSubelement(e); }
    gv_cells(m, r);
}
template <unsigned int... Rs> static void gv_fill(UnstructuredMesh<2, size_t, double, Rs...>& m, const Ref& r) {
    m.clear(); m.getBoundaryCells().clear();
    gv_edges(m, r);
    gv_cells(m, r);
}
static GenOpts gv_opts(Rng& R, bool threeD, int size) {
    GenOpts o; o.threeD = threeD;
    o.nx = 1 + R.below(size); o.ny = 1 + R.below(size); o.nz = 1 + R.below(threeD ? size : 1);
    o.split = R.coin(0.7); o.merge = R.coin(0.6); o.drop = R.coin(0.4); o.permute = R.coin(0.8); o.jitter = R.coin(0.7);
    return o;
}
static std::string gv_desc(const GenOpts& o, uint64_t seed) {
    char b[160]; std::snprintf(b, sizeof b, "%s grid %zux%zux%zu split=%d merge=%d drop=%d permute=%d jitter=%d seed=%llu", o.threeD ? "3D" : "2D", o.nx, o.ny, o.nz, o.split, o.merge, o.drop, o.permute, o.jitter, (unsigned long long)seed);
    return b;
}
#endif
