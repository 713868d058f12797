// Colourings: elements sharing a connecting element never share a colour.
#include "gv_mesh.hpp"
template <class C> static void proper(const C& col, unsigned S, unsigned C2, const Ref& r, const std::string& d, unsigned* mx = nullptr) {
    auto& c = col.template getDataByPos<0>();
    std::string w = d + " coloured " + std::to_string(S) + " connecting " + std::to_string(C2);
    if (c.size() != r.n(S)) { gv_fail("color-size", w); return; }
    auto inc = r.incid(C2, S);
    unsigned deg = 0;
    for (size_t x = 0; x < inc.size(); x++) {
        std::map<unsigned, size_t> seen;
        for (size_t e : inc[x]) {
            auto it = seen.find(c[e]);
            if (it != seen.end()) { gv_fail("color-proper", w + ": elements " + std::to_string(it->second) + " and " + std::to_string(e) + " share connecting element " + std::to_string(x) + " and colour " + std::to_string(c[e])); return; }
            seen[c[e]] = e;
        }
    }
    // greedy bound: a colour never exceeds the number of conflicting elements
    auto fwd = r.incid(S, C2);
    for (size_t e = 0; e < c.size(); e++) {
        std::set<size_t> conf; for (size_t x : fwd[e]) conf.insert(inc[x].begin(), inc[x].end());
        if (mx) { if (c[e] > *mx) { gv_fail("color-bound", w + ": colour " + std::to_string(c[e]) + " of element " + std::to_string(e) + " exceeds the greedy maximum " + std::to_string(*mx)); return; } }
        else { unsigned k = conf.size() ? conf.size() - 1 : 0; if (c[e] > k) { gv_fail("color-bound", w + ": colour " + std::to_string(c[e]) + " of element " + std::to_string(e) + " with " + std::to_string(k) + " conflicting elements"); return; } deg = std::max(deg, c[e]); }
    }
}
template <unsigned S, unsigned C, class M> static void one(const M& m, const Ref& r, const std::string& d, unsigned seed) {
    auto g = MeshColoring<S, C>::color(m);
    proper(g, S, C, r, d + " greedy");
    unsigned mx = 0; for (auto x : g.template getDataByPos<0>()) mx = std::max(mx, x);
    if (r.n(S)) { auto q = MeshColoring<S, C, METHOD_RANDOM>::color(m, seed); proper(q, S, C, r, d + " random seed " + std::to_string(seed), &mx); }
}
template <class M> static void all3(const M& m, const Ref& r, const std::string& d, unsigned s) {
    one<3,2>(m,r,d,s); one<3,1>(m,r,d,s); one<3,0>(m,r,d,s); one<2,3>(m,r,d,s); one<2,1>(m,r,d,s); one<2,0>(m,r,d,s);
    one<1,3>(m,r,d,s); one<1,2>(m,r,d,s); one<1,0>(m,r,d,s); one<0,3>(m,r,d,s); one<0,2>(m,r,d,s); one<0,1>(m,r,d,s);
}
template <class M> static void all2(const M& m, const Ref& r, const std::string& d, unsigned s) {
    one<2,1>(m,r,d,s); one<2,0>(m,r,d,s); one<1,2>(m,r,d,s); one<1,0>(m,r,d,s); one<0,2>(m,r,d,s); one<0,1>(m,r,d,s);
}
// n triangles around one vertex
static Ref fan(size_t n) {
    Ref r; r.dim = 2; r.down.resize(3); r.V.push_back({{0, 0, 0}});
    for (size_t i = 0; i < n; i++) r.V.push_back({{std::cos(6.2831853 * i / n), std::sin(6.2831853 * i / n), 0}});
    for (size_t i = 0; i < n; i++) r.down[1].push_back({0, 1 + i});
    for (size_t i = 0; i < n; i++) r.down[1].push_back({1 + i, 1 + (i + 1) % n});
    for (size_t i = 0; i < n; i++) r.down[2].push_back({i, n + i, (i + 1) % n});
    r.left.assign(2 * n, SIZE_MAX); r.right = r.left;
    for (size_t c = 0; c < n; c++) for (size_t f : r.down[2][c]) (r.left[f] == SIZE_MAX ? r.left : r.right)[f] = c;
    return r;
}
int main(int argc, char** argv) {
    uint64_t seed = std::strtoull(argv[1], 0, 10); bool th = std::string(argv[2]) == "thorough";
    int N = th ? 300 : 30;
    for (int i = 0; i < N; i++) {
        Rng R(seed * 400009 + i);
        GenOpts o = gv_opts(R, i % 3 != 0, 4);
        Ref r = gv_generate(R, o); std::string d = gv_desc(o, seed * 400009 + i);
        gv_case(d);
        if (o.threeD) { UnstructuredMesh<3, size_t, double> m; gv_fill(m, r); all3(m, r, d, i); }
        else { UnstructuredMesh<2, size_t, double> m; gv_fill(m, r); all2(m, r, d, i); }
    }
    for (size_t n : {3, 15, 16, 17, 18, 31, 32, 33, 34, 40, 64, 65, 70}) {
        Ref r = fan(n); std::string d = "fan of " + std::to_string(n) + " triangles"; gv_case(d);
        UnstructuredMesh<2, size_t, double> m; gv_fill(m, r); all2(m, r, d, n); all2(m, r, d, n + 1000);
    }
    return gv_done();
}
