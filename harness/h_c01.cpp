// Mesh traversal: every (start, target) pair of dimensions, whole mesh and single start element.
#include "gv_mesh.hpp"
template <unsigned S, unsigned T, class M> struct One {
    static typename std::enable_if<(S > T)>::type dummy();
};
template <unsigned S, unsigned T, class M> static typename std::enable_if<(S >= T)>::type one(const M& m, const Ref& r, const std::string& d) {
    for (size_t i = 0; i < r.n(S); i++) {
        std::vector<std::pair<size_t, size_t>> got, exp; Ids o; r.walk(S, T, i, o);
        for (size_t k : o) exp.push_back({i, k});
        MeshApply<S, T>::apply(i, m, [&](size_t a, size_t b) { got.push_back({a, b}); });
        if (got != exp) { gv_fail("traverse-one", d + " from " + std::to_string(S) + " to " + std::to_string(T) + " element " + std::to_string(i) + ": calls differ"); return; }
    }
}
template <unsigned S, unsigned T, class M> static typename std::enable_if<(S < T)>::type one(const M&, const Ref&, const std::string&) {}
template <unsigned S, unsigned T, class M> static void pair(const M& m, const Ref& r, const std::string& d) {
    std::vector<std::pair<size_t, size_t>> got;
    MeshApply<S, T>::apply(m, [&](size_t a, size_t b) { got.push_back({a, b}); });
    auto exp = r.calls(S, T);
    if (got != exp) {
        auto gs = got, es = exp; std::sort(gs.begin(), gs.end()); std::sort(es.begin(), es.end());
        gv_fail("traverse-all", d + " from " + std::to_string(S) + " to " + std::to_string(T) + ": " + (gs == es ? "order of the calls differs" : "set of the calls differs") + " (" + std::to_string(got.size()) + " calls, expected " + std::to_string(exp.size()) + ")");
    }
    one<S, T>(m, r, d);
}
template <class M> static void all3(const M& m, const Ref& r, const std::string& d) {
    pair<3,3>(m,r,d); pair<3,2>(m,r,d); pair<3,1>(m,r,d); pair<3,0>(m,r,d);
    pair<2,3>(m,r,d); pair<2,2>(m,r,d); pair<2,1>(m,r,d); pair<2,0>(m,r,d);
    pair<1,3>(m,r,d); pair<1,2>(m,r,d); pair<1,1>(m,r,d); pair<1,0>(m,r,d);
    pair<0,3>(m,r,d); pair<0,2>(m,r,d); pair<0,1>(m,r,d); pair<0,0>(m,r,d);
}
template <class M> static void all2(const M& m, const Ref& r, const std::string& d) {
    pair<2,2>(m,r,d); pair<2,1>(m,r,d); pair<2,0>(m,r,d); pair<1,2>(m,r,d); pair<1,1>(m,r,d); pair<1,0>(m,r,d); pair<0,2>(m,r,d); pair<0,1>(m,r,d); pair<0,0>(m,r,d);
}
int main(int argc, char** argv) {
    uint64_t seed = std::strtoull(argv[1], 0, 10); bool th = std::string(argv[2]) == "thorough";
    int N = th ? 400 : 60;
    for (int i = 0; i < N; i++) {
        Rng R(seed * 100003 + i);
        GenOpts o = gv_opts(R, i % 3 != 0, i < 40 ? 3 : 5);
        Ref r = gv_generate(R, o); std::string d = gv_desc(o, seed * 100003 + i);
        gv_case(d);
        if (o.threeD) {
            UnstructuredMesh<3, size_t, double> m; gv_fill(m, r); all3(m, r, d);
            UnstructuredMesh<3, size_t, double, 6> m6; gv_fill(m6, r); all3(m6, r, d + " reserve 6");
        } else { UnstructuredMesh<2, size_t, double> m; gv_fill(m, r); all2(m, r, d); }
    }
    { UnstructuredMesh<3, size_t, double> m; Ref r; r.dim = 3; r.down.resize(4); gv_case("empty mesh"); all3(m, r, "empty mesh"); }
    // a face with 300 sides: indices of sub-elements beyond 255
    { Ref r; r.dim = 3; r.down.resize(4); size_t n = 300;
      for (int z = 0; z < 2; z++) for (size_t i = 0; i < n; i++) r.V.push_back({{std::cos(6.28318 * i / n), std::sin(6.28318 * i / n), double(z)}});
      Ids lo, hi; for (size_t i = 0; i < n; i++) { r.down[1].push_back({i, (i + 1) % n}); lo.push_back(i); }
      for (size_t i = 0; i < n; i++) { r.down[1].push_back({n + i, n + (i + 1) % n}); hi.push_back(n + i); }
      for (size_t i = 0; i < n; i++) r.down[1].push_back({i, n + i});
      r.down[2].push_back(lo); r.down[2].push_back(hi); for (size_t i = 0; i < n; i++) r.down[2].push_back({i, 2 * n + i, n + i, 2 * n + (i + 1) % n});
      Ids c; for (size_t i = 0; i < n + 2; i++) c.push_back(i); r.down[3].push_back(c);
      r.left.assign(n + 2, 0); r.right.assign(n + 2, SIZE_MAX);
      gv_case("prism over a 300-gon"); UnstructuredMesh<3, size_t, double> m; gv_fill(m, r); all3(m, r, "prism over a 300-gon"); }
    return gv_done();
}
