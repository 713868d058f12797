// Neighbourhoods S -> C -> T in both orders against set / first-visit composition.
#include "gv_mesh.hpp"
static std::vector<Ids> firstLists(const Ref& r, unsigned S, unsigned T) {
    std::vector<Ids> f(r.n(S)); std::vector<std::set<size_t>> seen(r.n(S));
    for (auto& p : r.calls(S, T)) if (seen[p.first].insert(p.second).second) f[p.first].push_back(p.second);
    return f;
}
template <unsigned S, unsigned C, unsigned T, class M> static void tri(const M& m, const Ref& r, const std::string& d) {
    auto a = MeshNeighborhood<S, C, T>::neighbors(m);
    auto o = MeshNeighborhood<S, C, T, Order::ORDER_ORIGINAL>::neighbors(m);
    auto& A = a.template getDataByPos<0>(); auto& O = o.template getDataByPos<0>();
    std::string w = d + " from " + std::to_string(S) + " over " + std::to_string(C) + " to " + std::to_string(T);
    if (A.size() != r.n(S) || O.size() != r.n(S)) { gv_fail("neigh-size", w); return; }
    auto c1 = firstLists(r, S, C), c2 = firstLists(r, C, T);
    for (size_t i = 0; i < r.n(S); i++) {
        Ids go, ga, eo; std::set<size_t> es;
        for (size_t x : c1[i]) for (size_t y : c2[x]) if (!(S == T && y == i) && es.insert(y).second) eo.push_back(y);
        for (auto& x : A[i]) ga.push_back(x.index); for (auto& x : O[i]) go.push_back(x.index);
        if (ga != Ids(es.begin(), es.end())) { gv_fail("neigh-asc", w + ": element " + std::to_string(i) + " got " + gv_list(ga) + " expected " + gv_list(Ids(es.begin(), es.end()))); return; }
        if (go != eo) { gv_fail("neigh-orig", w + ": original order, element " + std::to_string(i) + " got " + gv_list(go) + " expected " + gv_list(eo)); return; }
    }
}
template <unsigned S, unsigned C, class M> static void t3(const M& m, const Ref& r, const std::string& d) { tri<S,C,0>(m,r,d); tri<S,C,1>(m,r,d); tri<S,C,2>(m,r,d); tri<S,C,3>(m,r,d); }
template <unsigned S, class M> static void s3(const M& m, const Ref& r, const std::string& d) { t3<S,0>(m,r,d); t3<S,1>(m,r,d); t3<S,2>(m,r,d); t3<S,3>(m,r,d); }
template <unsigned S, unsigned C, class M> static void t2(const M& m, const Ref& r, const std::string& d) { tri<S,C,0>(m,r,d); tri<S,C,1>(m,r,d); tri<S,C,2>(m,r,d); }
template <unsigned S, class M> static void s2(const M& m, const Ref& r, const std::string& d) { t2<S,0>(m,r,d); t2<S,1>(m,r,d); t2<S,2>(m,r,d); }
int main(int argc, char** argv) {
    uint64_t seed = std::strtoull(argv[1], 0, 10); bool th = std::string(argv[2]) == "thorough";
    int N = th ? 300 : 24;
    for (int i = 0; i < N; i++) {
        Rng R(seed * 300007 + i);
#ifdef D2
        GenOpts o = gv_opts(R, false, 5);
#else
        GenOpts o = gv_opts(R, true, 3);
#endif
        Ref r = gv_generate(R, o); std::string d = gv_desc(o, seed * 300007 + i);
        gv_case(d);
#ifdef D2
        UnstructuredMesh<2, size_t, double> m; gv_fill(m, r); s2<0>(m, r, d); s2<1>(m, r, d); s2<2>(m, r, d);
#else
        UnstructuredMesh<3, size_t, double GV_RESARG> m; gv_fill(m, r);
#ifdef P0
        s3<0>(m, r, d); s3<1>(m, r, d);
#else
        s3<2>(m, r, d); s3<3>(m, r, d);
#endif
#endif
    }
    return gv_done();
}
