// Connections: ascending and original order against the independent incidence description.
#include "gv_mesh.hpp"
template <unsigned S, unsigned T, class M> static void pair(const M& m, const Ref& r, const std::string& d) {
    auto a = MeshConnections<S, T>::connections(m);
    auto o = MeshConnections<S, T, Order::ORDER_ORIGINAL>::connections(m);
    auto& A = a.template getDataByPos<0>(); auto& O = o.template getDataByPos<0>();
    auto inc = r.incid(S, T);
    std::string w = d + " from " + std::to_string(S) + " to " + std::to_string(T);
    if (A.size() != r.n(S) || O.size() != r.n(S)) { gv_fail("conn-size", w + ": number of lists " + std::to_string(A.size()) + "/" + std::to_string(O.size()) + " expected " + std::to_string(r.n(S))); return; }
    std::vector<Ids> first(r.n(S));
    for (auto& p : r.calls(S, T)) if (std::find(first[p.first].begin(), first[p.first].end(), p.second) == first[p.first].end()) first[p.first].push_back(p.second);
    for (size_t i = 0; i < r.n(S); i++) {
        Ids ga, go; for (auto& x : A[i]) ga.push_back(x.index); for (auto& x : O[i]) go.push_back(x.index);
        if (ga != Ids(inc[i].begin(), inc[i].end())) { gv_fail("conn-asc", w + ": element " + std::to_string(i) + " got " + gv_list(ga) + " expected " + gv_list(Ids(inc[i].begin(), inc[i].end()))); return; }
        if (go != first[i]) { gv_fail("conn-orig", w + ": original order, element " + std::to_string(i) + " got " + gv_list(go) + " expected " + gv_list(first[i])); return; }
    }
}
template <class M> static void all3(const M& m, const Ref& r, const std::string& d) {
    pair<3,3>(m,r,d); pair<3,2>(m,r,d); pair<3,1>(m,r,d); pair<3,0>(m,r,d);
    pair<2,3>(m,r,d); pair<2,2>(m,r,d); pair<2,1>(m,r,d); pair<2,0>(m,r,d);
    pair<1,3>(m,r,d); pair<1,2>(m,r,d); pair<1,1>(m,r,d); pair<1,0>(m,r,d);
    pair<0,3>(m,r,d); pair<0,2>(m,r,d); pair<0,1>(m,r,d); pair<0,0>(m,r,d);
}
template <class M> static void all2(const M& m, const Ref& r, const std::string& d) {
    pair<2,2>(m,r,d); pair<2,1>(m,r,d); pair<2,0>(m,r,d); pair<1,2>(m,r,d); pair<1,1>(m,r,d); pair<1,0>(m,r,d); pair<0,2>(m,r,d); pair<0,1>(m,r,d); pair<0,0>(m,r,d);
}
int main(int argc, char** argv) {
    uint64_t seed = std::strtoull(argv[1], 0, 10); bool th = std::string(argv[2]) == "thorough";
    int N = th ? 400 : 50;
    for (int i = 0; i < N; i++) {
        Rng R(seed * 200003 + i);
        GenOpts o = gv_opts(R, i % 3 != 0, i < 40 ? 3 : 5);
        Ref r = gv_generate(R, o); std::string d = gv_desc(o, seed * 200003 + i);
        gv_case(d);
#ifdef RES6
        UnstructuredMesh<3, size_t, double, 6> m6; if (o.threeD) { gv_fill(m6, r); all3(m6, r, d + " reserve 6"); }
#else
        if (o.threeD) { UnstructuredMesh<3, size_t, double> m; gv_fill(m, r); all3(m, r, d); }
        else { UnstructuredMesh<2, size_t, double> m; gv_fill(m, r); all2(m, r, d); }
#endif
    }
    { UnstructuredMesh<3, size_t, double> m; Ref r; r.dim = 3; r.down.resize(4); gv_case("empty mesh"); pair<3,0>(m, r, "empty mesh"); pair<0,3>(m, r, "empty mesh"); }
    return gv_done();
}
