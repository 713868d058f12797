// Mesh data containers against a plain record of arrays.
#include "gv_mesh.hpp"
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h>
#include <tuple>
template <class T> struct Val; 
template <> struct Val<int> { static int mk(Rng& G) { return int(G.next()); } };
template <> struct Val<double> { static double mk(Rng& G) { return G.range(-1e9, 1e9); } };
template <> struct Val<char> { static char mk(Rng& G) { return char(G.next()); } };
template <> struct Val<std::string> { static std::string mk(Rng& G) { return std::string(G.below(40), char('a' + G.below(26))); } };
template <> struct Val<Vertex<3, double>> { static Vertex<3, double> mk(Rng& G) { return Vertex<3, double>{G.unit(), G.unit(), G.unit()}; } };
template <> struct Val<std::vector<int>> { static std::vector<int> mk(Rng& G) { return std::vector<int>(G.below(5), int(G.below(99))); } };
template <class M, unsigned D, unsigned MD, bool ok = (D <= MD)> struct Fill { static void go(M& m, Rng& G, size_t s, size_t* n) { n[D] = G.coin(0.15) ? 0 : G.below(s); auto& v = m.template getElements<D>(); v.clear(); v.resize(n[D]); for (size_t i = 0; i < n[D]; i++) v[i].setIndex(i); Fill<M, D + 1, MD>::go(m, G, s, n); } };
template <class M, unsigned D, unsigned MD> struct Fill<M, D, MD, false> { static void go(M&, Rng&, size_t, size_t*) {} };

// per-position operations; REC is the reference: one vector per position
template <class DC, class REC, unsigned P, unsigned N> struct Pos {
    typedef typename std::decay<decltype(std::declval<DC&>().template getDataByPos<P>())>::type A;
    typedef typename A::type T;
    static constexpr unsigned D = DC::template dimensionAt<P>();
    typedef Pos<DC, REC, P + 1, N> Nx;
    template <class F> static void each(F f) { f(Pos{}); Nx::each(f); }
};
template <class DC, class REC, unsigned N> struct Pos<DC, REC, N, N> { template <class F> static void each(F) {} };
template <unsigned... D> struct DL { static unsigned first(unsigned d) { unsigned a[] = {D...}; for (unsigned i = 0; i < sizeof...(D); i++) if (a[i] == d) return i; return 99; } static unsigned at(unsigned i) { unsigned a[] = {D...}; return a[i]; } };

template <class Tp, class L> struct Maker;
template <class... T, unsigned... D> struct Maker<std::tuple<T...>, DL<D...>> { typedef MeshDataContainer<std::tuple<T...>, D...> tup; typedef std::tuple<std::vector<T>...> rec; };

template <class DC, class REC, class L, class M, unsigned MD, unsigned N> struct Test {
    M& m; size_t* n; Rng& G; std::string& log; DC d; REC r; typedef Pos<DC, REC, 0, N> PP;
    struct Cmp { Test& t; bool& ok; const DC& d; const REC& r; template <class Q> void operator()(Q) const { constexpr unsigned P = decltype(pos(Q{}))::value; auto& a = d.template getDataByPos<P>(); auto& b = std::get<P>(r); if (a.size() != b.size()) { ok = false; return; } for (size_t i = 0; i < b.size(); i++) if (!(a[i] == b[i])) ok = false; } template <unsigned P> static std::integral_constant<unsigned, P> pos(Pos<DC, REC, P, N>); };
    bool same(const DC& dd, const REC& rr) { bool ok = true; PP::each(Cmp{*this, ok, dd, rr}); return ok; }
    struct Sizes { Test& t; bool& ok; template <class Q> void operator()(Q) const { constexpr unsigned P = decltype(Cmp::pos(Q{}))::value; if (t.d.template getDataByPos<P>().size() != t.n[L::at(P)]) ok = false; } };
    struct Take { Test& t; template <class Q> void operator()(Q) const { constexpr unsigned P = decltype(Cmp::pos(Q{}))::value; auto& a = t.d.template getDataByPos<P>(); std::get<P>(t.r).assign(a.begin(), a.end()); } };
    struct Rand { Test& t; template <class Q> void operator()(Q) const { constexpr unsigned P = decltype(Cmp::pos(Q{}))::value; auto& b = std::get<P>(t.r); auto& a = t.d.template getDataByPos<P>(); for (size_t i = 0; i < b.size(); i++) { b[i] = Val<typename Q::T>::mk(t.G); a[i] = b[i]; } } };
    struct Write { Test& t; bool& ok; const char*& how; template <class Q> void operator()(Q) const {
        constexpr unsigned P = decltype(Cmp::pos(Q{}))::value, D = Q::D; auto& b = std::get<P>(t.r); if (b.empty() || D > MD) return;
        size_t i = t.G.below(b.size()); auto x = Val<typename Q::T>::mk(t.G); const DC& c = t.d;
        bool byd = L::first(D) == P;
        auto& el = t.m.template getElements<D>();
        switch (t.G.below(byd ? 6 : 2)) {
        case 0: how = "position"; t.d.template getDataByPos<P>()[i] = x; ok = c.template getDataByPos<P>().at(i) == x; break;
        case 1: how = "integer sequence"; t.d[std::integer_sequence<unsigned, P>()][i] = x; ok = c[std::integer_sequence<unsigned, P>()][i] == x; break;
        case 2: how = "dimension"; t.d.template getDataByDim<D>()[i] = x; ok = c.template getDataByDim<D>()[i] == x; break;
        case 3: how = "element"; t.d[el[i]] = x; { const auto& ce = el[i]; ok = c[ce] == x; } break;
        case 4: how = "at(element)"; t.d.at(el[i]) = x; { const auto& ce = el[i]; ok = c.at(ce) == x; } break;
        case 5: how = "element index"; t.d[ElementIndex<D, size_t>(i)] = x; ok = c[ElementIndex<D, size_t>(i)] == x; break;
        }
        b[i] = x; } };
    struct OutOf { Test& t; bool& ok; template <class Q> void operator()(Q) const { constexpr unsigned D = Q::D; if (L::first(D) != decltype(Cmp::pos(Q{}))::value) return; typename M::template ElementType<D> e; e.setIndex(t.n[D] + t.G.below(5)); bool thr = false; try { t.d.at(e); } catch (const std::exception&) { thr = true; } if (!thr) ok = false; } };
    template <class T> struct Init { Test& t; bool& ok; const T& x; template <class Q> void operator()(Q) const { constexpr unsigned P = decltype(Cmp::pos(Q{}))::value; for (auto& y : std::get<P>(t.r)) if (!(y == x)) ok = false; } };
    template <class T> bool initial(const T& x) { bool ok = true; PP::each(Init<T>{*this, ok, x}); return ok; }
    bool sizes(const char* what) { bool ok = true; PP::each(Sizes{*this, ok}); if (!ok) gv_fail("data-size", log + " " + what + ": number of entries differs from the mesh"); return ok; }
    void take() { PP::each(Take{*this}); }
    bool access() {
        PP::each(Rand{*this});
        for (int i = 0; i < 6; i++) { bool ok = true; const char* how = ""; PP::each(Write{*this, ok, how});
            if (!ok || !same(d, r)) { gv_fail("data-access", log + " access by " + how + " reached another entry"); return false; } }
        bool ok = true; PP::each(OutOf{*this, ok}); if (!ok) { gv_fail("data-at", log + " at() accepted an element without entry"); return false; }
        DC c(d), e; REC r0 = r; e = d;
        { bool o = true; const char* how = ""; PP::each(Write{*this, o, how}); }
        if (!same(c, r0) || !same(e, r0)) { gv_fail("data-copy", log + " a copy changed with the original"); return false; }
        DC mv(std::move(c)); if (!same(mv, r0)) { gv_fail("data-move", log + " moved container differs"); return false; }
        c = std::move(mv); if (!same(c, r0)) { gv_fail("data-move", log + " moved container differs"); return false; }
        return same(d, r) || (gv_fail("data-copy", log + " original changed"), false);
    }
};
template <class DC, class M> static void other(DC& d, const M& m, std::integral_constant<unsigned, 2>) { MeshDataContainer<char, 0, 2, 1> s(m, 'q'); d.allocateData(s); }
template <class DC, class M> static void other(DC& d, const M& m, std::integral_constant<unsigned, 3>) { MeshDataContainer<int, 2, 3, 1, 0, 2> s(m); MeshDataContainer<char, 3, 1, 0, 2> s3; s3.allocateData(s); d.allocateData(s3); }
template <class T, unsigned MD, class M, unsigned... D> static void uni(uint64_t seed) {
    Rng G(seed); M m; size_t n[4] = {0, 0, 0, 0}; std::string log = "uniform " + std::to_string(MD) + "D seed " + std::to_string(seed);
    typedef MeshDataContainer<T, D...> DC; typedef DL<D...> L; constexpr unsigned N = sizeof...(D);
    typedef decltype(std::tuple_cat(std::make_tuple((void(D), std::vector<T>()))...)) REC;
    Test<DC, REC, L, M, MD, N> t{m, n, G, log, DC(), REC()};
    for (int st = 0; st < 5; st++) {
        if (G.coin(0.8)) Fill<M, 0, MD>::go(m, G, G.coin(0.03) ? 700 : G.coin(0.003) ? 70000 : 12, n);
        T x = Val<T>::mk(G); bool init = false; const char* what = "";
        switch (G.below(9)) {
        case 0: what = "allocateData"; t.d.allocateData(m); break;
        case 1: what = "allocateData with value"; t.d.allocateData(m, x); init = true; break;
        case 2: what = "construction"; t.d = DC(m); break;
        case 3: what = "construction with value"; t.d = DC(m, x); init = true; break;
        case 4: { what = "allocateData from container"; other(t.d, m, std::integral_constant<unsigned, MD>()); break; }
        case 5: { what = "allocateData from container with value"; DC s(m); t.d.allocateData(s, x); init = true; break; }
        case 6: { what = "construction from types"; t.d = DC(m, std::integer_sequence<unsigned, D...>(), T()); break; }
        case 7: { what = "construction from types with value"; t.d = DC(m, x, std::integer_sequence<unsigned, D...>(), T()); init = true; break; }
        case 8: { what = "allocateData from tuple container"; DC s(m, x); t.d.allocateData(s); break; }
        }
        log += std::string(" ") + what;
        if (!t.sizes(what)) return;
        t.take();
        if (init && !t.initial(x)) { gv_fail("data-initial", log + ": an entry differs from the initial value"); return; }
        if (!t.access()) return;
    }
    gv_cases++;
}
template <class A, class B, class C, unsigned MD, class M, unsigned D0, unsigned D1, unsigned D2> static void tup(uint64_t seed) {
    Rng G(seed); M m; size_t n[4] = {0, 0, 0, 0}; std::string log = "tuple " + std::to_string(MD) + "D seed " + std::to_string(seed);
    typedef MeshDataContainer<std::tuple<A, B, C>, D0, D1, D2> DC; typedef DL<D0, D1, D2> L; typedef std::tuple<std::vector<A>, std::vector<B>, std::vector<C>> REC;
    Test<DC, REC, L, M, MD, 3> t{m, n, G, log, DC(), REC()};
    for (int st = 0; st < 5; st++) {
        if (G.coin(0.8)) Fill<M, 0, MD>::go(m, G, G.coin(0.03) ? 700 : G.coin(0.003) ? 70000 : 12, n);
        A a = Val<A>::mk(G); B b = Val<B>::mk(G); C c = Val<C>::mk(G); bool init = false; const char* what = "";
        switch (G.below(6)) {
        case 0: what = "allocateData"; t.d.allocateData(m); break;
        case 1: what = "allocateData with values"; t.d.allocateData(m, a, b, c); init = true; break;
        case 2: what = "construction"; t.d = DC(m); break;
        case 3: what = "construction with values"; t.d = DC(m, a, b, c); init = true; break;
        case 4: { what = "allocateData from container"; DC s(m); t.d.allocateData(s); break; }
        case 5: { what = "allocateData from container with values"; DC s(m); t.d.allocateData(s, a, b, c); init = true; break; }
        }
        log += std::string(" ") + what;
        if (!t.sizes(what)) return;
        t.take();
        if (init) { bool ok = true; for (auto& y : std::get<0>(t.r)) ok = ok && y == a; for (auto& y : std::get<1>(t.r)) ok = ok && y == b; for (auto& y : std::get<2>(t.r)) ok = ok && y == c; if (!ok) { gv_fail("data-initial", log + ": an entry differs from the initial value"); return; } }
        if (!t.access()) return;
    }
    gv_cases++;
}
int main(int argc, char** argv) {
    uint64_t seed = std::strtoull(argv[1], 0, 10); bool th = std::string(argv[2]) == "thorough";
    size_t Nn = th ? 3000 : 150;
    typedef MeshElements<3, size_t, double> M3; typedef MeshElements<2, size_t, double> M2;
    for (size_t i = 0; i < Nn; i++) {
        uint64_t s = seed * 15485863 + i;
        if (i % 30 == 0) gv_case("containers from seed " + std::to_string(s));
        uni<int, 3, M3, 3, 0, 2, 1>(s); uni<double, 3, M3, 0, 1, 2, 3>(s); uni<std::string, 3, M3, 2, 3>(s); uni<Vertex<3, double>, 3, M3, 1>(s); uni<int, 3, M3, 3, 1, 3>(s);
        uni<double, 2, M2, 2, 0>(s); uni<std::vector<int>, 2, M2, 1, 2, 0>(s); uni<int, 2, M2, 0, 2, 0, 1>(s);
        tup<int, double, std::string, 3, M3, 3, 0, 2>(s); tup<std::vector<int>, char, int, 3, M3, 1, 2, 3>(s); tup<int, double, int, 3, M3, 2, 0, 2>(s); tup<double, Vertex<3, double>, char, 2, M2, 2, 1, 0>(s); tup<int, int, int, 2, M2, 1, 2, 0>(s);
    }
    return gv_done();
}
