// Random sequences of accesses through the traits of several classes; a plain
// mirror of the object tells what must have changed.
#include "gv_mesh.hpp"
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/Traits/TraitsBind/TraitsBind.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerIOTraits.h>
#include <list>
struct In { int a; std::string b; bool operator==(const In& o) const { return a == o.a && b == o.b; } };
MAKE_ATTRIBUTE_TRAIT(In, a, b);
class S {
    double x; std::string t;
public:
    int i; std::string s; std::vector<int> v; In in; char c; long l; std::map<int, std::string> m; bool f;
    double getX() const { return x; } void setX(const double& q) { x = q; }
    const std::string& getT() { return t; } void setT(std::string q) { t = q; }
    const std::vector<int>& getV() const { return v; } std::vector<int>& refV() { return v; }
    std::string rawT() const { return t; } void rawSet(double q, const std::string& w) { x = q; t = w; }
};
static long gl(const S& o) { return o.l; }
static void sl(S& o, const long& q) { o.l = q; }
static const std::string& gb(const S& o) { return o.in.b; }
static std::string& rb(S& o) { return o.in.b; }
struct GF { const char* tag; bool operator()(const S& o) const { return o.f; } };
struct SF { void operator()(S& o, const bool& q) const { o.f = q; } };
static const auto GL = [](const S& o) { return o.c; };
static const auto SL = [](S& o, const char& q) { o.c = q; };
MAKE_CUSTOM_TRAIT(S, "i", &S::i, "string", &S::s, "list", std::make_pair(&S::getV, &S::refV), "inner", &S::in, "x", std::make_pair(&S::getX, &S::setX), "t", std::make_pair(&S::getT, &S::setT),
                  "l", std::make_pair(gl, sl), "inner b", std::make_pair(gb, rb), "m", &S::m, "f", std::make_pair(GF{"g"}, SF{}), "char", std::make_pair(GL, SL), "list again", &S::v);
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(S, "ar l", l, "ar i", i);
MAKE_CUSTOM_TRAIT_IO(S, "io x", std::make_pair(&S::getX, &S::setX));
template <typename A, typename B, unsigned N> struct Tm { A a; std::array<B, N> b; A a2; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((Tm<A, B, N>), (typename A, typename B, unsigned N), "first", a, "array", b, "last", a2);
struct One { double only; };
MAKE_ATTRIBUTE_TRAIT(One, only);
struct Mirror { double x; std::string t; int i; std::string s; std::vector<int> v; In in; char c; long l; std::map<int, std::string> m; bool f; };
static std::string word(Rng& G) { std::string r(G.below(G.coin(0.1) ? 40 : 6), 'a'); for (auto& c : r) c = char('a' + G.below(26)); return r; }
static std::vector<int> ints(Rng& G) { std::vector<int> r(G.below(5)); for (auto& x : r) x = int(G.next()); return r; }
static Mirror rnd(Rng& G) { Mirror q; q.x = G.range(-1, 1); q.t = word(G); q.i = int(G.next()); q.s = word(G); q.v = ints(G); q.in = In{int(G.next()), word(G)}; q.c = char(G.next()); q.l = long(G.next()); q.m.clear(); for (size_t k = G.below(3); k--;) q.m[int(G.below(9))] = word(G); q.f = G.coin(); return q; }
static void fill(S& o, const Mirror& q) { o.rawSet(q.x, q.t); o.i = q.i; o.s = q.s; o.v = q.v; o.in = q.in; o.c = q.c; o.l = q.l; o.m = q.m; o.f = q.f; }
static std::string diff(const S& o, const Mirror& q) {
    std::string r;
    if (o.getX() != q.x) r += " x"; if (o.rawT() != q.t) r += " t"; if (o.i != q.i) r += " i"; if (o.s != q.s) r += " s"; if (o.v != q.v) r += " v"; if (!(o.in == q.in)) r += " in"; if (o.c != q.c) r += " c"; if (o.l != q.l) r += " l"; if (o.m != q.m) r += " m"; if (o.f != q.f) r += " f";
    return r;
}
typedef std::remove_const_t<decltype(DefaultTraits<S>::getTraits())> TS;
static std::string got(const char* k, const std::string& d) { return std::string(k) + ": unexpected members:" + d; }
// one position: get, set and (where possible) reference access
template <unsigned I, class V, class M> static std::string one(Rng& G, const TS& T, S& a, Mirror& q, V val, M&& mem, bool& did) {
    did = true;
    if (!(T.getValue<I>(a) == mem(q))) return "getValue of position " + std::to_string(I) + " gives another value";
    if (!(T.getValue<I>(&a) == mem(q))) return "getValue (pointer) of position " + std::to_string(I) + " gives another value";
    if (diff(a, q) != "") return got("getValue", diff(a, q));
    T.setValue<I>(a, val); mem(q) = val;
    if (diff(a, q) != "") return got(("setValue of position " + std::to_string(I)).c_str(), diff(a, q));
    if (!(T.getReference<I>().getValue(a) == val)) return "value read back from position " + std::to_string(I) + " differs from the written one";
    return "";
}
template <unsigned I, class V, class M> static std::string ref(const TS& T, S& a, Mirror& q, V val, M&& mem) {
    if (!(T.getAttr<I>(a) == mem(q))) return "getAttr of position " + std::to_string(I) + " is another member";
    T.getAttr<I>(a) = val; mem(q) = val;
    if (diff(a, q) != "") return got(("getAttr of position " + std::to_string(I)).c_str(), diff(a, q));
    return "";
}
template <unsigned I, class M> static std::string cget(const TS& T, const S& a, const Mirror& q, M&& mem) { return T.getValue<I>(a) == mem(q) && T.getValue<I>(&a) == mem(q) ? "" : "constant getValue of position " + std::to_string(I) + " gives another value"; }
struct Visit { std::string& o; template <class R> void operator()(unsigned i, const R&, const std::string& n) const { o += std::to_string(i) + n + ","; } };
struct Visit2 { std::string& o; template <class R> void operator()(const R&, const std::string& n) const { o += n + ","; } };
template <unsigned d0, unsigned d1, unsigned d2> static void dims(Rng& G) {
    typedef MeshDataContainer<std::string, d0, d1, d2> C; C c; Traits<C> T; const unsigned d[3] = {d0, d1, d2};
    std::string w = "mesh data container of dimensions " + std::to_string(d0) + " " + std::to_string(d1) + " " + std::to_string(d2) + ": ";
    const char* n[3] = {T.template getName<0>(), T.template getName<1>(), T.template getName<2>()};
    for (int k = 0; k < 3; k++) GV_CHECK("mesh data names", n[k] == "dim " + std::to_string(d[k]), w + "array " + std::to_string(k) + " is called \"" + n[k] + "\"");
    std::vector<std::string> v[3]; for (auto& x : v) for (size_t k = G.below(5); k--;) x.push_back(word(G));
    typename C::template DataContainerType<0> p0; typename C::template DataContainerType<1> p1; typename C::template DataContainerType<2> p2;
    for (auto& x : v[0]) p0.push_back(x); for (auto& x : v[1]) p1.push_back(x); for (auto& x : v[2]) p2.push_back(x);
    T.template setValue<0>(c, p0); T.template setValue<1>(c, p1); T.template getAttr<2>(c) = p2;
    auto same = [](const auto& a, const std::vector<std::string>& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); };
    const C& cc = c;
    GV_CHECK("mesh data access", same(c.template getDataByPos<0>(), v[0]) && same(c.template getDataByPos<1>(), v[1]) && same(c.template getDataByPos<2>(), v[2]), w + "arrays written through the traits differ");
    GV_CHECK("mesh data access", same(T.template getValue<0>(cc), v[0]) && same(T.template getValue<1>(cc), v[1]) && same(T.template getAttr<2>(c), v[2]), w + "arrays read through the traits differ");
    GV_CHECK("mesh data access", T.size() == 3, w + "size"); gv_cases++;
}
int main(int argc, char** argv) {
    size_t seed = argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1; bool thorough = argc > 2 && std::string(argv[2]) == "thorough";
    auto T = DefaultTraits<S>::getTraits();
    for (size_t it = 0; it < (thorough ? 20000u : 2000u); it++) {
        Rng G(seed * 7919 + it); S a, b; Mirror qa = rnd(G), qb = rnd(G), n; fill(a, qa); fill(b, qb); std::string h, e; bool did;
        for (size_t st = 0; st < 12 && e == ""; st++) {
            S& o = G.coin() ? a : b; Mirror& q = &o == &a ? qa : qb; n = rnd(G); size_t op = G.below(12); h += " " + std::to_string(op) + (&o == &a ? "a" : "b");
            switch (op) {
            case 0: e = one<0>(G, T, o, q, n.i, [](auto& m) -> auto& { return m.i; }, did); if (e == "") e = ref<0>(T, o, q, n.i + 1, [](auto& m) -> auto& { return m.i; }); break;
            case 1: e = one<1>(G, T, o, q, n.s, [](auto& m) -> auto& { return m.s; }, did); if (e == "") e = cget<1>(T, o, q, [](auto& m) -> auto& { return m.s; }); break;
            case 2: e = one<2>(G, T, o, q, n.v, [](auto& m) -> auto& { return m.v; }, did); if (e == "") e = ref<2>(T, o, q, ints(G), [](auto& m) -> auto& { return m.v; }); break;
            case 3: e = one<3>(G, T, o, q, n.in, [](auto& m) -> auto& { return m.in; }, did); if (e == "") e = ref<3>(T, o, q, In{1, "q"}, [](auto& m) -> auto& { return m.in; }); break;
            case 4: e = one<4>(G, T, o, q, n.x, [](auto& m) -> auto& { return m.x; }, did); if (e == "") e = cget<4>(T, o, q, [](auto& m) -> auto& { return m.x; }); break;
            case 5: e = one<5>(G, T, o, q, n.t, [](auto& m) -> auto& { return m.t; }, did); break;
            case 6: e = one<6>(G, T, o, q, n.l, [](auto& m) -> auto& { return m.l; }, did); if (e == "") e = cget<6>(T, o, q, [](auto& m) -> auto& { return m.l; }); break;
            case 7: e = one<7>(G, T, o, q, n.in.b, [](auto& m) -> auto& { return m.in.b; }, did); if (e == "") e = ref<7>(T, o, q, word(G), [](auto& m) -> auto& { return m.in.b; }); break;
            case 8: e = one<8>(G, T, o, q, n.m, [](auto& m) -> auto& { return m.m; }, did); break;
            case 9: e = one<9>(G, T, o, q, n.f, [](auto& m) -> auto& { return m.f; }, did); if (e == "") e = cget<9>(T, o, q, [](auto& m) -> auto& { return m.f; }); break;
            case 10: e = one<10>(G, T, o, q, n.c, [](auto& m) -> auto& { return m.c; }, did); break;
            default: e = one<11>(G, T, o, q, n.v, [](auto& m) -> auto& { return m.v; }, did); break;
            }
            if (e == "" && (diff(a, qa) + diff(b, qb)) != "") e = "the other object changed";
        }
        if (e == "") {      // nested, arithmetic, bound traits
            get<0>(a) = n.l; qa.l = n.l; get<1>(&b) = n.i; qb.i = n.i;
            get<0>(b.in) = 5; qb.in.a = 5;
            auto own = makeTraits<S>("own s", &S::s, "own m", &S::m); auto sec = makeTraits<In>("own b", &In::b);
            auto B = bindTraits(a, own, sec);
            const auto& t1 = SelectTraitsWithIODefault<S, decltype(own), decltype(sec)>::getTraitsInstance(B.tupTraits);
            const auto& t2 = SelectTraitsWithIODefault<In, decltype(own), decltype(sec)>::getTraitsInstance(B.tupTraits);
            const auto& t3 = SelectTraitsWithIODefault<One, decltype(own), decltype(sec)>::getTraitsInstance(B.tupTraits);
            t1.template setValue<0>(B.object, "bound"); qa.s = "bound"; t2.template setValue<0>(B.object.in, "bound in"); qa.in.b = "bound in"; One x; t3.template setValue<0>(x, 2.5);
            auto B2 = bindTraits(a.in, sec); const auto& t4 = SelectTraits<S, 0, DefaultTraits, decltype(sec)>::getTraitsInstance(B2.tupTraits);
            if (std::string(t1.template getName<1>()) != "own m" || std::string(t2.template getName<0>()) != "own b" || std::string(t3.template getName<0>()) != "only" || x.only != 2.5 || t4.size() != 12) e = "bound traits: wrong traits selected";
            if (e == "" && diff(a, qa) + diff(b, qb) != "") e = got("bound or nested access", diff(a, qa) + " /" + diff(b, qb));
            DefaultIOTraits<S>::getTraits().setValue<0>(b, 7.5); qb.x = 7.5; DefaultArithmeticTraits<S>::getTraits().setValue<1>(b, -3); qb.i = -3;
            if (e == "" && diff(a, qa) + diff(b, qb) != "") e = got("traits for output or arithmetic", diff(a, qa) + " /" + diff(b, qb));
            Tm<std::string, double, 3> tm{"a", {{1, 2, 3}}, "z"}; auto tt = DefaultTraits<Tm<std::string, double, 3>>::getTraits(); tt.setValue<2>(tm, "y"); tt.getAttr<1>(tm)[1] = 8;
            if (tm.a != "a" || tm.a2 != "y" || tm.b[0] != 1 || tm.b[1] != 8 || tm.b[2] != 3) e = "class template: wrong member";
            S copy = a; Mirror qc = qa; auto T2 = T; T2.setValue<0>(copy, 9); qc.i = 9;
            if (e == "" && (diff(copy, qc) != "" || diff(a, qa) != "")) e = "a copy of an object or of the traits accesses another object";
            int k = int(G.below(100)); std::function<int(const S&)> sg = [k](const S& o) { return o.i + k; }; std::function<void(S&, const int&)> ss = [k](S& o, const int& w) { o.i = w - k; };
            auto st = makeTraits<S>("shifted", std::make_pair(sg, ss)); st.setValue<0>(a, 50); qa.i = 50 - k;
            if (e == "" && (diff(a, qa) != "" || st.getValue<0>(a) != 50)) e = "function objects with a state: wrong value";
        }
        if (e != "") gv_fail("traits access", "accesses" + h + ": " + e);
        gv_case("accesses" + h);
    }
    std::string o; T.apply(Visit{o}); GV_CHECK("apply", o == "0i,1string,2list,3inner,4x,5t,6l,7inner b,8m,9f,10char,11list again,", "visited " + o);
    o = ""; T.apply(Visit2{o}); GV_CHECK("apply", o == "i,string,list,inner,x,t,l,inner b,m,f,char,list again,", "visited without index " + o);
    o = ""; DefaultTraits<One>::getTraits().apply(Visit{o}); GV_CHECK("apply", o == "0only,", "visited " + o);
    o = ""; DefaultArithmeticTraits<S>::getTraits().apply(Visit{o}); GV_CHECK("apply", o == "0ar l,1ar i,", "visited " + o);
    o = ""; DefaultIOTraits<S>::getTraits().apply(Visit2{o}); GV_CHECK("apply", o == "io x,", "visited " + o);
    GV_CHECK("size", DefaultTraits<S>::size() == 12 && DefaultIOTraits<In>::size() == 2 && (DefaultTraits<Tm<int, int, 1>>::size() == 3), "number of members");
    Rng G(seed);
    dims<0, 1, 2>(G); dims<3, 0, 3>(G); dims<10, 11, 20>(G); dims<100, 101, 110>(G); dims<99, 999, 105>(G); dims<500, 7, 120>(G); dims<205, 90, 9>(G);
    return gv_done();
}
