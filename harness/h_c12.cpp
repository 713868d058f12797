// Serialization of random values of many type compositions, read back into
// targets that held something else; the generic encoding is compared by value
// and by the number of bytes consumed.
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/Traits/CustomTypeTraits.h>
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include "gv_mesh.hpp"
#include <map>
#include <set>
#include <list>
#include <deque>
#include <array>
#include <tuple>
#include <valarray>
#include <unordered_map>
#include <unordered_set>
#include <cstring>
#include <limits>
#include <cstdio>
#include <unistd.h>

enum Plain { pa, pb = 7, pc = 1000000 };
enum class Small : unsigned char { x = 3, y = 200 };
enum class Wide : long long { m = -5, n = 1LL << 50 };
struct Sub { short s; std::string t; bool operator==(const Sub& o) const { return s == o.s && t == o.t; } bool operator<(const Sub& o) const { return s < o.s; } };
MAKE_ATTRIBUTE_TRAIT(Sub, s, t);
struct Big { double d; std::vector<int> v; Sub sub; std::map<int, std::string> m; bool f; char c; std::array<Sub, 2> arr; int hidden = 5;
    bool operator==(const Big& o) const { return d == o.d && v == o.v && sub == o.sub && m == o.m && f == o.f && c == o.c && arr == o.arr; } };
MAKE_ATTRIBUTE_TRAIT(Big, d, v, sub, m, f, c, arr);
struct One { long l; bool operator==(const One& o) const { return l == o.l; } };
MAKE_ATTRIBUTE_TRAIT(One, l);
struct Conv { int a; long b; operator bool() const { return a != 0; } bool operator==(const Conv& o) const { return a == o.a && b == o.b; } };   // converts to bool, but is described by its members
MAKE_ATTRIBUTE_TRAIT(Conv, a, b);
struct Parts { double p, q, r; bool operator==(const Parts& o) const { return p == o.p && q == o.q && r == o.r; } };
MAKE_NAMED_ATTRIBUTE_TRAIT(Parts, "third", r, "first", p);   // q is not described
struct Own { unsigned char n; std::vector<unsigned char> v; bool operator==(const Own& o) const { return n == o.n && v == o.v; } };
inline void BinarySerialize(BinarySerializer::ByteContainer& c, const Own& o) { c.push_back(o.n); c.push_back((unsigned char)o.v.size()); for (auto x : o.v) c.push_back(x ^ 0x5a); }
inline void BinaryDeserialize(BinarySerializer::ByteContainerIterator& it, Own& o) { o.n = *it++; size_t k = *it++; o.v.clear(); while (k--) o.v.push_back((*it++) ^ 0x5a); }
// described, but with serialization functions of its own, which take precedence
struct Both { int a; int calls = 0; bool operator==(const Both& o) const { return a == o.a; } };
MAKE_ATTRIBUTE_TRAIT(Both, a);
static size_t g_both = 0;
inline void BinarySerialize(BinarySerializer::ByteContainer& c, const Both& o) { g_both++; for (int i = 0; i < 4; i++) c.push_back((unsigned char)(unsigned(o.a) >> (8 * i))); c.push_back(0xEE); }
inline void BinaryDeserialize(BinarySerializer::ByteContainerIterator& it, Both& o) { unsigned v = 0; for (int i = 0; i < 4; i++) v |= unsigned(*it++) << (8 * i); o.a = int(v); ++it; }

static size_t size_of(Rng& G) { switch (G.below(24)) { case 0: case 1: case 2: case 3: case 4: return 0; case 5: case 6: case 7: return 1; case 8: return 200 + G.below(200); default: return G.below(7); } }
static size_t g_depth = 0;
struct Depth { Depth() { g_depth++; } ~Depth() { g_depth--; } };
static size_t len(Rng& G) { size_t n = size_of(G); return g_depth > 1 ? n % 5 : n; }
template <class T, class = void> struct Gen;
template <class T> struct Gen<T, typename std::enable_if<std::is_integral<T>::value>::type> { static T mk(Rng& G) { switch (G.below(6)) { case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::min(); case 2: return T(0); case 3: return T(G.below(3)); default: return T(G.next()); } } };
template <> struct Gen<bool, void> { static bool mk(Rng& G) { return G.coin(); } };
template <class T> struct Gen<T, typename std::enable_if<std::is_floating_point<T>::value>::type> { static T mk(Rng& G) { switch (G.below(8)) { case 0: return std::numeric_limits<T>::infinity(); case 1: return std::numeric_limits<T>::denorm_min(); case 2: return -std::numeric_limits<T>::max(); case 3: return T(0); default: return T(G.range(-1e6, 1e6)) / T(3); } } };
template <> struct Gen<Plain> { static Plain mk(Rng& G) { return G.coin() ? pc : G.coin() ? pa : pb; } };
template <> struct Gen<Small> { static Small mk(Rng& G) { return G.coin() ? Small::x : Small::y; } };
template <> struct Gen<Wide> { static Wide mk(Rng& G) { return G.coin() ? Wide::m : Wide::n; } };
template <class C> struct GenSeq { static C mk(Rng& G) { size_t n = len(G); Depth d; C c; for (size_t i = 0; i < n; i++) c.insert(c.end(), Gen<typename C::value_type>::mk(G)); return c; } };
template <> struct Gen<std::string> { static std::string mk(Rng& G) { std::string s; size_t n = len(G); for (size_t i = 0; i < n; i++) s += char(G.next()); return s; } };
template <> struct Gen<std::wstring> { static std::wstring mk(Rng& G) { std::wstring s; size_t n = len(G); for (size_t i = 0; i < n; i++) s += wchar_t(G.below(70000)); return s; } };
template <class T> struct Gen<std::vector<T>> : GenSeq<std::vector<T>> {};
template <class T> struct Gen<std::list<T>> : GenSeq<std::list<T>> {};
template <class T> struct Gen<std::deque<T>> : GenSeq<std::deque<T>> {};
template <class T> struct Gen<std::set<T>> : GenSeq<std::set<T>> {};
template <class T> struct Gen<std::multiset<T>> : GenSeq<std::multiset<T>> {};
template <class T> struct Gen<std::unordered_set<T>> : GenSeq<std::unordered_set<T>> {};
template <class T> struct Gen<std::valarray<T>> { static std::valarray<T> mk(Rng& G) { std::valarray<T> v(len(G)); for (auto& x : v) x = Gen<T>::mk(G); return v; } };
template <class T, size_t N> struct Gen<std::array<T, N>> { static std::array<T, N> mk(Rng& G) { Depth d; std::array<T, N> a; for (auto& x : a) x = Gen<T>::mk(G); return a; } };
template <class A, class B> struct Gen<std::pair<A, B>> { static std::pair<A, B> mk(Rng& G) { Depth d; A a = Gen<A>::mk(G); B b = Gen<B>::mk(G); return std::pair<A, B>(a, b); } };
template <class M> struct GenMap { static M mk(Rng& G) { size_t n = len(G); Depth d; M m; for (size_t i = 0; i < n; i++) { auto k = Gen<typename M::key_type>::mk(G); m.insert({k, Gen<typename M::mapped_type>::mk(G)}); } return m; } };
template <class A, class B> struct Gen<std::map<A, B>> : GenMap<std::map<A, B>> {};
template <class A, class B> struct Gen<std::multimap<A, B>> : GenMap<std::multimap<A, B>> {};
template <class A, class B> struct Gen<std::unordered_map<A, B>> : GenMap<std::unordered_map<A, B>> {};
template <class... T> struct Gen<std::tuple<T...>> { static std::tuple<T...> mk(Rng& G) { Depth d; return std::tuple<T...>{Gen<T>::mk(G)...}; } };
template <> struct Gen<Sub> { static Sub mk(Rng& G) { return Sub{Gen<short>::mk(G), Gen<std::string>::mk(G)}; } };
template <> struct Gen<One> { static One mk(Rng& G) { return One{Gen<long>::mk(G)}; } };
template <> struct Gen<Conv> { static Conv mk(Rng& G) { return Conv{Gen<int>::mk(G), Gen<long>::mk(G)}; } };
template <> struct Gen<Big> { static Big mk(Rng& G) { Depth d; Big b; b.d = Gen<double>::mk(G); b.v = Gen<std::vector<int>>::mk(G); b.sub = Gen<Sub>::mk(G); b.m = Gen<std::map<int, std::string>>::mk(G); b.f = G.coin(); b.c = char(G.next()); b.arr = Gen<std::array<Sub, 2>>::mk(G); return b; } };
template <> struct Gen<Own> { static Own mk(Rng& G) { Own o; o.n = (unsigned char)G.next(); o.v.resize(G.below(9)); for (auto& x : o.v) x = (unsigned char)G.next(); return o; } };
template <> struct Gen<Both> { static Both mk(Rng& G) { Both b; b.a = Gen<int>::mk(G); return b; } };
template <unsigned D, class R> struct Gen<Vertex<D, R>> { static Vertex<D, R> mk(Rng& G) { Vertex<D, R> v; for (unsigned i = 0; i < D; i++) v[i] = Gen<R>::mk(G); return v; } };
template <class T> static bool eq(const T& a, const T& b) { return a == b; }
template <class T> static bool eq(const std::valarray<T>& a, const std::valarray<T>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false; return true; }

template <class T> static bool eq(const std::vector<std::valarray<T>>& a, const std::vector<std::valarray<T>>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!eq(a[i], b[i])) return false; return true; }
struct Slot { virtual ~Slot() {} virtual void write(BinarySerializer&) = 0; virtual void add(std::vector<unsigned char>&) = 0; virtual bool read(BinarySerializer&, Rng&) = 0; virtual bool next(std::vector<unsigned char>::const_iterator&, Rng&) = 0; std::string name; };
template <class T> struct SlotT : Slot {
    T v; SlotT(const T& x, const char* n) : v(x) { name = n; }
    void write(BinarySerializer& s) override { s << v; }
    void add(std::vector<unsigned char>& c) override { BinarySerializer::addNext(c, v); }
    bool read(BinarySerializer& s, Rng& G) override { if (G.coin(0.3)) return eq(s.template read<T>(), v); T t = Gen<T>::mk(G); if (G.coin()) s >> t; else s.read(t); return eq(t, v); }
    bool next(std::vector<unsigned char>::const_iterator& it, Rng& G) override { if (G.coin(0.3)) return eq(BinarySerializer::readNext<T>(it), v); T t = Gen<T>::mk(G); BinarySerializer::readNext(it, t); return eq(t, v); }
};
typedef Slot* (*Maker)(Rng&);
template <class T> struct Reg { static const char* n; static Slot* mk(Rng& G) { return new SlotT<T>(Gen<T>::mk(G), n); } };
template <class T> const char* Reg<T>::n = "";
static std::vector<Maker> makers;
template <class T> static void reg(const char* n) { Reg<T>::n = n; makers.push_back(&Reg<T>::mk); }
#define R(...) reg<__VA_ARGS__>(#__VA_ARGS__)

int main(int argc, char** argv) {
    Rng G(argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1);
    bool thorough = argc > 2 && std::string(argv[2]) == "thorough";
    R(bool); R(char); R(signed char); R(unsigned char); R(short); R(unsigned short); R(int); R(unsigned); R(long); R(unsigned long); R(long long); R(float); R(double); R(long double); R(wchar_t); R(char16_t); R(Plain); R(Small); R(Wide);
    R(std::string); R(std::wstring); R(std::vector<int>); R(std::vector<double>); R(std::vector<char>); R(std::vector<Small>); R(std::vector<Plain>); R(std::vector<std::string>); R(std::vector<std::vector<short>>); R(std::vector<std::vector<std::vector<double>>>);
    R(std::deque<int>); R(std::deque<std::string>); R(std::list<int>); R(std::list<std::vector<long>>); R(std::vector<std::list<std::string>>); R(std::valarray<double>); R(std::valarray<short>); R(std::vector<std::valarray<float>>);
    R(std::array<int, 4>); R(std::array<std::string, 3>); R(std::array<std::array<double, 2>, 3>); R(std::vector<std::array<int, 2>>); R(std::array<std::vector<int>, 2>); R(std::array<char, 1>);
    R(std::map<int, double>); R(std::map<std::string, std::vector<int>>); R(std::map<int, std::map<std::string, char>>); R(std::multimap<short, std::string>); R(std::unordered_map<long, std::string>); R(std::set<int>); R(std::set<std::string>); R(std::multiset<char>); R(std::unordered_set<int>); R(std::set<std::vector<int>>); R(std::map<std::pair<int, int>, Small>); R(std::vector<std::map<int, int>>); R(std::vector<std::set<short>>); R(std::list<std::map<int, std::set<char>>>);
    R(std::pair<int, std::string>); R(std::pair<std::vector<int>, std::map<int, int>>); R(std::tuple<int, double, std::string>); R(std::tuple<std::vector<std::string>, bool, std::array<int, 2>, Small>); R(std::vector<std::pair<short, double>>); R(std::tuple<std::tuple<char>, std::pair<int, int>>); R(std::vector<std::tuple<int, std::string>>);
    R(One); R(Sub); R(Big); R(Conv); R(Own); R(Both); R(std::vector<One>); R(std::vector<Sub>); R(std::vector<Big>); R(std::list<Sub>); R(std::map<int, Big>); R(std::vector<Own>); R(std::map<std::string, Own>); R(std::tuple<Own, Sub, Both>); R(std::vector<Conv>); R(std::array<Big, 2>); R(std::deque<Both>);
    R(Vertex<2, double>); R(Vertex<3, float>); R(std::vector<Vertex<3, double>>); R(Vertex<6, int>);
    size_t N = thorough ? 20000 : 2500;
    const std::string file = "/tmp/gv_c12_" + std::to_string(::getpid());
    for (size_t it = 0; it < N; it++) {
        size_t n = 1 + G.below(6);
        std::vector<std::unique_ptr<Slot>> sl; std::string names;
        for (size_t i = 0; i < n; i++) { size_t k = it < makers.size() && i == 0 ? it : G.below(makers.size()); sl.emplace_back(makers[k](G)); names += (i ? ", " : "") + sl.back()->name; }
        BinarySerializer s; for (auto& x : sl) x->write(s);
        std::vector<unsigned char> raw; for (auto& x : sl) x->add(raw);
        if (names.find("unordered") == std::string::npos && names.find("long double") == std::string::npos && raw != s.getData()) gv_fail("two-forms", names + ": the stream and addNext give different bytes");
        { std::vector<unsigned char> pre(G.below(5), 0xAB), cat = pre; size_t off = cat.size(); for (auto& x : sl) x->add(cat); cat.push_back(0xCD); auto p = cat.cbegin() + long(off);
          for (auto& x : sl) { if (!x->next(p, G)) { gv_fail("round-trip", names + ": " + x->name + " differs after readNext"); break; } }
          if (p != cat.cend() - 1) gv_fail("consumed", names + ": readNext consumed " + std::to_string(p - cat.cbegin() - long(off)) + " of " + std::to_string(cat.size() - 1 - off) + " bytes"); }
        bool viafile = it % 16 == 0;
        BinarySerializer t; if (viafile) { s.saveToFile(file); if (G.coin()) t << std::string("stale"); t.loadFromFile(file); if (t.getData() != s.getData()) gv_fail("file", names + ": the loaded bytes differ from those saved"); t.resetIterator(); }
        BinarySerializer& u = viafile ? t : s;
        size_t rounds = 1 + G.below(2);
        for (size_t r = 0; r < rounds; r++) { u.resetIterator(); for (auto& x : sl) if (!x->read(u, G)) { gv_fail("round-trip", names + ": " + x->name + " differs after reading" + (viafile ? " from a file" : "")); break; } if (u.isIteratorValid()) gv_fail("consumed", names + ": bytes are left after reading everything"); }
        gv_cases++;
    }
    // several values at once; the rest of the objects described in part is kept
    for (size_t it = 0; it < N / 10; it++) {
        int a = Gen<int>::mk(G), a2 = 1; std::string b = Gen<std::string>::mk(G), b2 = "x"; std::vector<Sub> c = Gen<std::vector<Sub>>::mk(G), c2(3); One d{7}, d2{1};
        BinarySerializer s; s.write(a, b, c, d); s.read(a2, b2, c2, d2);
        if (a != a2 || b != b2 || !(c == c2) || !(d == d2)) gv_fail("several", "write(a, b, c, d) and read(a, b, c, d) differ");
        Parts p{G.range(-1, 1), 2, 3}, q{9, 8, 7}; BinarySerializer v; v << p; v >> q;
        if (q.p != p.p || q.r != p.r || q.q != 8) gv_fail("described-part", "a partly described object was not restored member by member");
        auto tr = makeTraits<Parts>("q", &Parts::q); std::vector<Parts> ps(1 + G.below(4), p), pr(G.coin() ? ps.size() : G.below(6), Parts{1, 1, 1}), old = pr; for (auto& x : ps) x.q = G.range(-5, 5);
        auto bw = bindTraits(ps, tr), br = bindTraits(pr, tr); BinarySerializer w; w << bw; w >> br;
        bool ok = pr.size() == ps.size() && !w.isIteratorValid(); for (size_t i = 0; ok && i < ps.size(); i++) { Parts e = i < old.size() ? old[i] : Parts{}; if (pr[i].q != ps[i].q || (i < old.size() && (pr[i].p != e.p || pr[i].r != e.r))) ok = false; }
        if (!ok) gv_fail("bound-traits", "objects written with bound traits were not restored through them");
        gv_cases++;
    }
    { BinarySerializer s; g_both = 0; Both b; b.a = 4; s << b << std::vector<Both>(3, b); if (g_both != 4) gv_fail("custom", "the serialization function of a class was not used"); }
    for (size_t big : {size_t(255), size_t(256), size_t(65535), size_t(65536), size_t(70001)}) {      // sizes around powers of 256
        std::vector<std::string> a(big); for (size_t i = 0; i < big; i += 97) a[i] = std::to_string(i); std::vector<unsigned char> b(big, 3); std::set<size_t> c; for (size_t i = 0; i < big; i++) c.insert(i * 3); std::string d(big, 'q');
        BinarySerializer s; s << a << b << c << d; decltype(a) a2; decltype(b) b2(5); decltype(c) c2{1}; decltype(d) d2 = "y"; s >> a2 >> b2 >> c2 >> d2;
        if (a != a2 || b != b2 || c != c2 || d != d2 || s.isIteratorValid()) gv_fail("large", "containers of " + std::to_string(big) + " entries are not restored");
        gv_cases++;
    }
    std::remove(file.c_str());
    return gv_done();
}
