// Exported text: random values of many types against an independent rendering; histories of the JSON log.
#include <sstream>
#include <iostream>
#include <fstream>
#include <cstdio>
#include <unistd.h>
#include <vector>
#include <list>
#include <deque>
#include <set>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <tuple>
#include <array>
#include <string>
#include <cmath>
#include <memory>
#include <GTMesh/Debug/VariableExport.h>
#include <GTMesh/Debug/JSONLogger.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include "gv_mesh.hpp"
struct Rec { int i; double d; bool f; std::string s; };
struct One { std::vector<int> v; };
struct Nest { Rec r; std::map<int, Rec> m; std::pair<int, One> p; std::vector<Rec> v; };
class Priv { int x = 0; double y = 0; public: int getX() const { return x; } void setX(const int& v) { x = v; } double getY() const { return y; } void setY(const double& v) { y = v; } };
struct Plain { int a; double b; };
struct Outer { Plain p; std::vector<Plain> q; int c; };
struct Idx { std::vector<double> v; size_t size() const { return v.size(); } void resize(size_t n) { v.resize(n); } const double& operator[](size_t i) const { return v[i]; } double& operator[](size_t i) { return v[i]; } };
struct Cust { int a; };
void PrintTo(const Cust& c, std::ostream& o) { o << "<" << c.a << ">"; }
void PrintTo(const Cust& c) { std::printf("<%d>", c.a); }
struct Strm { int a; };
std::ostream& operator<<(std::ostream& o, const Strm& s) { return o << "S" << s.a; }
enum En { E0, E1 = 7 };
MAKE_ATTRIBUTE_TRAIT(Rec, i, d, f, s);
MAKE_ATTRIBUTE_TRAIT(One, v);
MAKE_NAMED_ATTRIBUTE_TRAIT(Nest, "the record", r, "map", m, "pair", p, "vec", v);
MAKE_CUSTOM_TRAIT(Priv, "X", std::make_pair(&Priv::getX, &Priv::setX), "Y", std::make_pair(&Priv::getY, &Priv::setY));
typedef Traits<Plain, int Plain::*, double Plain::*> PlainTraits;
// ---- random values
static std::string word(Rng& R) { std::string s; size_t n = R.below(R.coin(0.05) ? 300 : 7); for (size_t i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyz ,:[]{}0123456789"[R.below(43)]; return s; }
template <class T> struct Gen;
template <class T> T gen(Rng& R) { return Gen<T>::make(R); }
template <class T> struct Gen { static T make(Rng& R) { switch (R.below(6)) { case 0: return T(0); case 1: return T(1); case 2: return T(-1); case 3: return std::numeric_limits<T>::max(); case 4: return std::numeric_limits<T>::lowest(); default: return T(R.next()); } } };
template <> struct Gen<double> { static double make(Rng& R) { switch (R.below(5)) { case 0: return 0; case 1: return R.range(-1, 1) * 1e300; case 2: return R.range(-1, 1) * 1e-9; case 3: return double(R.below(100)); default: return R.range(-100, 100); } } };
template <> struct Gen<float> { static float make(Rng& R) { return float(R.range(-10, 10)); } };
template <> struct Gen<long double> { static long double make(Rng& R) { return R.range(-10, 10); } };
template <> struct Gen<bool> { static bool make(Rng& R) { return R.coin(); } };
template <> struct Gen<char> { static char make(Rng& R) { return char('a' + R.below(26)); } };
template <> struct Gen<std::string> { static std::string make(Rng& R) { return word(R); } };
template <> struct Gen<Cust> { static Cust make(Rng& R) { return Cust{int(R.below(100))}; } };
template <> struct Gen<Strm> { static Strm make(Rng& R) { return Strm{int(R.below(100))}; } };
template <> struct Gen<Rec> { static Rec make(Rng& R) { return Rec{gen<int>(R), gen<double>(R), R.coin(), word(R)}; } };
static size_t depth = 0;
static size_t len(Rng& R) { if (depth == 0 && R.coin(0.02)) return 200 + R.below(200); return R.below(depth > 1 ? 3 : 5); }
template <class C> static C seq(Rng& R) { C c; size_t n = len(R); depth++; for (size_t i = 0; i < n; i++) c.insert(c.end(), gen<typename C::value_type>(R)); depth--; return c; }
template <class T> struct Gen<std::vector<T>> { static std::vector<T> make(Rng& R) { std::vector<T> c; size_t n = len(R); depth++; for (size_t i = 0; i < n; i++) c.push_back(gen<T>(R)); depth--; return c; } };
template <class T> struct Gen<std::list<T>> { static std::list<T> make(Rng& R) { return seq<std::list<T>>(R); } };
template <class T> struct Gen<std::deque<T>> { static std::deque<T> make(Rng& R) { return seq<std::deque<T>>(R); } };
template <class T> struct Gen<std::set<T>> { static std::set<T> make(Rng& R) { return seq<std::set<T>>(R); } };
template <class T> struct Gen<std::multiset<T>> { static std::multiset<T> make(Rng& R) { return seq<std::multiset<T>>(R); } };
template <class K, class T> struct Gen<std::map<K, T>> { static std::map<K, T> make(Rng& R) { std::map<K, T> c; size_t n = len(R); depth++; for (size_t i = 0; i < n; i++) { K k = gen<K>(R); c[k] = gen<T>(R); } depth--; return c; } };
template <class K, class T> struct Gen<std::unordered_map<K, T>> { static std::unordered_map<K, T> make(Rng& R) { std::unordered_map<K, T> c; size_t n = len(R); depth++; for (size_t i = 0; i < n; i++) { K k = gen<K>(R); c[k] = gen<T>(R); } depth--; return c; } };
template <class T, size_t N> struct Gen<std::array<T, N>> { static std::array<T, N> make(Rng& R) { std::array<T, N> c; for (auto& x : c) x = gen<T>(R); return c; } };
template <unsigned N, class T> struct Gen<Vector<N, T>> { static Vector<N, T> make(Rng& R) { Vector<N, T> c; for (unsigned i = 0; i < N; i++) c[i] = gen<T>(R); return c; } };
template <class A, class B> struct Gen<std::pair<A, B>> { static std::pair<A, B> make(Rng& R) { A a = gen<A>(R); return std::pair<A, B>(a, gen<B>(R)); } };
template <class... A> struct Gen<std::tuple<A...>> { static std::tuple<A...> make(Rng& R) { return std::tuple<A...>{gen<A>(R)...}; } };
template <> struct Gen<One> { static One make(Rng& R) { return One{gen<std::vector<int>>(R)}; } };
template <> struct Gen<Idx> { static Idx make(Rng& R) { Idx x; x.v = gen<std::vector<double>>(R); return x; } };
template <> struct Gen<Nest> { static Nest make(Rng& R) { Nest n; n.r = gen<Rec>(R); n.m = gen<std::map<int, Rec>>(R); n.p = gen<std::pair<int, One>>(R); n.v = gen<std::vector<Rec>>(R); return n; } };
template <> struct Gen<Priv> { static Priv make(Rng& R) { Priv p; p.setX(gen<int>(R)); p.setY(gen<double>(R)); return p; } };
template <> struct Gen<Plain> { static Plain make(Rng& R) { return Plain{gen<int>(R), gen<double>(R)}; } };
template <> struct Gen<Outer> { static Outer make(Rng& R) { Outer o; o.p = gen<Plain>(R); o.q = gen<std::vector<Plain>>(R); o.c = gen<int>(R); return o; } };
// ---- independent rendering
static std::string ren(bool b) { return b ? "true" : "false"; }
static std::string ren(char c) { return std::string("\"") + c + "\""; }
static std::string ren(const std::string& s) { return "\"" + s + "\""; }
static std::string fmt(const char* f, double d) { char b[64]; std::snprintf(b, sizeof b, f, d); return b; }
static std::string ren(double d) { return fmt("%g", d); }
static std::string ren(float d) { return fmt("%g", d); }
static std::string ren(long double d) { char b[64]; std::snprintf(b, sizeof b, "%Lg", d); return b; }
static std::string ren(int x) { return std::to_string(x); }
static std::string ren(short x) { return std::to_string(x); }
static std::string ren(unsigned short x) { return std::to_string(x); }
static std::string ren(unsigned x) { return std::to_string(x); }
static std::string ren(long x) { return std::to_string(x); }
static std::string ren(unsigned long x) { return std::to_string(x); }
static std::string ren(long long x) { return std::to_string(x); }
static std::string ren(unsigned long long x) { return std::to_string(x); }
static std::string ren(const Cust& c) { return "<" + std::to_string(c.a) + ">"; }
static std::string ren(const Strm& c) { return "S" + std::to_string(c.a); }
static std::string ren(const Rec& r); static std::string ren(const One& r); static std::string ren(const Nest& r); static std::string ren(const Priv& r);
static std::string ren(const Plain& r) { return "{ \"A\" : " + ren(r.a) + ", \"B\" : " + ren(r.b) + " }"; }
template <class A, class B> static std::string ren(const std::pair<A, B>& p);
template <class... A> static std::string ren(const std::tuple<A...>& t);
template <class T, size_t N> static std::string ren(const std::array<T, N>& c);
template <unsigned N, class T> static std::string ren(const Vector<N, T>& c);
template <class T> static std::string ren(const std::vector<T>& c); template <class T> static std::string ren(const std::list<T>& c); template <class T> static std::string ren(const std::deque<T>& c);
template <class T> static std::string ren(const std::set<T>& c); template <class T> static std::string ren(const std::multiset<T>& c); template <class K, class T> static std::string ren(const std::map<K, T>& c); template <class K, class T> static std::string ren(const std::unordered_map<K, T>& c);
template <class C> static std::string renSeq(const C& c) { std::string s = "[ "; bool first = true; for (const auto& x : c) { if (!first) s += ", "; first = false; s += ren(x); } return s + " ]"; }
template <class T> static std::string ren(const std::vector<T>& c) { return renSeq(c); }
template <> std::string ren(const std::vector<bool>& c) { std::string s = "[ "; for (size_t i = 0; i < c.size(); i++) s += (i ? ", " : "") + ren(bool(c[i])); return s + " ]"; }
template <class T> static std::string ren(const std::list<T>& c) { return renSeq(c); }
template <class T> static std::string ren(const std::deque<T>& c) { return renSeq(c); }
template <class T> static std::string ren(const std::set<T>& c) { return renSeq(c); }
template <class T> static std::string ren(const std::multiset<T>& c) { return renSeq(c); }
template <class K, class T> static std::string ren(const std::map<K, T>& c) { return renSeq(c); }
template <class K, class T> static std::string ren(const std::unordered_map<K, T>& c) { return renSeq(c); }
template <class T, size_t N> static std::string ren(const std::array<T, N>& c) { return renSeq(c); }
template <unsigned N, class T> static std::string ren(const Vector<N, T>& c) { std::string s = "[ "; for (unsigned i = 0; i < N; i++) s += (i ? ", " : "") + ren(c[i]); return s + " ]"; }
static std::string ren(const Idx& c) { return renSeq(c.v); }
template <class A, class B> static std::string ren(const std::pair<A, B>& p) { return "{ " + ren(p.first) + ": " + ren(p.second) + "}"; }
template <size_t I, class T> struct RT { static std::string go(const T& t) { return RT<I - 1, T>::go(t) + (I > 1 ? ", " : "") + ren(std::get<I - 1>(t)); } };
template <class T> struct RT<0, T> { static std::string go(const T&) { return ""; } };
template <class... A> static std::string ren(const std::tuple<A...>& t) { return "[ " + RT<sizeof...(A), std::tuple<A...>>::go(t) + "]"; }
static std::string ren(const Rec& r) { return "{ \"i\" : " + ren(r.i) + ", \"d\" : " + ren(r.d) + ", \"f\" : " + ren(r.f) + ", \"s\" : " + ren(r.s) + " }"; }
static std::string ren(const One& r) { return "{ \"v\" : " + ren(r.v) + " }"; }
static std::string ren(const Nest& r) { return "{ \"the record\" : " + ren(r.r) + ", \"map\" : " + ren(r.m) + ", \"pair\" : " + ren(r.p) + ", \"vec\" : " + ren(r.v) + " }"; }
static std::string ren(const Priv& r) { return "{ \"X\" : " + ren(r.getX()) + ", \"Y\" : " + ren(r.getY()) + " }"; }
static std::string ren(const Outer& o) { return "{ \"P\" : " + ren(o.p) + ", \"Q\" : " + ren(o.q) + ", \"C\" : " + ren(o.c) + " }"; }
// ---- checks
static void differ(const char* nm, const char* where, const std::string& got, const std::string& exp) {
    size_t i = 0; while (i < got.size() && i < exp.size() && got[i] == exp[i]) i++;
    gv_fail("export-text", std::string(nm) + " " + where + ": exported " + got.substr(i > 20 ? i - 20 : 0, 60) + " instead of " + exp.substr(i > 20 ? i - 20 : 0, 60) + " (around character " + std::to_string(i) + ")");
}
static int gv_fd = -1; static FILE* gv_tmp = nullptr;
static void capture() { std::fflush(stdout); gv_fd = dup(1); gv_tmp = std::tmpfile(); dup2(fileno(gv_tmp), 1); }
static std::string released() { std::fflush(stdout); dup2(gv_fd, 1); close(gv_fd); std::string s; std::rewind(gv_tmp); char b[4096]; size_t n; while ((n = std::fread(b, 1, sizeof b, gv_tmp)) > 0) s.append(b, n); std::fclose(gv_tmp); return s; }
template <class T> static void os(Rng& R, const char* nm, int n) {
    gv_case(nm);
    for (int k = 0; k < n; k++) {
        T v = gen<T>(R); std::ostringstream o; o << "before "; VariableExport::exportVariable(o, v); o << " after";
        std::string e = "before " + ren(v) + " after";
        if (o.str() != e) { differ(nm, "to a stream", o.str(), e); return; }
        gv_cases++;
    }
}
template <class T> static void io(Rng& R, const char* nm, int n) {
    gv_case(std::string(nm) + " to the standard output");
    std::string e, sep = "\n";
    capture();
    for (int k = 0; k < n; k++) { T v = gen<T>(R); VariableExport::exportVariable(v); std::printf("\n"); e += ren(v) + sep; gv_cases++; }
    std::string g = released();
    if (g != e) differ(nm, "to the standard output", g, e);
}
#define OS(...) os<__VA_ARGS__>(R, #__VA_ARGS__, n)
#define BOTH(...) os<__VA_ARGS__>(R, #__VA_ARGS__, n); io<__VA_ARGS__>(R, #__VA_ARGS__, n / 4 + 2)
static void exports(Rng& R, int n) {
    BOTH(int); BOTH(short); BOTH(unsigned); BOTH(unsigned short); OS(long); OS(unsigned long); BOTH(long long); BOTH(unsigned long long); BOTH(double); BOTH(float); BOTH(long double); BOTH(bool); BOTH(char); BOTH(std::string);
    BOTH(Cust); OS(Strm); BOTH(Rec); BOTH(One); BOTH(Nest); BOTH(Priv); BOTH(Idx);
    BOTH(std::vector<int>); BOTH(std::vector<bool>); BOTH(std::vector<std::string>); BOTH(std::vector<char>); BOTH(std::list<double>); BOTH(std::deque<unsigned>); BOTH(std::set<int>); BOTH(std::multiset<std::string>); OS(std::vector<size_t>);
    BOTH(std::map<int, double>); BOTH(std::map<std::string, std::vector<int>>); BOTH(std::unordered_map<int, bool>); BOTH(std::map<std::string, std::map<int, std::string>>); BOTH(std::map<std::pair<int, int>, Rec>);
    BOTH(std::vector<std::vector<int>>); BOTH(std::vector<std::list<std::set<int>>>); BOTH(std::vector<std::vector<std::vector<std::pair<int, bool>>>>); BOTH(std::vector<Rec>); BOTH(std::vector<Nest>); BOTH(std::vector<Priv>);
    BOTH(std::array<int, 1>); BOTH(std::array<double, 4>); BOTH(std::array<std::vector<int>, 3>); BOTH(Vector<3, double>); BOTH(Vector<1, double>); BOTH(std::vector<Vector<2, double>>);
    BOTH(std::pair<int, double>); BOTH(std::pair<bool, std::string>); BOTH(std::pair<std::vector<int>, std::pair<int, Rec>>);
    BOTH(std::tuple<int>); BOTH(std::tuple<int, double>); BOTH(std::tuple<char, std::string, bool, int>); BOTH(std::tuple<std::tuple<int, int>, std::vector<std::tuple<int, bool>>>); BOTH(std::vector<std::tuple<int, double>>); BOTH(std::map<int, std::tuple<int, Rec>>); BOTH(std::tuple<std::vector<int>, std::map<int, int>, One>); BOTH(std::pair<std::tuple<int, int>, int>);
    // texts
    const char* cp = "plain text"; char arr[] = "array"; char* p = arr;
    std::ostringstream o; VariableExport::exportVariable(o, cp); o << "|"; VariableExport::exportVariable(o, p); o << "|"; VariableExport::exportVariable(o, "literal"); o << "|"; VariableExport::exportVariable(o, E1); o << "|"; VariableExport::exportVariable(o, std::tuple<>()); o << "|"; VariableExport::exportVariable(o, std::array<int, 0>());
    GV_CHECK("export-text", o.str() == "\"plain text\"|\"array\"|literal|7|[ ]|[  ]", "texts: " + o.str());
    capture(); VariableExport::exportVariable(cp); std::printf("|"); VariableExport::exportVariable(p); std::printf("|"); VariableExport::exportVariable("literal"); std::string g = released();
    GV_CHECK("export-text", g == "\"plain text\"|\"array\"|literal", "texts to the standard output: " + g);
    // traits bound at the call
    auto pt = makeTraits<Plain>("A", &Plain::a, "B", &Plain::b); auto ot = makeTraits<Outer>("P", &Outer::p, "Q", &Outer::q, "C", &Outer::c);
    gv_case("bound traits");
    for (int k = 0; k < n; k++) {
        Plain a = gen<Plain>(R); Outer b = gen<Outer>(R); std::vector<Plain> v = gen<std::vector<Plain>>(R); std::map<int, Plain> m{{1, a}, {5, a}}; std::tuple<int, Plain> t{3, a}; std::tuple<const decltype(pt)&, const decltype(ot)&> tr(pt, ot); std::vector<Outer> w = gen<std::vector<Outer>>(R);
        std::ostringstream s; std::string e;
        VariableExport::exportVariable(s, bindTraits(a, pt)); e += ren(a);
        VariableExport::exportVariable(s, bindTraits(b, ot, pt)); e += ren(b);
        VariableExport::exportVariable(s, bindTraits(b, pt, ot)); e += ren(b);
        VariableExport::exportVariable(s, v, tr); e += ren(v);
        VariableExport::exportVariable(s, w, tr); e += ren(w);
        VariableExport::exportVariable(s, m, tr); e += ren(m);
        VariableExport::exportVariable(s, t, tr); e += ren(t);
        VariableExport::exportVariable(s, 5, tr); e += "5";
        VariableExport::exportVariable(s, std::string("x"), tr); e += "\"x\"";
        VariableExport::exportVariable(s, true, tr); e += "true";
        if (s.str() != e) { differ("bound traits", "to a stream", s.str(), e); break; }
        capture();
        VariableExport::exportVariable(bindTraits(a, pt)); VariableExport::exportVariable(bindTraits(b, ot, pt)); VariableExport::exportVariable(bindTraits(b, pt, ot)); VariableExport::exportVariable(v, tr); VariableExport::exportVariable(w, tr); VariableExport::exportVariable(m, tr); VariableExport::exportVariable(t, tr); VariableExport::exportVariable(5, tr); VariableExport::exportVariable(std::string("x"), tr); VariableExport::exportVariable(true, tr);
        std::string g2 = released();
        if (g2 != e) { differ("bound traits", "to the standard output", g2, e); break; }
    }
}
// ---- JSON
struct Json { const std::string& s; size_t p = 0; bool ok = true; std::vector<std::map<std::string, std::string>> recs;
    explicit Json(const std::string& t) : s(t) {}
    void ws() { while (p < s.size() && std::strchr(" \t\r\n", s[p])) p++; }
    bool eat(char c) { ws(); if (p < s.size() && s[p] == c) { p++; return true; } ok = false; return false; }
    bool peek(char c) { ws(); return p < s.size() && s[p] == c; }
    std::string str() { std::string r; if (!eat('"')) return r; while (p < s.size() && s[p] != '"') { if (s[p] == '\\') { p++; if (p >= s.size() || !std::strchr("\"\\/bfnrtu", s[p])) { ok = false; return r; } } else if ((unsigned char)s[p] < 32) ok = false; r += s[p++]; } if (p >= s.size()) ok = false; else p++; return r; }
    void val(int d = 0) {
        if (!ok || d > 60) { ok = false; return; } ws();
        if (p >= s.size()) { ok = false; return; }
        if (s[p] == '"') { str(); return; }
        if (s[p] == '[') { p++; if (peek(']')) { p++; return; } do val(d + 1); while (ok && peek(',') && eat(',')); eat(']'); return; }
        if (s[p] == '{') { p++; if (peek('}')) { p++; return; } do { ws(); str(); eat(':'); val(d + 1); } while (ok && peek(',') && eat(',')); eat('}'); return; }
        for (const char* k : {"true", "false", "null"}) if (s.compare(p, std::strlen(k), k) == 0) { p += std::strlen(k); return; }
        size_t q = p; if (s[p] == '-') p++; size_t dg = p; while (p < s.size() && std::isdigit(s[p])) p++; if (p == dg) { ok = false; return; }
        if (p < s.size() && s[p] == '.') { p++; while (p < s.size() && std::isdigit(s[p])) p++; }
        if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { p++; if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++; while (p < s.size() && std::isdigit(s[p])) p++; }
        (void)q; }
    // the document of the log: records with the raw text of their members
    bool doc() {
        eat('{'); if (str() != "logs") ok = false; eat(':'); eat('[');
        if (!peek(']')) do { std::map<std::string, std::string> r; eat('{'); do { std::string k = str(); eat(':'); ws(); size_t b = p; if (k != "data" && peek('"')) { r[k] = str(); } else { val(); r[k] = s.substr(b, p - b); } if (r.count("#" + k)) ok = false; r["#" + k] = ""; } while (ok && peek(',') && eat(',')); eat('}'); recs.push_back(r); } while (ok && peek(',') && eat(','));
        eat(']'); eat('}'); ws(); return ok && p == s.size(); }
};
struct Want { std::string file, expr, data; int line, group; bool full; };
struct File { std::string name; std::vector<Want> w; bool closed; };
template <class T> static std::string text(const T& v) { std::ostringstream o; VariableExport::exportVariable(o, v); return o.str(); }
static void log(uint64_t seed) {
    Rng R(seed); std::vector<File> files; int nf = 0; std::string hist = "seed " + std::to_string(seed) + ":";
    {
        std::string first = "log0.json"; remove(first.c_str());
        std::unique_ptr<JSONLogger> lg(R.coin() ? new JSONLogger(first.c_str()) : new JSONLogger());
        bool named = true, open = false; int group = 0; if (hist.empty()) named = false;
        lg.reset(new JSONLogger(first.c_str()));
        (void)named;
        auto want = [&](const char* f, int l, const char* e, const std::string& d, bool full) { if (!open) { File x; x.name = first; x.closed = false; std::vector<File> keep; for (auto& y : files) if (y.name != first) keep.push_back(y); files = keep; files.push_back(x); open = true; }
            Want w; w.file = f; w.line = l; w.expr = e; w.data = d; w.group = group; w.full = full; files.back().w.push_back(w); };
        size_t n = R.below(14);
        const char* names[] = {"x", "m.size()", "a[\"key\"]", "p\\q", "f(1, 2)", ""}; const char* fs[] = {"main.cpp", "\\\\server\\share\\a.cpp", "C:\\src\\b.cpp", "/home/u/c.cpp", "\\x", "d\\"};
        for (size_t k = 0; k < n; k++) {
            int line = int(R.below(5000)); const char* f = fs[R.below(6)]; const char* e1 = names[R.below(6)]; const char* e2 = names[R.below(6)]; const char* e3 = names[R.below(6)];
            unsigned op = R.below(9); hist += " " + std::to_string(op);
            if (op == 0) { int v = gen<int>(R); want(f, line, e1, text(v), true); lg->writeVar(line, f, e1, v); group++; }
            else if (op == 1) { double v = gen<double>(R); std::vector<int> u = gen<std::vector<int>>(R); want(f, line, e1, text(v), true); want(f, line, e2, text(u), true); lg->writeVar(line, f, e1, v, e2, u); group++; }
            else if (op == 2) { Rec r = gen<Rec>(R); std::map<std::string, int> m{{"a", 1}, {"b", 2}}; bool b = R.coin(); want(f, line, e1, text(r), true); want(f, line, e2, text(m), true); want(f, line, e3, text(b), true); lg->writeVar(line, f, e1, r, e2, m, e3, b); group++; }
            else if (op == 3) { std::vector<Rec> r = gen<std::vector<Rec>>(R); want("", 0, e1, text(r), false); lg->writeVar(e1, r); }
            else if (op == 4) { std::string s = word(R); char c = gen<char>(R); want("", 0, e1, text(s), false); want("", 0, e2, text(c), false); lg->writeVar(e1, s, e2, c); }
            else if (op == 5) { std::tuple<int, std::string> t = gen<std::tuple<int, std::string>>(R); want(f, line, e1, text(t), true); lg->writeVar(line, f, e1, t); group++; }
            else if (op == 6 && R.coin(0.5)) { lg->destroy(); open = false; }
            else if (op == 7 && R.coin(0.6)) { std::string nm = "log" + std::to_string(++nf) + ".json"; remove(nm.c_str()); lg->create(nm.c_str()); File x; x.name = nm; x.closed = false; files.push_back(x); open = true; }
            else { Nest v = gen<Nest>(R); One o = gen<One>(R); (void)v; want(f, line, e1, text(o), true); lg->writeVar(line, f, e1, o); group++; }
        }
        if (R.coin(0.3)) { lg->destroy(); if (R.coin()) lg->destroy(); }
    }
    for (auto& x : files) {
        std::ifstream in(x.name); std::stringstream b; b << in.rdbuf(); std::string s = b.str(); Json j(s);
        std::string at = hist + " file " + x.name;
        if (!j.doc()) { gv_fail("log-form", at + ": not a well-formed document around character " + std::to_string(j.p) + ": " + s.substr(j.p > 30 ? j.p - 30 : 0, 60)); return; }
        if (j.recs.size() != x.w.size()) { gv_fail("log-records", at + ": " + std::to_string(j.recs.size()) + " records instead of " + std::to_string(x.w.size())); return; }
        for (size_t k = 0; k < x.w.size(); k++) {
            auto& r = j.recs[k]; auto& w = x.w[k];
            if (r["data"] != w.data) { gv_fail("log-data", at + " record " + std::to_string(k) + ": data " + r["data"].substr(0, 60) + " instead of " + w.data.substr(0, 60)); return; }
            if (r["expr"] != w.expr) { gv_fail("log-expr", at + " record " + std::to_string(k) + ": expression " + r["expr"] + " instead of " + w.expr); return; }
            if (w.full && (r["file"] != w.file || r["line"] != std::to_string(w.line) || r["gInd"] != std::to_string(w.group))) { gv_fail("log-origin", at + " record " + std::to_string(k) + ": origin " + r["file"] + ":" + r["line"] + " group " + r["gInd"] + " instead of " + w.file + ":" + std::to_string(w.line) + " group " + std::to_string(w.group)); return; }
        }
        remove(x.name.c_str());
    }
}
int main(int argc, char** argv) {
    uint64_t seed = std::strtoull(argv[1], 0, 10); bool th = std::string(argv[2]) == "thorough";
#ifdef LOGS
    for (int i = 0; i < (th ? 6000 : 700); i++) { uint64_t s = seed * 70001 + i; if (i % 50 == 0) gv_case("JSON log histories from seed " + std::to_string(s)); else gv_cases++; log(s); }
#else
    Rng R(seed); exports(R, th ? 600 : 60);
#endif
    return gv_done();
}
