// Random operations on described classes against the same operation on every member.
#include <GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include "gv_mesh.hpp"
struct In { double p; float q; int h; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(In, q, p);
struct C { double a; int hid; float f; In in; int i; long l; Vector<3, double> v; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C, l, a, f, i, v, in);
struct D { double a; In in; int hid; float f; double b; };      // no vector: products, signs, functions
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(D, b, in, f, a);
struct I { long l; int i; int hid; int j; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(I, j, l, i);
struct F { double a, b; int hid; float f; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(F, f, a, b);
struct G { double a; std::vector<double> v; std::array<In, 2> w; std::vector<std::vector<double>> vv; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(G, v, a, w, vv);
// members one by one
template <class Fn> void each(C& z, const C& x, const C& y, Fn f) { f(z.a, x.a, y.a); f(z.f, x.f, y.f); f(z.i, x.i, y.i); f(z.l, x.l, y.l); for (int k = 0; k < 3; k++) f(z.v[k], x.v[k], y.v[k]); f(z.in.p, x.in.p, y.in.p); f(z.in.q, x.in.q, y.in.q); }
template <class Fn> void each(D& z, const D& x, const D& y, Fn f) { f(z.a, x.a, y.a); f(z.f, x.f, y.f); f(z.b, x.b, y.b); f(z.in.p, x.in.p, y.in.p); f(z.in.q, x.in.q, y.in.q); }
template <class Fn> void each(I& z, const I& x, const I& y, Fn f) { f(z.l, x.l, y.l); f(z.i, x.i, y.i); f(z.j, x.j, y.j); }
template <class Fn> void each(F& z, const F& x, const F& y, Fn f) { f(z.a, x.a, y.a); f(z.b, x.b, y.b); f(z.f, x.f, y.f); }
static bool near(double a, double b) { return a == b || (a != a && b != b) || std::fabs(a - b) <= 1e-6 * std::max(std::fabs(a), std::fabs(b)); }
static void rnd(Rng& R, double& v) { v = R.coin(0.1) ? 0 : R.coin(0.2) ? double(int(R.below(100)) - 50) : R.range(-9, 9) * (R.coin(0.1) ? 1e8 : 1); }
static void rnd(Rng& R, float& v) { double d; rnd(R, d); v = float(d); }
static void rnd(Rng& R, int& v) { v = int(R.below(R.coin(0.3) ? 20000 : 100)) - 50; }
static void rnd(Rng& R, long& v) { v = long(R.below(R.coin(0.3) ? 3000000000u : 100)) - 50; }
template <class T> static T any(Rng& R, bool pos = false) { T z{}; each(z, z, z, [&](auto& m, const auto&, const auto&) { rnd(R, m); if (pos) { if (m < 0) m = -m; if (m == 0) m = 3; } }); z.hid = int(R.below(1000)); return z; }
template <class T> static bool same(const T& x, const T& y) { T z(x); bool r = x.hid == y.hid; each(z, x, y, [&](auto&, const auto& a, const auto& b) { if (!(a == b || (a != a && b != b))) r = false; }); return r; }
#define RV(v) static_cast<std::decay_t<decltype(v)>&&>(std::decay_t<decltype(v)>(v))
template <class T, class Fn> static void expect(const char* key, const T& z, const T& x, const T& y, Fn f) {
    T w(z);
    each(w, x, y, [&](auto& m, const auto& a, const auto& b) { typedef std::decay_t<decltype(m)> M; m = M(f(a, b)); });
    T q(z);
    bool ok = true;
    each(q, z, w, [&](auto&, const auto& a, const auto& b) { if (!near(double(a), double(b))) ok = false; });
    if (!ok) gv_fail(key, std::string(typeid(T).name()) + ": members differ from the operation on the members");
}
#define TRY(key, e, f) do { T x(x0), y(y0); const T& cx = x; const T& cy = y; (void)cx; (void)cy; auto z = e; expect(key, z, x0, y0, f); GV_CHECK(key "-operands", same(x, x0) && same(y, y0), "operand modified by " #e); } while (0)
#define COMP(key, e, f) do { T x(x0), y(y0); T& r = (e); GV_CHECK(key "-ref", &r == &x, "the compound form does not return its object"); expect(key, x, x0, y0, f); GV_CHECK(key "-hidden", x.hid == x0.hid && same(y, y0), "member not described or operand modified by " #e); } while (0)
#define SELF(key, e, f) do { T x(x0); (void)(e); expect(key, x, x0, x0, f); GV_CHECK(key "-hidden", x.hid == x0.hid, "hidden member modified by " #e); } while (0)
auto add = [](auto a, auto b) { return a + b; };
auto sub = [](auto a, auto b) { return a - b; };
auto mul = [](auto a, auto b) { return a * b; };
template <class T> void sums(Rng& R) {
    T x0 = any<T>(R), y0 = any<T>(R);
    TRY("add", cx + cy, add); TRY("add", x + y, add); TRY("add", cx + RV(y), add); TRY("add", RV(x) + cy, add); TRY("add", RV(x) + RV(y), add);
    TRY("sub", cx - cy, sub); TRY("sub", x - y, sub); TRY("sub", cx - RV(y), sub); TRY("sub", RV(x) - cy, sub); TRY("sub", RV(x) - RV(y), sub);
    COMP("iadd", x += y, add); COMP("isub", x -= y, sub); SELF("iadd-self", x += x, add); SELF("isub-self", x -= x, sub);
    TRY("chain", cx + cy - cx, [](auto a, auto b) { return decltype(a)(a + b) - a; });
    double s; rnd(R, s); if (s == 0) s = 2; int k = int(R.below(9)) + 1;
    auto big = [&](double t) { return std::fabs(t) > 1000; };
    if (!big(s)) {
        auto ms = [&](auto a, auto) { return a * s; }; auto ds = [&](auto a, auto) { return a / s; };
        TRY("muls", cx * s, ms); TRY("muls", x * s, ms); TRY("muls", RV(x) * s, ms); TRY("lmuls", s * cx, ms); TRY("lmuls", s * x, ms); TRY("lmuls", s * RV(x), ms); COMP("imuls", x *= s, ms);
        if (std::fabs(s) > 0.5) { TRY("divs", cx / s, ds); TRY("divs", x / s, ds); TRY("divs", RV(x) / s, ds); }
    }
    auto mk = [&](auto a, auto) { return a * k; }; auto dk = [&](auto a, auto) { return a / k; };
    TRY("muli", cx * k, mk); TRY("muli", k * cx, mk); TRY("divi", cx / k, dk);
    { int m = int(R.below(200)) + 1; T z = x0; each(z, z, z, [&](auto& q, const auto&, const auto&) { q = decltype(+q)(m); }); T w = z / m; bool ok = true; each(w, w, w, [&](auto&, const auto& q, const auto&) { if (q != 1) ok = false; }); GV_CHECK("div-exact", ok, std::to_string(m) + " divided by itself is not one"); }
    TRY("abs", abs(cx), [](auto a, auto) { return std::abs(a); }); TRY("abs", abs(RV(x)), [](auto a, auto) { return std::abs(a); });
}
template <class T> void prods(Rng& R) {
    T x0 = any<T>(R), y0 = any<T>(R);
    TRY("mul", cx * cy, mul); TRY("mul", x * y, mul); TRY("mul", cx * RV(y), mul); TRY("mul", RV(x) * cy, mul); COMP("imul", x *= y, mul); SELF("imul-self", x *= x, mul);
    TRY("neg", -cx, [](auto a, auto) { return -a; }); TRY("neg", -RV(x), [](auto a, auto) { return -a; });
}
template <class T> void funs(Rng& R) {
    T x0 = any<T>(R, true), y0 = any<T>(R, true);
    each(x0, x0, x0, [&](auto& m, const auto&, const auto&) { while (m > 20) m /= 3; });
    double s = R.range(0.25, 3);
    TRY("sqrt", sqrt(cx), [](auto a, auto) { return std::sqrt(a); }); TRY("sqrt", sqrt(RV(x)), [](auto a, auto) { return std::sqrt(a); });
    TRY("pow", pow(cx, s), [&](auto a, auto) { return std::pow(a, s); }); TRY("pow", pow(RV(x), s), [&](auto a, auto) { return std::pow(a, s); });
    TRY("base", pow(s, cx), [&](auto a, auto) { return std::pow(s, a); }); TRY("base", pow(s, RV(x)), [&](auto a, auto) { return std::pow(s, a); });
}
template <class T> void logs(Rng& R) {
    T x0 = any<T>(R, true), y0 = any<T>(R, true);
    each(x0, x0, x0, [&](auto& m, const auto&, const auto&) { while (m > 20) m /= 3; });
#define ONE(f) TRY(#f, f(cx), [](auto a, auto) { return std::f(a); }); TRY(#f, f(x), [](auto a, auto) { return std::f(a); }); TRY(#f, f(RV(x)), [](auto a, auto) { return std::f(a); });
    ONE(exp) ONE(log) ONE(log2) ONE(log10) ONE(cbrt)
}
template <class T> void aggr(Rng& R) {
    T x = any<T>(R); const T x0(x);
    double mx = -1e300, mn = 1e300, s = 0, m = 0;
    each(x, x, x, [&](auto&, const auto& q, const auto&) { mx = std::max(mx, double(q)); mn = std::min(mn, double(q)); s += double(q); m += std::fabs(double(q)); });
    GV_CHECK("max", near(double(max(x)), mx), "maximum of the members"); GV_CHECK("min", near(double(min(x)), mn), "minimum of the members"); GV_CHECK("sum", std::fabs(double(sum(x)) - s) <= 1e-5 * m, "sum of the members");
    GV_CHECK("aggr-operand", same(x, x0), "operand modified");
}
int main() {
    unsigned seed = std::getenv("SEED") ? unsigned(std::atoi(std::getenv("SEED"))) : 1;
    bool th = std::getenv("TIER") && std::string(std::getenv("TIER")) == "thorough";
    for (unsigned it = 0; it < (th ? 20000u : 1500u); it++) {
        Rng R(seed * 100003u + it);
        gv_case("seed " + std::to_string(seed) + " case " + std::to_string(it));
        sums<C>(R); sums<D>(R); sums<I>(R); sums<F>(R); prods<D>(R); prods<F>(R); prods<I>(R); funs<D>(R); funs<F>(R); logs<F>(R); aggr<C>(R); aggr<D>(R); aggr<I>(R); aggr<F>(R);
        G g; std::vector<double> all; double d;
        auto put = [&](double& q) { rnd(R, q); all.push_back(q); };
        put(g.a); g.v.resize(1 + R.below(R.coin(0.05) ? 300 : 5)); for (auto& q : g.v) put(q);
        for (auto& w : g.w) { put(w.p); rnd(R, w.q); all.push_back(w.q); w.h = 1 << 30; }
        g.vv.resize(1 + R.below(3)); for (auto& r : g.vv) { r.resize(1 + R.below(4)); for (auto& q : r) put(q); }
        double s = 0, m = 0; for (double q : all) { s += q; m += std::fabs(q); }
        GV_CHECK("max-list", max(g) == *std::max_element(all.begin(), all.end()), "maximum over members in lists");
        GV_CHECK("min-list", min(g) == *std::min_element(all.begin(), all.end()), "minimum over members in lists");
        GV_CHECK("sum-list", std::fabs(sum(g) - s) <= 1e-5 * m, "sum over members in lists");
        std::vector<double> v = g.v; auto va = abs(v); auto vp = pow(v, 2.0);
        bool ok = v == g.v && va.size() == v.size() && vp.size() == v.size();
        for (size_t k = 0; ok && k < v.size(); k++) ok = va[k] == std::fabs(v[k]) && near(vp[k], v[k] * v[k]);
        GV_CHECK("list", ok, "abs and pow of a list"); (void)d;
    }
    return gv_done();
}
