// Vector arithmetic against plain arrays and the operators of the coordinate type.
#include <cstddef>
#include <utility>
#include <GTMesh/NumericStaticArray/Vector.h>
#include "gv_mesh.hpp"
#include <cmath>
#include <limits>
#include <sstream>
template <class T, bool fl = std::is_floating_point<T>::value> struct Mk {   // floating point: all magnitudes, sometimes special
    static T mk(Rng& G) { switch (G.below(12)) { case 0: return T(0); case 1: return -T(0); case 2: return std::numeric_limits<T>::max(); case 3: return std::numeric_limits<T>::denorm_min() * T(G.below(9)); case 4: return T(G.range(-1, 1) * 1e-30); case 5: return T(G.range(-1, 1) * 1e30); case 6: return T(double(G.below(100))); case 7: if (G.coin(0.3)) return std::numeric_limits<T>::infinity(); if (G.coin(0.3)) return std::numeric_limits<T>::quiet_NaN(); default: return T(G.range(-1000, 1000)); } }
    static T nz(Rng& G) { T x = mk(G); return x == T(0) ? T(3) : x; }
    static constexpr bool f = true; };
template <class T> struct Mk<T, false> {     // integers: small enough that no operation overflows
    static long lim() { return sizeof(T) == 1 ? (std::is_signed<T>::value ? 120 : 255) : sizeof(T) == 2 ? 150 : 10000; }
    static T mk(Rng& G) { long x = long(G.below(size_t(lim() + 1))); return T(std::is_signed<T>::value && G.coin() ? -x : x); }
    static T nz(Rng& G) { T x = mk(G); return x ? x : T(1); }
    static constexpr bool f = false; };
template <class T> static bool same(T x, T y) { return x == y || (x != x && y != y); }
template <class T> static bool bits(T x, T y) { return std::memcmp(&x, &y, sizeof(T)) == 0 || (x != x && y != y); }
template <class T> static std::string str(const T* x, unsigned n) { std::ostringstream s; s.precision(20); s << "{"; for (unsigned i = 0; i < n; i++) s << (i ? "," : "") << +x[i]; s << "}"; return s.str(); }
template <class T> static std::string name() { return std::is_same<T, double>::value ? "double" : std::is_same<T, float>::value ? "float" : std::is_same<T, int>::value ? "int" : std::is_same<T, long>::value ? "long" : std::is_same<T, short>::value ? "short" : std::is_same<T, unsigned char>::value ? "unsigned char" : std::is_same<T, signed char>::value ? "signed char" : std::is_same<T, unsigned>::value ? "unsigned" : "type"; }

template <unsigned D, class T, class S> struct Test {
    typedef Vertex<D, T> V;
    static std::string what(const V& a, const V& b) { return "dimension " + std::to_string(D) + " " + name<T>() + " a=" + str(a.data(), D) + " b=" + str(b.data(), D); }
    template <class F> static void expect(const char* op, const V& a, const V& b, const std::string& x, const V& got, F f) {
        for (unsigned i = 0; i < D; i++) { T e = f(i); T g = got.data()[i]; if (!bits(g, e)) { std::ostringstream s; s.precision(20); s << op << " " << what(a, b) << x << ": coordinate " << i << " is " << +g << " instead of " << +e; gv_fail(std::string("vec-") + op, s.str()); return; } }
    }
    static void go(Rng& G) {
        V a, b; for (unsigned i = 0; i < D; i++) { a.data()[i] = Mk<T>::mk(G); b.data()[i] = Mk<T>::mk(G); }
        if (G.coin(0.3)) b = a;
        if (G.coin(0.3)) { b = a; unsigned k = G.below(D); b.data()[k] = Mk<T>::mk(G); }
        if (Mk<T>::f && G.coin(0.2)) { b = a; unsigned k = G.below(D); if (std::isfinite(double(a.data()[k]))) b.data()[k] = T(std::nextafter(a.data()[k], T(0))); }
        const V A = a, B = b; const T s = Mk<T>::nz(G); const S q = Mk<S>::nz(G);
        std::ostringstream sc; sc.precision(20); sc << " scalar " << +q; const std::string x = sc.str(), no;
        auto at = [](const V& v, unsigned i) { return v.data()[i]; };
        expect("add", A, B, no, A + B, [&](unsigned i) { return T(at(A, i) + at(B, i)); });
        expect("subtract", A, B, no, A - B, [&](unsigned i) { return T(at(A, i) - at(B, i)); });
        expect("multiply", A, B, x, A * q, [&](unsigned i) { return T(at(A, i) * q); });
        expect("divide", A, B, x, A / q, [&](unsigned i) { return T(at(A, i) / q); });
        expect("multiply-from-left", A, B, no, s * A, [&](unsigned i) { return T(at(A, i) * s); });
        V c = A; expect("add-in-place", A, B, no, c += B, [&](unsigned i) { return T(at(A, i) + at(B, i)); }); expect("add-in-place", A, B, no, c, [&](unsigned i) { return T(at(A, i) + at(B, i)); });
        c = A; c -= B; expect("subtract-in-place", A, B, no, c, [&](unsigned i) { return T(at(A, i) - at(B, i)); });
        c = A; c *= q; expect("multiply-in-place", A, B, x, c, [&](unsigned i) { return T(at(A, i) * q); });
        c = A; c /= q; expect("divide-in-place", A, B, x, c, [&](unsigned i) { return T(at(A, i) / q); });
        // aliasing operands
        c = A; c += c; expect("add-itself", A, A, no, c, [&](unsigned i) { return T(at(A, i) + at(A, i)); });
        c = A; c -= c; expect("subtract-itself", A, A, no, c, [&](unsigned i) { return T(at(A, i) - at(A, i)); });
        c = A; c = c + c; expect("assign-sum", A, A, no, c, [&](unsigned i) { return T(at(A, i) + at(A, i)); });
        c = A; c = B - c; expect("assign-difference", B, A, no, c, [&](unsigned i) { return T(at(B, i) - at(A, i)); });
        unsigned k = G.below(D);
        std::string xk = " scalar: coordinate " + std::to_string(k);
        c = A; c *= c[k]; expect("multiply-by-own-coordinate", A, A, xk, c, [&](unsigned i) { return T(at(A, i) * at(A, k)); });
        c = A; c = c * c[k]; expect("multiply-by-own-coordinate", A, A, xk, c, [&](unsigned i) { return T(at(A, i) * at(A, k)); });
        V N = A; for (unsigned i = 0; i < D; i++) if (at(N, i) == T(0)) N.data()[i] = T(2);
        c = N; c /= c[k]; expect("divide-by-own-coordinate", N, N, xk, c, [&](unsigned i) { return T(at(N, i) / at(N, k)); });
        c = N; c = c / c[k]; expect("divide-by-own-coordinate", N, N, xk, c, [&](unsigned i) { return T(at(N, i) / at(N, k)); });
        // comparison
        bool eq = true; for (unsigned i = 0; i < D; i++) if (!(at(A, i) == at(B, i))) eq = false;
        if ((A == B) != eq || (B == A) != eq) gv_fail("vec-equal", "== " + what(A, B) + (eq ? ": false for equal coordinates" : ": true although a coordinate differs"));
        if ((A != B) == eq) gv_fail("vec-unequal", "!= " + what(A, B));
        for (unsigned i = 0; i < D; i++) if (!bits(at(A, i), at(a, i)) || !bits(at(B, i), at(b, i))) { gv_fail("vec-operand", "an operand was modified: " + what(a, b)); break; }
        // scalar product: well scaled values
        V u, v; for (unsigned i = 0; i < D; i++) { if (Mk<T>::f) { u.data()[i] = T(G.range(-50, 50)); v.data()[i] = T(G.range(-50, 50)); } else { u.data()[i] = T(G.below(std::is_signed<T>::value ? 9 : 6)); v.data()[i] = T(G.below(6)); } }
        if (G.coin(0.2)) u.data()[G.below(D)] = T(0);
        if (G.coin(0.2)) v.data()[G.below(D)] = T(0);
        if (Mk<T>::f && G.coin(0.3)) { T f = T(std::pow(10., G.range(-12, 12))); for (unsigned i = 0; i < D; i++) u.data()[i] *= f; }
        long double dot = 0, mag = 0, sq = 0; for (unsigned i = 0; i < D; i++) { dot += (long double)at(u, i) * at(v, i); mag += fabsl((long double)at(u, i) * at(v, i)); sq += (long double)at(u, i) * at(u, i); }
        long double eps = Mk<T>::f ? 4 * D * (long double)std::numeric_limits<T>::epsilon() : 0;
        if (fabsl((long double)(u * v) - dot) > eps * mag && (Mk<T>::f || T(u * v) != T((long long)dot))) gv_fail("vec-dot", "scalar product " + what(u, v));
        if (fabsl((long double)u.sumOfSquares() - sq) > eps * sq && (Mk<T>::f || T(u.sumOfSquares()) != T((long long)sq))) gv_fail("vec-squares", "sum of squares " + what(u, u));
        if (!Mk<T>::f && sizeof(T) == 1 && sq > 120) sq = 0; else {
            long double n = sqrtl(sq); if (!Mk<T>::f) n = floorl(n);
            if (fabsl((long double)u.normEuclid() - n) > eps * n) gv_fail("vec-norm", "norm " + what(u, u)); }
        // lists
        T l[6]; for (auto& t : l) t = Mk<T>::mk(G);
        for (int n = 0; n <= 6; n++) {
            V w; for (unsigned i = 0; i < D; i++) w.data()[i] = Mk<T>::nz(G);
            if (n == 0) w = std::initializer_list<T>{}; if (n == 1) w = {l[0]}; if (n == 2) w = {l[0], l[1]}; if (n == 3) w = {l[0], l[1], l[2]};
            if (n == 4) w = {l[0], l[1], l[2], l[3]}; if (n == 5) w = {l[0], l[1], l[2], l[3], l[4]}; if (n == 6) w = {l[0], l[1], l[2], l[3], l[4], l[5]};
            V z = n == 0 ? V({}) : n == 1 ? V({l[0]}) : n == 2 ? V({l[0], l[1]}) : n == 3 ? V({l[0], l[1], l[2]}) : n == 4 ? V({l[0], l[1], l[2], l[3]}) : n == 5 ? V({l[0], l[1], l[2], l[3], l[4]}) : V({l[0], l[1], l[2], l[3], l[4], l[5]});
            std::string y = " list of " + std::to_string(n) + " " + str(l, n);
            auto e = [&](unsigned i) { return int(i) < n ? l[i] : T(0); };
            expect("assign-list", A, A, y, w, e); if (n || D) expect("construct-list", A, A, y, z, e);
        }
        if (V::size() != D) gv_fail("vec-size", "size");
        gv_case(what(A, B));
    }
};
template <class T> static void cross(Rng& G) {
    Vector<3, T> a, b; for (int i = 0; i < 3; i++) { if (Mk<T>::f) { a.data()[i] = T(G.range(-9, 9)); b.data()[i] = T(G.range(-9, 9)); } else { a.data()[i] = T(G.below(5)); b.data()[i] = T(G.below(5)); } }
    if (G.coin(0.3)) a.data()[G.below(3)] = 0; if (G.coin(0.3)) b.data()[G.below(3)] = 0; if (G.coin(0.1)) b = a;
    T* p = a.data(); T* q = b.data(); T e[3] = {T(p[1] * q[2] - p[2] * q[1]), T(p[2] * q[0] - p[0] * q[2]), T(p[0] * q[1] - p[1] * q[0])};
    Vector<3, T> c = vectorProduct(a, b), d = a; d = vectorProduct(d, b); Vector<3, T> f = b; f = vectorProduct(a, f);
    for (int i = 0; i < 3; i++) if (std::fabs(double(c.data()[i] - e[i])) > 1e-4 * (Mk<T>::f ? 1 : 0) || !bits(d.data()[i], c.data()[i]) || !bits(f.data()[i], c.data()[i])) { gv_fail("vec-cross", "cross product a=" + str(a.data(), 3) + " b=" + str(b.data(), 3) + " gives " + str(c.data(), 3)); break; }
    gv_case("cross " + str(a.data(), 3) + str(b.data(), 3));
}
template <unsigned D, class T> static void vertex(Rng& G) {
    MeshElement<D, 0, size_t, T> m(7); Vertex<D, T> v; for (unsigned i = 0; i < D; i++) v.data()[i] = T(G.range(-9, 9));
    T l[4]; for (auto& t : l) t = T(G.range(-9, 9)); static_cast<Vertex<D, T>&>(m) = v; size_t k = G.below(4);
    if (k == 0) m = std::initializer_list<T>{}; if (k == 1) m = {l[0]}; if (k == 2) m = {l[0], l[1]}; if (k == 3) m = {l[0], l[1], l[2]};
    bool ok = m.getIndex() == 7; for (unsigned i = 0; i < D; i++) if (m.data()[i] != (i < k ? l[i] : T(0))) ok = false;
    if (!ok) gv_fail("vec-vertex-list", "mesh vertex of dimension " + std::to_string(D) + " assigned a list of " + std::to_string(k) + " is " + str(m.data(), D));
    MeshElement<D, 0, size_t, T> w(3, v); for (unsigned i = 0; i < D; i++) if (w.data()[i] != v.data()[i] || w.getIndex() != 3) { gv_fail("vec-vertex", "mesh vertex constructed from a vector differs"); break; }
}
int main(int c, char** v) {
    Rng G(std::strtoull(v[1], 0, 10)); int n = std::string(v[2]) == "thorough" ? 4000 : 250;
    for (int k = 0; k < n; k++) {
#if PART == 0
        Test<1, double, double>::go(G); Test<2, double, float>::go(G); Test<3, double, double>::go(G); Test<3, double, int>::go(G); Test<3, double, long>::go(G); Test<4, double, double>::go(G); Test<5, double, double>::go(G); Test<6, double, double>::go(G); Test<7, double, double>::go(G); Test<8, double, short>::go(G); Test<12, double, double>::go(G);
#elif PART == 1
        Test<1, float, float>::go(G); Test<2, float, double>::go(G); Test<3, float, double>::go(G); Test<3, float, int>::go(G); Test<6, float, float>::go(G);
        Test<1, int, int>::go(G); Test<2, int, int>::go(G); Test<3, int, short>::go(G); Test<4, int, int>::go(G); Test<5, long, int>::go(G); Test<2, long, long>::go(G); Test<3, short, short>::go(G); Test<3, unsigned char, unsigned char>::go(G); Test<9, unsigned char, unsigned char>::go(G);
#else
        cross<double>(G); cross<float>(G); cross<int>(G); vertex<3, double>(G); vertex<3, float>(G); vertex<2, float>(G); vertex<2, double>(G);
#endif
    }
    return gv_done();
}
