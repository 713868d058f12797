// Gram-Schmidt, all variants, against elimination in long double.
#include <cstddef>
#include <utility>
#include <GTMesh/NumericStaticArray/GramSchmidt.h>
#include "gv_mesh.hpp"
#include <cmath>
#include <limits>
#include <sstream>
typedef long double L;
typedef std::vector<std::vector<L>> M;
static L dot(const std::vector<L>& a, const std::vector<L>& b) { L s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
// volume: product of the diagonal of the Cholesky factor of the Gram matrix, computed by orthogonalising twice
static std::vector<L> ref_norms(M a, M& q) {
    std::vector<L> r;
    q.clear();
    for (auto& v : a) {
        for (int pass = 0; pass < 3; pass++) for (auto& u : q) { L c = dot(v, u); for (size_t i = 0; i < v.size(); i++) v[i] -= c * u[i]; }
        L n = std::sqrt(dot(v, v)); r.push_back(n);
        for (auto& x : v) x /= n;
        q.push_back(v);
    }
    return r;
}
template <class T> static const char* nm() { return sizeof(T) == 4 ? "float" : sizeof(T) == 8 ? "double" : "long double"; }
template <class T, unsigned D> static std::string show(const std::vector<Vector<D, T>>& v) {
    std::ostringstream s; s.precision(17); s << nm<T>() << " dimension " << D << " vectors ";
    for (size_t i = 0; i < v.size() && i < 6; i++) { s << "("; for (unsigned d = 0; d < D && d < 12; d++) s << (d ? "," : "") << v[i].data()[d]; s << ")"; }
    if (v.size() > 6) s << "... (" << v.size() << ")";
    return s.str();
}
template <class T, unsigned D> static M mat(const std::vector<Vector<D, T>>& v) { M m; for (auto& x : v) { m.emplace_back(); for (unsigned d = 0; d < D; d++) m.back().push_back(x.data()[d]); } return m; }

// w: result for input v; norms given or null
template <class T, unsigned D> static void check(const char* what, const std::vector<Vector<D, T>>& v, const std::vector<Vector<D, T>>& w, const std::vector<T>* nr, const std::vector<L>& ref, const M& q, L tol) {
    std::string in = std::string(what) + " " + show<T, D>(v);
    if (w.size() != v.size()) { gv_fail(std::string(what) + "-count", in + ": number of vectors changed"); return; }
    if (nr && nr->size() != v.size()) { gv_fail(std::string(what) + "-norms-count", in + ": " + std::to_string(nr->size()) + " norms"); return; }
    M a = mat<T, D>(v), b = mat<T, D>(w);
    for (size_t i = 0; i < b.size(); i++) {
        for (L x : b[i]) if (!std::isfinite(double(x / (ref[i] ? ref[i] : 1)))) { gv_fail(std::string(what) + "-finite", in + ": vector " + std::to_string(i) + " is not finite"); return; }
        L n = std::sqrt(dot(b[i], b[i])), want = nr ? 1 : ref[i];
        if (!(std::fabs(n - want) <= tol * want)) gv_fail(std::string(what) + "-length", in + ": vector " + std::to_string(i) + " has length " + std::to_string(double(n / want)) + " of the expected one");
        // the direction: the component orthogonal to the preceding vectors
        L c = dot(b[i], q[i]);
        if (!(std::fabs(c - want) <= tol * want)) gv_fail(std::string(what) + "-direction", in + ": vector " + std::to_string(i) + " is not the component orthogonal to the preceding vectors");
        if (nr && !(std::fabs(L((*nr)[i]) - ref[i]) <= tol * ref[i])) gv_fail(std::string(what) + "-norm", in + ": norm " + std::to_string(i) + " is " + std::to_string(double((*nr)[i])) + " instead of " + std::to_string(double(ref[i])));
        for (size_t j = 0; j < i; j++) {
            L m = std::sqrt(dot(b[j], b[j]));
            if (!(std::fabs(dot(b[i], b[j])) <= tol * n * m)) { gv_fail(std::string(what) + "-orthogonal", in + ": vectors " + std::to_string(j) + " and " + std::to_string(i) + " are not orthogonal"); break; }
        }
    }
    if (!nr && !b.empty()) for (unsigned d = 0; d < D; d++) if (b[0][d] != a[0][d]) { gv_fail(std::string(what) + "-first", in + ": the first vector changed"); break; }
}
template <class T> struct Scale { static T mk(Rng& G) { static const int lim = sizeof(T) == 4 ? 12 : 100; switch (G.below(8)) { case 0: return T(std::pow(10.0L, G.range(-lim, lim))); case 1: return T(std::pow(10.0L, G.range(-5, 5))); default: return T(1); } } };
template <class T, unsigned D> static std::vector<Vector<D, T>> input(Rng& G, size_t N) {
    std::vector<Vector<D, T>> v(N);
    int kind = G.below(9);
    T s = Scale<T>::mk(G);
    std::vector<unsigned> ax; for (unsigned d = 0; d < D; d++) ax.push_back(d); G.shuffle(ax);
    for (size_t i = 0; i < N; i++) for (unsigned d = 0; d < D; d++) {
        T x = T(G.range(-1, 1));
        switch (kind) {
        case 0: x = T(double(G.below(7)) - 3); break;                                   // small integers
        case 1: x = ax[i] == d ? T(G.range(0.5, 2)) * T(G.coin() ? 1 : -1) : T(0); break;   // along the axes
        case 2: x = (ax[i] == d ? T(1) : T(0)) + T(G.range(-0.01, 0.01)); break;        // nearly orthogonal
        case 3: x = T(1) + T(G.range(-0.3, 0.3)) + (ax[i] == d ? T(1) : T(0)); break;   // skewed
        case 4: x = ax[d] <= i ? T(G.range(0.3, 1)) : T(0); break;                      // triangular
        case 5: x = (i == 0 || d <= i) ? T(G.range(-1, 1)) : T(0); break;
        default: break;
        }
        v[i].data()[d] = x * s;
    }
    if (s == T(1) && G.coin(0.3)) { double e = G.coin() ? 3 : sizeof(T) == 4 ? 6 : 17; for (size_t i = 0; i < N; i++) { T f = T(std::pow(10.0, G.range(-e, e))); for (unsigned d = 0; d < D; d++) v[i].data()[d] *= f; } }
    return v;
}
template <class T, unsigned D, unsigned N, class I> struct Fixed {
    static void go(const std::vector<Vector<D, T>>& v, const std::vector<L>& ref, const M& q, L tol) {
        std::array<Vector<D, T>, N> a, b; for (unsigned i = 0; i < N; i++) a[i] = b[i] = v[i];
        std::array<T, N> n; n.fill(T(-7));
        gramSchmidt<N, D, I, T>(a);
        gramSchmidt<N, D, I, T>(b, n);
        std::vector<Vector<D, T>> A(a.begin(), a.end()), B(b.begin(), b.end()); std::vector<T> nn(n.begin(), n.end());
        check<T, D>("array", v, A, nullptr, ref, q, tol);
        check<T, D>("array-norms", v, B, &nn, ref, q, tol);
    }
};
template <class T, unsigned D, class I> static void dyn(Rng& G, const std::vector<Vector<D, T>>& v, const std::vector<L>& ref, const M& q, L tol) {
    auto a = v, b = v; std::vector<T> n(G.below(2 * v.size() + 3), T(5));
    gramSchmidt<D, I, T>(a);
    gramSchmidt<D, I, T>(b, n);
    check<T, D>("list", v, a, nullptr, ref, q, tol);
    check<T, D>("list-norms", v, b, &n, ref, q, tol);
}
template <class T, unsigned D, unsigned N> static void one(Rng& G) {
    auto v = input<T, D>(G, N);
    M q; std::vector<L> ref = ref_norms(mat<T, D>(v), q);
    L cond = 1; M a = mat<T, D>(v);
    for (size_t i = 0; i < N; i++) { L n = std::sqrt(dot(a[i], a[i])); if (!(n > 0) || !(ref[i] > 0)) return; cond *= n / ref[i]; }
    if (!(cond < 1e4)) return;                      // too close to dependent for a judgement
    L tol = L(std::numeric_limits<T>::epsilon()) * 200 * N * D * cond * cond;
    if (tol > 0.05) return;
    gv_case(std::to_string(N) + " " + show<T, D>(v));
    Fixed<T, D, N, size_t>::go(v, ref, q, tol);
    if (G.coin(0.3)) Fixed<T, D, N, int>::go(v, ref, q, tol);
    if (G.coin(0.3)) Fixed<T, D, N, unsigned char>::go(v, ref, q, tol);
    dyn<T, D, size_t>(G, v, ref, q, tol);
    if (G.coin(0.3)) dyn<T, D, int>(G, v, ref, q, tol);
    if (G.coin(0.3)) dyn<T, D, unsigned short>(G, v, ref, q, tol);
}
template <unsigned D, unsigned N> struct All { static void go(Rng& G) { one<double, D, N>(G); if (G.coin(0.5)) one<float, D, N>(G); if (G.coin(0.3)) one<long double, D, N>(G); All<D, N - 1>::go(G); } };
template <unsigned D> struct All<D, 0> { static void go(Rng&) {} };
template <class T, unsigned D> static void big(Rng& G, size_t N) {
    auto v = input<T, D>(G, N);
    M q; std::vector<L> ref = ref_norms(mat<T, D>(v), q); M a = mat<T, D>(v);
    L worst = 1; for (size_t i = 0; i < N; i++) { L n = std::sqrt(dot(a[i], a[i])); if (!(n > 0) || !(ref[i] > 0)) return; worst = std::max(worst, n / ref[i]); }
    L tol = L(std::numeric_limits<T>::epsilon()) * 1e4 * N * D * worst * worst * worst;
    if (!(tol < 1e-3)) return;
    gv_case(std::to_string(N) + " " + show<T, D>(v));
    dyn<T, D, size_t>(G, v, ref, q, tol);
}
int main(int, char** argv) {
    Rng G(strtoull(argv[1], 0, 10));
    bool deep = std::string(argv[2]) != "quick";
#if PART == 0
    for (int i = 0; i < (deep ? 4000 : 400); i++) { All<1, 1>::go(G); All<2, 2>::go(G); All<3, 3>::go(G); }
    { std::vector<Vector<3, double>> e; std::vector<double> n(2, 1.); try { gramSchmidt<3, size_t, double>(e); gramSchmidt<3, size_t, double>(e, n); if (!e.empty() || !n.empty()) gv_fail("list-empty", "an empty list does not stay empty"); } catch (std::exception& x) { gv_fail("list-empty", std::string("an empty list: ") + x.what()); } }
#elif PART == 1
    for (int i = 0; i < (deep ? 4000 : 400); i++) All<4, 4>::go(G);
    for (int i = 0; i < (deep ? 60 : 8); i++) { big<double, 12>(G, 1 + G.below(12)); big<double, 40>(G, 1 + G.below(40)); }
    for (int i = 0; i < (deep ? 3 : 1); i++) big<double, 300>(G, 258 + G.below(20));
#elif PART == 2
    for (int i = 0; i < (deep ? 4000 : 400); i++) All<5, 5>::go(G);
#else
    for (int i = 0; i < (deep ? 4000 : 400); i++) All<6, 6>::go(G);
#endif
    return gv_done();
}
