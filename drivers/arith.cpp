// Operators and functions generated for described classes; one class per GV_C.
#include <cstddef>
#include <utility>
#include <GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#define X extern "C"
#ifndef GV_R
#define GV_R double
#endif
typedef GV_R R;
struct In { double p, q; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(In, p, q);
#if GV_C == 0
struct C { double a; int hid; double b; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C, a, b);
#define LEAVES L(0, double, a) L(1, double, b)
#elif GV_C == 1
struct C { double b; int hid; double a; In in; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C, a, in, b);
#define LEAVES L(0, double, a) L(1, double, b) L(2, double, in.p) L(3, double, in.q)
#elif GV_C == 2
struct C { int a; int hid; double b; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C, a, b);
#define LEAVES L(0, int, a) L(1, double, b)
#elif GV_C == 3
struct C { double a; int hid; Vector<3, double> v; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C, a, v);
#define LEAVES L(0, double, a) L(1, double, v[0]) L(2, double, v[1]) L(3, double, v[2])
#elif GV_C == 4
struct C { double a; int hid; double v[1]; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C, a);
#define LEAVES L(0, double, a)
#endif
extern C g_x, g_y, g_z;
extern R g_s;
#define L(n, t, m) X t ob_x##n() { return g_x.m; } X t ob_y##n() { return g_y.m; } X t ob_z##n() { return g_z.m; }
LEAVES
#undef L
X int ob_hx() { return g_x.hid; }
X int ob_hy() { return g_y.hid; }
X int ob_hz() { return g_z.hid; }
X R ob_s() { return g_s; }
// the operations on single values
#define SC(t, n) X t sc_add##n(t a, t b) { return a + b; } X t sc_sub##n(t a, t b) { return a - b; } X t sc_mul##n(t a, t b) { return a * b; } X t sc_neg##n(t a) { return -a; } \
  X t sc_muls##n(t a, R s) { return a * s; } X t sc_divs##n(t a, R s) { return a / s; } X t sc_pow##n(t a, R s) { return std::pow(a, s); } X t sc_base##n(t a, R s) { return std::pow(s, a); } \
  X t sc_exp##n(t a) { return std::exp(a); } X t sc_log##n(t a) { return std::log(a); } X t sc_log2##n(t a) { return std::log2(a); } X t sc_log10##n(t a) { return std::log10(a); } \
  X t sc_sqrt##n(t a) { return std::sqrt(a); } X t sc_cbrt##n(t a) { return std::cbrt(a); } X t sc_abs##n(t a) { return std::abs(a); }
SC(double, d)
SC(int, i)
#define RV(v) static_cast<C&&>(C(v))
#define CX static_cast<const C&>(g_x)
#define CY static_cast<const C&>(g_y)
#define CS static_cast<const R&>(g_s)
#define D2(n, o) X void drv_##n##_cc() { g_z = CX o CY; } X void drv_##n##_ll() { g_z = g_x o g_y; } X void drv_##n##_cr() { g_z = CX o RV(g_y); } X void drv_##n##_rc() { g_z = RV(g_x) o CY; } X void drv_##n##_lr() { g_z = g_x o RV(g_y); } X void drv_##n##_rl() { g_z = RV(g_x) o g_y; } X void drv_##n##_same() { g_z = g_x o g_x; }
#define DC(n, o) X void drv_##n() { C& r = (g_x o CY); g_z = r; } X void drv_##n##_l() { g_x o g_y; g_z = g_x; } X void drv_##n##_self() { g_x o g_x; g_z = g_x; } X bool drv_##n##_ref() { return &(g_x o g_y) == &g_x; }
#ifdef GV_ADD
D2(add, +)
D2(sub, -)
DC(iadd, +=)
DC(isub, -=)
X void drv_add_rr() { g_z = RV(g_x) + RV(g_y); }
X void drv_sub_rr() { g_z = RV(g_x) - RV(g_y); }
#endif
#ifdef GV_MUL
D2(mul, *)
DC(imul, *=)
#endif
#ifdef GV_SC
X void drv_muls_c() { g_z = CX * CS; }
X void drv_muls_l() { g_z = g_x * g_s; }
X void drv_muls_r() { g_z = RV(g_x) * CS; }
X void drv_lmuls_c() { g_z = CS * CX; }
X void drv_lmuls_l() { g_z = g_s * g_x; }
X void drv_lmuls_r() { g_z = CS * RV(g_x); }
X void drv_imuls() { C& r = (g_x *= CS); g_z = r; }
X void drv_divs_c() { g_z = CX / CS; }
X void drv_divs_l() { g_z = g_x / g_s; }
X void drv_divs_r() { g_z = RV(g_x) / CS; }
#endif
#ifdef GV_POW
X void drv_pow_c() { g_z = pow(CX, CS); }
X void drv_pow_l() { g_z = pow(g_x, g_s); }
X void drv_pow_r() { g_z = pow(RV(g_x), CS); }
#endif
#ifdef GV_BASE
X void drv_base_c() { g_z = pow(CS, CX); }
X void drv_base_l() { g_z = pow(g_s, g_x); }
X void drv_base_r() { g_z = pow(CS, RV(g_x)); }
#endif
#define D1(f) X void drv_##f##_c() { g_z = f(CX); } X void drv_##f##_l() { g_z = f(g_x); } X void drv_##f##_r() { g_z = f(RV(g_x)); }
#ifdef GV_FUN
D1(exp) D1(log) D1(log2) D1(log10) D1(cbrt)
#endif
#ifdef GV_SQRT
D1(sqrt)
#endif
#ifdef GV_ABS
D1(abs)
#endif
#ifdef GV_NEG
X void drv_neg_c() { g_z = -CX; }
X void drv_neg_l() { g_z = -g_x; }
X void drv_neg_r() { g_z = -RV(g_x); }
#endif
#ifdef GV_AGG
X double drv_max() { return max(g_x); }
X double drv_min() { return min(g_x); }
X double drv_sum() { return sum(g_x); }
#endif
