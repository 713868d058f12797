// vector arithmetic: one instantiation per dimension GV_D, coordinate type GV_T and scalar type GV_S
#include <cstddef>
#include <utility>
#include <GTMesh/NumericStaticArray/Vector.h>
typedef GV_T T;
typedef GV_S S;
typedef Vertex<GV_D, T> V;
extern V g_a, g_b, g_c;
extern std::initializer_list<T> g_l;
#define X extern "C"
// the operations of the coordinate type
X T op_add(T x, T y) { return x + y; }
X T op_sub(T x, T y) { return x - y; }
X T op_mul(T x, T y) { return x * y; }
X T op_muls(T x, S s) { return x * s; }
X T op_divs(T x, S s) { return x / s; }
X T op_divt(T x, T s) { return x / s; }
X bool op_eq(T x, T y) { return x == y; }
X T op_zero() { return T(); }
X T ob_a(size_t i) { return g_a.data()[i]; }
X T ob_b(size_t i) { return g_b.data()[i]; }
X T ob_c(size_t i) { return g_c.data()[i]; }
X T ob_l(size_t i) { return g_l.begin()[i]; }
X size_t ob_ln() { return g_l.size(); }
// new values
X void drv_add() { const V &a = g_a, &b = g_b; g_c = a + b; }
X void drv_sub() { const V &a = g_a, &b = g_b; g_c = a - b; }
X void drv_muls(S s) { const V& a = g_a; g_c = a * s; }
X void drv_divs(S s) { const V& a = g_a; g_c = a / s; }
X void drv_lmul(T s) { const V& a = g_a; g_c = s * a; }
// in place
X void drv_iadd() { const V& b = g_b; g_a += b; }
X void drv_isub() { const V& b = g_b; g_a -= b; }
X void drv_imuls(S s) { g_a *= s; }
X void drv_idivs(S s) { g_a /= s; }
// the value of the expression is the object itself
X bool drv_ref(S s) { const V& b = g_b; return &(g_a += b) == &g_a && &(g_a -= b) == &g_a && &(g_a *= s) == &g_a && &(g_a /= s) == &g_a; }
// operands that alias
X void drv_al_add() { g_a += g_a; }
X void drv_al_sub() { g_a -= g_a; }
X void drv_al_add3() { g_a = g_a + g_a; }
X void drv_al_sub3() { g_a = g_b - g_a; }
X void drv_al_mul0() { g_a *= g_a[0]; }
X void drv_al_mulk() { g_a *= g_a[GV_D / 2]; }
X void drv_al_mull() { g_a *= g_a[GV_D - 1]; }
X void drv_al_div0() { g_a /= g_a[0]; }
X void drv_al_divk() { g_a /= g_a[GV_D / 2]; }
X void drv_al_divl() { g_a /= g_a[GV_D - 1]; }
X void drv_al_mul3() { g_a = g_a * g_a[0]; }
X void drv_al_div3() { g_a = g_a / g_a[GV_D - 1]; }
X void drv_al_lmul() { g_a = g_a[0] * g_a; }
// scalar product
X T drv_dot() { const V &a = g_a, &b = g_b; return a * b; }
X T drv_dot_al() { const V& a = g_a; return a * a; }
X T drv_sos() { return g_a.sumOfSquares(); }
X T drv_norm() { return g_a.normEuclid(); }
// comparison
X bool drv_eq() { const V &a = g_a, &b = g_b; return a == b; }
X bool drv_ne() { const V &a = g_a, &b = g_b; return a != b; }
#if GV_D == 3
X void drv_cross() { const V &a = g_a, &b = g_b; g_c = vectorProduct(a, b); }
X void drv_cross_al() { g_a = vectorProduct(g_a, g_b); }
X void drv_cross_al2() { g_a = vectorProduct(g_b, g_a); }
#endif
// lists: any length through the object, and written out
X void drv_list() { g_c = g_l; }
X void drv_ctorl() { g_c = V(g_l); }
X void drv_l0() { g_c = V({}); }
X void drv_v0() { V v{}; g_c = v; }
X void drv_copy() { const V& a = g_a; V v(a); g_c = v; }
X void drv_assign() { const V& a = g_a; g_c = a; }
X size_t drv_size() { return V::size(); }
X T drv_at(size_t i) { const V& a = g_a; return a[i]; }
X void drv_set(size_t i, T x) { g_a[i] = x; }
#ifdef GV_ME
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
typedef MeshElement<GV_D, 0, size_t, T> ME;
extern ME g_m;
X T ob_m(size_t i) { return g_m.data()[i]; }
X size_t ob_mi() { return g_m.getIndex(); }
X void drv_me_list() { g_m = g_l; }
X void drv_me_ctor(size_t i) { const V& a = g_a; g_m = ME(i, a); }
#endif
