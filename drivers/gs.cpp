// Gram-Schmidt: arrays of GV_N vectors, or vectors of any number (GV_DYN); with norms or without (GV_NORM)
#include <cstddef>
#include <utility>
#include <GTMesh/NumericStaticArray/GramSchmidt.h>
#ifndef GV_IT
#define GV_IT size_t
#endif
typedef Vector<GV_D, double> V;
#ifdef GV_DYN
extern std::vector<V> g_v;
extern std::vector<double> g_n;
#else
extern std::array<V, GV_N> g_v;
extern std::array<double, GV_N> g_n;
#endif
#define X extern "C"
X const V* ob_p(size_t i) { return &g_v[i]; }
X double ob_v(size_t i, size_t d) { return g_v[i].data()[d]; }
X size_t ob_n() { return g_v.size(); }
X double ob_norm(size_t i) { return g_n[i]; }
X size_t ob_nn() { return g_n.size(); }
X void drv_gs() {
#ifdef GV_DYN
    gramSchmidt<GV_D, GV_IT, double>(g_v);
#else
    gramSchmidt<GV_N, GV_D, GV_IT, double>(g_v);
#endif
}
X void drv_gsn() {
#ifdef GV_DYN
    gramSchmidt<GV_D, GV_IT, double>(g_v, g_n);
#else
    gramSchmidt<GV_N, GV_D, GV_IT, double>(g_v, g_n);
#endif
}
