// mesh data containers
#include "mesh_probe.h"
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h>
#include <tuple>
#ifndef GV_DIMS
#define GV_DIMS 3, 0, 2, 1
#define GV_NP 4
#endif
#ifdef GV_TUPLE
struct Vx3 { double x, y, z; };
#define T0 double
#define T1 int
#define T2 unsigned char
#define T3 float
#if GV_NP == 4
typedef MeshDataContainer<std::tuple<T0, T1, T2, T3>, GV_DIMS> DC;
#elif GV_NP == 3
typedef MeshDataContainer<std::tuple<T0, T1, T2>, GV_DIMS> DC;
#else
typedef MeshDataContainer<std::tuple<T0, T1>, GV_DIMS> DC;
#endif
#else
#define T0 double
#define T1 double
#define T2 double
#define T3 double
typedef MeshDataContainer<double, GV_DIMS> DC;
#endif
extern DC g_d, g_e;
#ifdef GV_SRC
typedef MeshDataContainer<int, GV_SRC> SC;
extern SC g_s;
#endif
template <unsigned D> using El = typename M::ElementType<D>;
#define POS(P, T) \
extern "C" size_t ob_n##P() { const DC& d = g_d; return d.getDataByPos<P>().size(); } \
extern "C" T ob_v##P(size_t i) { const DC& d = g_d; return d.getDataByPos<P>()[i]; } \
extern "C" size_t ob_en##P() { const DC& d = g_e; return d.getDataByPos<P>().size(); } \
extern "C" T ob_ev##P(size_t i) { const DC& d = g_e; return d.getDataByPos<P>()[i]; } \
extern "C" void drv_w_pos##P(size_t i, T v) { g_d.getDataByPos<P>()[i] = v; } \
extern "C" void drv_w_seq##P(size_t i, T v) { g_d[std::integer_sequence<unsigned, P>()][i] = v; } \
extern "C" T drv_r_pos##P(size_t i) { const DC& d = g_d; return d.getDataByPos<P>()[i]; } \
extern "C" T drv_r_seq##P(size_t i) { const DC& d = g_d; return d[std::integer_sequence<unsigned, P>()][i]; } \
extern "C" unsigned drv_dimat##P() { return DC::dimensionAt<P>(); }
#define DIM(D, T) \
extern "C" size_t ob_idx##D(size_t i) { return g_mesh.getElements<D>()[i].getIndex(); } \
extern "C" unsigned drv_posof##D() { return DC::dimensionIndex<D>(); } \
extern "C" void drv_w_dim##D(size_t i, T v) { g_d.getDataByDim<D>()[i] = v; } \
extern "C" void drv_w_elm##D(size_t i, T v) { g_d[g_mesh.getElements<D>()[i]] = v; } \
extern "C" void drv_w_at##D(size_t i, T v) { g_d.at(g_mesh.getElements<D>()[i]) = v; } \
extern "C" void drv_w_eix##D(size_t i, T v) { g_d[ElementIndex<D, size_t>(i)] = v; } \
extern "C" T drv_r_dim##D(size_t i) { const DC& d = g_d; return d.getDataByDim<D>()[i]; } \
extern "C" T drv_r_elm##D(size_t i) { const DC& d = g_d; return d[g_mesh.getElements<D>()[i]]; } \
extern "C" T drv_r_at##D(size_t i) { const DC& d = g_d; return d.at(g_mesh.getElements<D>()[i]); } \
extern "C" T drv_r_eix##D(size_t i) { const DC& d = g_d; return d[ElementIndex<D, size_t>(i)]; }
POS(0, T0)
#if GV_NP > 1
POS(1, T1)
#endif
#if GV_NP > 2
POS(2, T2)
#endif
#if GV_NP > 3
POS(3, T3)
#endif
GV_DIMDEF
#ifdef GV_SRC
#define SPOS(P) extern "C" size_t ob_sn##P() { const SC& d = g_s; return d.getDataByPos<P>().size(); }
SPOS(0) SPOS(1) SPOS(2) SPOS(3)
extern "C" void drv_alloc_c() { g_d.allocateData(g_s); }
#endif
extern "C" {
void drv_alloc() { g_d.allocateData(g_mesh); }
void drv_ctor() { g_d = DC(g_mesh); }
void drv_copy() { DC c(g_d); g_e = c; }
void drv_assign() { g_e = g_d; }
unsigned drv_size() { return DC::size(); }
#ifdef GV_TUPLE
#if GV_NP == 4
void drv_alloc_v(T0 a, T1 b, T2 c, T3 d) { g_d.allocateData(g_mesh, a, b, c, d); }
void drv_ctor_v(T0 a, T1 b, T2 c, T3 d) { g_d = DC(g_mesh, a, b, c, d); }
void drv_alloc_ov(T0 a, T1 b, T2 c, T3 d) { g_d.allocateData(g_e, a, b, c, d); }
#elif GV_NP == 3
void drv_alloc_v(T0 a, T1 b, T2 c) { g_d.allocateData(g_mesh, a, b, c); }
void drv_ctor_v(T0 a, T1 b, T2 c) { g_d = DC(g_mesh, a, b, c); }
void drv_alloc_ov(T0 a, T1 b, T2 c) { g_d.allocateData(g_e, a, b, c); }
#else
void drv_alloc_v(T0 a, T1 b) { g_d.allocateData(g_mesh, a, b); }
void drv_ctor_v(T0 a, T1 b) { g_d = DC(g_mesh, a, b); }
void drv_alloc_ov(T0 a, T1 b) { g_d.allocateData(g_e, a, b); }
#endif
#else
void drv_alloc_v(double a) { g_d.allocateData(g_mesh, a); }
void drv_ctor_v(double a) { g_d = DC(g_mesh, a); }
void drv_ctor_dv(double a) { g_d = DC(g_mesh, a, std::integer_sequence<unsigned, GV_DIMS>(), double()); }
void drv_ctor_d() { g_d = DC(g_mesh, std::integer_sequence<unsigned, GV_DIMS>(), double()); }
void drv_alloc_ov(double a) { g_d.allocateData(g_e, a); }
#ifdef GV_SRC
void drv_alloc_cv(double a) { g_d.allocateData(g_s, a); }
#endif
#endif
void drv_alloc_o() { g_d.allocateData(g_e); }
}
