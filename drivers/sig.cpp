// Signature of a mesh: two meshes, the private hash step as the specification of one step.
#include <sstream>
#include <string>
#include <vector>
#include <array>
#include <tuple>
#include <functional>
#define private public
#include <GTMesh/UnstructuredMesh/MeshElements/MeshElements.h>
#undef private
#define X extern "C"
#ifdef GV_RES
typedef MeshElements<GV_DIM, size_t, double, GV_RES> M;
#else
typedef MeshElements<GV_DIM, size_t, double> M;
#endif
extern M g_a, g_b;
#define OB(m, g) \
X size_t m##nc() { return g.getCells().size(); } \
X size_t m##nf() { return g.getFaces().size(); } \
X size_t m##ne() { return g.getEdges().size(); } \
X size_t m##nv() { return g.getVertices().size(); } \
X size_t m##ci(size_t c) { return g.getCells()[c].getIndex(); } \
X size_t m##cb(size_t c) { return g.getCells()[c].getBoundaryElementIndex(); } \
X double m##cc(size_t c, size_t k) { return g.getCells()[c].getCenter()[k]; } \
X int m##cf(size_t c) { return g.getCells()[c].getFlag(); } \
X size_t m##fi(size_t f) { return g.getFaces()[f].getIndex(); } \
X size_t m##fl(size_t f) { return g.getFaces()[f].getCellLeftIndex(); } \
X size_t m##fr(size_t f) { return g.getFaces()[f].getCellRightIndex(); } \
X size_t m##fnl(size_t f) { return g.getFaces()[f].getNextBElemWRTCL(); } \
X size_t m##fnr(size_t f) { return g.getFaces()[f].getNextBElemWRTCR(); } \
X double m##fc(size_t f, size_t k) { return g.getFaces()[f].getCenter()[k]; } \
X int m##ff(size_t f) { return g.getFaces()[f].getFlag(); } \
X size_t m##ei(size_t e) { return g.getEdges()[e].getIndex(); } \
X size_t m##ea(size_t e) { return g.getEdges()[e].getVertexAIndex(); } \
X size_t m##eb(size_t e) { return g.getEdges()[e].getVertexBIndex(); } \
X size_t m##vi(size_t v) { return g.getVertices()[v].getIndex(); } \
X double m##vx(size_t v, size_t k) { return g.getVertices()[v][k]; } \
X size_t m##sig() { return g.getSignature(); }
OB(a_, g_a)
OB(b_, g_b)
#if GV_DIM == 3
X size_t a_ns(size_t f) { return g_a.getFaces()[f].getSubelements().size(); }
X size_t a_s(size_t f, size_t i) { return g_a.getFaces()[f].getSubelements()[i]; }
X size_t b_ns(size_t f) { return g_b.getFaces()[f].getSubelements().size(); }
X size_t b_s(size_t f, size_t i) { return g_b.getFaces()[f].getSubelements()[i]; }
#endif
X size_t drv_a() { return g_a.updateSignature(); }
X size_t drv_b() { return g_b.updateSignature(); }
// specification of one step: the hash is extended by one value
X size_t sp_l(size_t h, size_t v) { M::addToHash(h, v); return h; }
X size_t sp_i(size_t h, int v) { M::addToHash(h, v); return h; }
X size_t sp_d(size_t h, double v) { M::addToHash(h, v); return h; }
extern size_t g_h, g_k; extern size_t g_v, g_w; extern double g_x, g_y; extern int g_i, g_j;
X size_t ob_h() { return g_h; } X size_t ob_k() { return g_k; }
X size_t ob_v() { return g_v; } X size_t ob_w() { return g_w; }
X double ob_x() { return g_x; } X double ob_y() { return g_y; }
X int ob_i() { return g_i; } X int ob_j() { return g_j; }
X void st_l() { M::addToHash(g_h, g_v); M::addToHash(g_k, g_w); }
X void st_d() { M::addToHash(g_h, g_x); M::addToHash(g_k, g_y); }
X void st_i() { M::addToHash(g_h, g_i); M::addToHash(g_k, g_j); }
