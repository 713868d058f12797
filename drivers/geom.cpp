// geometry of a mesh
#include "mesh_probe.h"
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <GTMesh/UnstructuredMesh/MeshFunctions/MeshFunctions.h>
#ifdef GV_RES
using UM = UnstructuredMesh<GV_DIM, size_t, double, GV_RES>;
#else
using UM = UnstructuredMesh<GV_DIM, size_t, double>;
#endif
typedef Vertex<GV_DIM, double> V;
#define X extern "C"
X double ob_ccen(size_t c, unsigned d) { return g_mesh.getCells()[c].getCenter()[d]; }
X double ob_bcen(size_t c, unsigned d) { return g_mesh.getBoundaryCells()[c].getCenter()[d]; }
X double ob_fcen(size_t f, unsigned d) { return g_mesh.getFaces()[f].getCenter()[d]; }
X double ob_vert(size_t v, unsigned d) { return g_mesh.getVertices()[v][d]; }
X size_t ob_fidx(size_t f) { return g_mesh.getFaces()[f].getIndex(); }
X size_t ob_cidx(size_t f) { return g_mesh.getCells()[f].getIndex(); }
#ifdef GV_BETWEEN
extern MeshDataContainer<double, GV_DIM - 1> g_d;
extern MeshDataContainer<Vector<GV_DIM, double>, GV_DIM - 1> g_v;
X size_t ob_dn() { return g_d.getDataByPos<0>().size(); }
X double ob_d(size_t f) { return g_d.getDataByPos<0>()[f]; }
X size_t ob_wn() { return g_v.getDataByPos<0>().size(); }
X double ob_w(size_t f, unsigned d) { return g_v.getDataByPos<0>()[f][d]; }
X void drv_dist() { const M& m = g_mesh; g_d = computeCellsDistance(m); }
X void drv_diff() { const M& m = g_mesh; g_v = computeCellsCenterDifference(m); }
X void drv_norm() { const M& m = g_mesh; g_v = computeFaceNormals<METHOD_DEFAULT>(m); }
#endif
#ifdef GV_CENTERS
typedef decltype(computeCenters<METHOD_DEFAULT>(g_mesh)) CC;
extern CC g_c;
X size_t ob_kn(unsigned d) { return d == 1 ? g_c.getDataByDim<1>().size() : d == 2 ? g_c.getDataByDim<2>().size() : g_c.getDataByDim<GV_DIM>().size(); }
X double ob_k1(size_t i, unsigned d) { return g_c.getDataByDim<1>()[i][d]; }
X double ob_k2(size_t i, unsigned d) { return g_c.getDataByDim<2>()[i][d]; }
#if GV_DIM == 3
X double ob_k3(size_t i, unsigned d) { return g_c.getDataByDim<3>()[i][d]; }
#endif
X void drv_centers() { const M& m = g_mesh; g_c = computeCenters<METHOD_DEFAULT>(m); }
#endif
#ifdef GV_LEFT
#if GV_DIM == 2
X bool drv_left(size_t f, size_t e) { return edgeIsLeft(g_mesh, g_mesh.getCells()[f], g_mesh.getEdges()[e]); }
X bool drv_lefti(size_t f, size_t e) { return edgeIsLeft(g_mesh, f, e); }
#else
extern Vector<3, double> g_n;
X double ob_n(unsigned d) { return g_n[d]; }
X bool drv_left(size_t f, size_t e) { return edgeIsLeft(g_mesh, g_mesh.getFaces()[f], g_mesh.getEdges()[e], g_n); }
#endif
#endif
