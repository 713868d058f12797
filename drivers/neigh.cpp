// neighborhoods as compositions of two connection tables
#include "mesh_probe.h"
#include <GTMesh/UnstructuredMesh/MeshFunctions/MeshConnections.h>
#include <GTMesh/UnstructuredMesh/MeshFunctions/MeshNeighborhood.h>
template <unsigned S, unsigned T> using LT = MeshDataContainer<std::vector<ElementIndex<T, size_t>>, S>;
extern LT<GV_S, GV_C> g_a;
extern LT<GV_C, GV_T> g_b;
extern LT<GV_S, GV_T> g_out;
extern "C" {
size_t ob_alen(size_t i) { return g_a.getDataByPos<0>()[i].size(); }
size_t ob_a(size_t i, size_t j) { return g_a.getDataByPos<0>()[i][j].index; }
size_t ob_an() { return g_a.getDataByPos<0>().size(); }
size_t ob_bn() { return g_b.getDataByPos<0>().size(); }
size_t ob_blen(size_t i) { return g_b.getDataByPos<0>()[i].size(); }
size_t ob_b(size_t i, size_t j) { return g_b.getDataByPos<0>()[i][j].index; }
size_t ob_on() { return g_out.getDataByPos<0>().size(); }
size_t ob_olen(size_t i) { return g_out.getDataByPos<0>()[i].size(); }
size_t ob_o(size_t i, size_t j) { return g_out.getDataByPos<0>()[i][j].index; }
void drv_asc() { g_out = MeshNeighborhood<GV_S, GV_C, GV_T>::neighbors(g_mesh); }
void drv_orig() { g_out = MeshNeighborhood<GV_S, GV_C, GV_T, Order::ORDER_ORIGINAL>::neighbors(g_mesh); }
}
