#include "mesh_probe.h"
#include <GTMesh/UnstructuredMesh/MeshFunctions/MeshConnections.h>
#include <GTMesh/UnstructuredMesh/MeshFunctions/MeshNeighborhood.h>
#ifndef GV_S
#define GV_S 3
#endif
#ifndef GV_T
#define GV_T 0
#endif
using OUT = MeshDataContainer<std::vector<ElementIndex<GV_T, size_t>>, GV_S>;
extern OUT g_out;
extern "C" {
size_t ob_on() { return g_out.getDataByPos<0>().size(); }
size_t ob_olen(size_t i) { return g_out.getDataByPos<0>()[i].size(); }
size_t ob_o(size_t i, size_t j) { return g_out.getDataByPos<0>()[i][j].index; }
void drv_asc() { g_out = MeshConnections<GV_S, GV_T>::connections(g_mesh); }
void drv_orig() { g_out = MeshConnections<GV_S, GV_T, Order::ORDER_ORIGINAL>::connections(g_mesh); }
}
