// boundary cells
#include "mesh_probe.h"
#include <GTMesh/UnstructuredMesh/UnstructuredMeshDefine.h>
#include <cstdint>
extern "C" {
size_t ob_fidx(size_t f) { return g_mesh.getFaces()[f].getIndex(); }
size_t ob_bidx(size_t b) { return g_mesh.getBoundaryCells()[b].getIndex(); }
size_t ob_bface(size_t b) { return g_mesh.getBoundaryCells()[b].getBoundaryElementIndex(); }
double ob_bcen(size_t b, unsigned d) { return g_mesh.getBoundaryCells()[b].getCenter()[d]; }
double ob_fcen(size_t f, unsigned d) { return g_mesh.getFaces()[f].getCenter()[d]; }
double ob_ccen(size_t f, unsigned d) { return g_mesh.getCells()[f].getCenter()[d]; }
void drv_setup() { g_mesh.setupBoundaryCells(); }
void drv_centers() { g_mesh.setupBoundaryCellsCenters(); }
void drv_append(size_t c, size_t f) { g_mesh.appendBoundaryCell(c, f); }
void drv_clear() { g_mesh.clear(); }
}
