// reader and writer of the VTK format
#include "mesh_probe.h"
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h>
#include <GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h>
extern VTKMeshReader<GV_DIM> g_rd;
extern VTKMeshWriter<GV_DIM, size_t, double> g_wr;
extern std::vector<size_t> g_ring;
extern MeshDataContainer<std::vector<bool>, 2> g_ori;
using ET = MeshNativeType<GV_DIM>::ElementType;
extern MeshDataContainer<ET, GV_DIM> g_types;
extern "C" { extern char g_in[]; extern char g_out[]; }
extern "C" {
size_t ob_vidx(size_t v) { return g_mesh.getVertices()[v].getIndex(); }
double ob_vc(size_t v, unsigned d) { return g_mesh.getVertices()[v][d]; }
size_t ob_eidx(size_t v) { return g_mesh.getEdges()[v].getIndex(); }
size_t ob_fidx(size_t v) { return g_mesh.getFaces()[v].getIndex(); }
size_t ob_cidx(size_t v) { return g_mesh.getCells()[v].getIndex(); }
size_t ob_ntypes() { return g_rd.cellTypes.getDataByPos<0>().size(); }
int ob_type(size_t i) { return int(g_rd.cellTypes.getDataByPos<0>()[i]); }
size_t ob_nring() { return g_ring.size(); }
size_t ob_ring(size_t i) { return g_ring[i]; }
size_t ob_ncv() { return g_wr.cellVert.getDataByPos<0>().size(); }
size_t ob_cvn(size_t f) { return g_wr.cellVert.getDataByPos<0>()[f].size(); }
size_t ob_cv(size_t f, size_t i) { return g_wr.cellVert.getDataByPos<0>()[f][i]; }
size_t ob_last() { return g_wr.lastHash; }
size_t ob_total() { return g_wr.totalNumberOfWrittenElements; }
void drv_vertices() { g_rd.loadVertices(*(std::istream*)g_in, g_mesh); }
void drv_cells() { g_rd.loadCells(*(std::istream*)g_in, g_mesh); }
void drv_types() { g_rd.loadCellTypes(*(std::istream*)g_in, g_mesh); }
void drv_load() { g_rd.loadFromStream(*(std::istream*)g_in, g_mesh); }
void drv_write() { g_wr.writeToStream(*(std::ostream*)g_out, g_mesh, g_types); }
#if GV_DIM == 2
void drv_ring(size_t c) { g_wr.indexCell(g_mesh, g_mesh.getCells()[c], g_ring); }
size_t ob_ntyp() { return g_types.getDataByPos<0>().size(); }
int ob_typ(size_t i) { return int(g_types.getDataByPos<0>()[i]); }
#else
void drv_ring(size_t f, size_t c) { g_wr.indexFace(g_mesh, g_mesh.getFaces()[f], g_mesh.getCells()[c], g_ori, g_ring); }
size_t ob_nori() { return g_ori.getDataByPos<0>().size(); }
size_t ob_napp() { return g_wr.appendedVertices.size(); }
double ob_app(size_t v, unsigned d) { return g_wr.appendedVertices[v][d]; }
size_t ob_ntyp() { return g_wr.cellTypes.getDataByPos<0>().size(); }
int ob_typ(size_t i) { return int(g_wr.cellTypes.getDataByPos<0>()[i]); }
#endif
}
