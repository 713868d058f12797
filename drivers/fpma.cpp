// reader and writer of the FPMA format
#include <sstream>
#include <unordered_map>
#include <map>
#include <iostream>
#include <fstream>
#include <functional>
#include <valarray>
#include <iomanip>
#include "mesh_probe.h"
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h>
#include <GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h>
extern FPMAMeshReader<3> g_rd;
extern FPMAMeshWriter<3, size_t, double> g_wr;
extern std::vector<ElementIndex<0, size_t>> g_ring;
extern "C" { extern char g_in[]; extern char g_out[]; }
extern "C" {
size_t ob_vidx(size_t v) { return g_mesh.getVertices()[v].getIndex(); }
double ob_vc(size_t v, unsigned d) { return g_mesh.getVertices()[v][d]; }
size_t ob_eidx(size_t v) { return g_mesh.getEdges()[v].getIndex(); }
size_t ob_fidx(size_t v) { return g_mesh.getFaces()[v].getIndex(); }
size_t ob_cidx(size_t v) { return g_mesh.getCells()[v].getIndex(); }
void drv_vertices() { g_rd.loadVertices(*(std::istream*)g_in, g_mesh); }
void drv_faces() { g_rd.loadFaces(*(std::istream*)g_in, g_mesh); }
void drv_cells() { g_rd.loadCells(*(std::istream*)g_in, g_mesh); }
void drv_load() { g_rd.loadFromStream(*(std::istream*)g_in, g_mesh); }
size_t ob_nring() { return g_ring.size(); }
size_t ob_ring(size_t i) { return g_ring[i]; }
size_t ob_nfv() { return g_wr.faceVert.getDataByPos<0>().size(); }
size_t ob_fvn(size_t f) { return g_wr.faceVert.getDataByPos<0>()[f].size(); }
size_t ob_fv(size_t f, size_t i) { return g_wr.faceVert.getDataByPos<0>()[f][i]; }
size_t ob_ncf() { return g_wr.cellFace.getDataByPos<0>().size(); }
size_t ob_cfn(size_t f) { return g_wr.cellFace.getDataByPos<0>()[f].size(); }
size_t ob_cf(size_t f, size_t i) { return g_wr.cellFace.getDataByPos<0>()[f][i]; }
size_t ob_last() { return g_wr.lastHash; }
void drv_ring(size_t f) { g_wr.indexFace(g_mesh, g_mesh.getFaces()[f], g_ring); }
void drv_write() { g_wr.writeToStream(*(std::ostream*)g_out, g_mesh); }
}
