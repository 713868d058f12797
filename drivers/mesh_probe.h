// Observers of a mesh object used by the specifications.  They call only the
// library's own accessors; the verifier evaluates them symbolically.
#pragma once
#include <GTMesh/UnstructuredMesh/MeshElements/MeshElements.h>
#include <cstddef>
#ifndef GV_DIM
#define GV_DIM 3
#endif
#ifdef GV_RES
using M = MeshElements<GV_DIM, size_t, double, GV_RES>;
#else
using M = MeshElements<GV_DIM, size_t, double>;
#endif
extern M g_mesh;
extern "C" {
size_t ob_nc() { return g_mesh.getCells().size(); }
size_t ob_nf() { return g_mesh.getFaces().size(); }
size_t ob_ne() { return g_mesh.getEdges().size(); }
size_t ob_nv() { return g_mesh.getVertices().size(); }
size_t ob_nb() { return g_mesh.getBoundaryCells().size(); }
size_t ob_bnd(size_t c) { return g_mesh.getCells()[c].getBoundaryElementIndex(); }
size_t ob_left(size_t f) { return g_mesh.getFaces()[f].getCellLeftIndex(); }
size_t ob_right(size_t f) { return g_mesh.getFaces()[f].getCellRightIndex(); }
size_t ob_nleft(size_t f) { return g_mesh.getFaces()[f].getNextBElemWRTCL(); }
size_t ob_nright(size_t f) { return g_mesh.getFaces()[f].getNextBElemWRTCR(); }
size_t ob_ea(size_t e) { return g_mesh.getEdges()[e].getVertexAIndex(); }
size_t ob_eb(size_t e) { return g_mesh.getEdges()[e].getVertexBIndex(); }
#if GV_DIM == 3
size_t ob_nsub(size_t f) { return g_mesh.getFaces()[f].getSubelements().size(); }
size_t ob_sub(size_t f, size_t i) { return g_mesh.getFaces()[f].getSubelements()[i]; }
#endif
}
