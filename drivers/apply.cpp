#include "mesh_probe.h"
#include <GTMesh/UnstructuredMesh/MeshFunctions/MeshApply.h>
extern "C" void gv_visit(size_t a, size_t b);
struct Vis { void operator()(size_t a, size_t b) const { gv_visit(a, b); } };
#define FULL(S, T) extern "C" void drv_apply_##S##T() { MeshApply<S, T>::apply(g_mesh, Vis{}); }
#define ONE(S, T) extern "C" void drv_one_##S##T(size_t c) { MeshApply<S, T>::apply(c, g_mesh, Vis{}); }
#if GV_DIM == 3
FULL(3,2) FULL(3,1) FULL(3,0) FULL(2,1) FULL(2,0) FULL(1,0)
FULL(2,3) FULL(1,3) FULL(0,3) FULL(1,2) FULL(0,2) FULL(0,1)
FULL(3,3) FULL(2,2) FULL(1,1) FULL(0,0)
ONE(3,2) ONE(3,1) ONE(3,0) ONE(2,1) ONE(2,0) ONE(1,0)
#else
FULL(2,1) FULL(2,0) FULL(1,0)
FULL(1,2) FULL(0,2) FULL(0,1)
FULL(2,2) FULL(1,1) FULL(0,0)
ONE(2,1) ONE(2,0) ONE(1,0)
#endif
