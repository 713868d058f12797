// face-to-cell links
#include <GTMesh/UnstructuredMesh/MeshElements/MeshElement.h>
#include <cstddef>
#ifndef GV_IT
#define GV_IT size_t
#endif
typedef GV_IT IT;
#if defined(GV_FACE3)
typedef MeshElement<3, 2, IT, double> F;
#elif defined(GV_FACE2)
typedef MeshElement<2, 1, IT, double> F;
#else
typedef CellBoundaryConnection<IT> F;
#endif
extern F g_f;
extern "C" {
IT ob_l() { return g_f.getCellLeftIndex(); }
IT ob_r() { return g_f.getCellRightIndex(); }
IT ob_nl() { return g_f.getNextBElemWRTCL(); }
IT ob_nr() { return g_f.getNextBElemWRTCR(); }
bool drv_setcell(IT c) { return g_f.setCellIndex(c); }
void drv_setleft(IT c) { g_f.setCellLeftIndex(c); }
void drv_setright(IT c) { g_f.setCellRightIndex(c); }
void drv_setnl(IT n) { g_f.setNextBElemWRTCL(n); }
void drv_setnr(IT n) { g_f.setNextBElemWRTCR(n); }
bool drv_setnext(IT n, IT c) { return g_f.setNextBElem(n, c); }
IT drv_getnext(IT c) { return g_f.getNextBElem(c); }
IT drv_other(IT c) { return g_f.getOtherCellIndex(c); }
bool drv_ok() { return g_f.cellsOK(); }
void drv_swap() { g_f.swapCellsLR(); }
IT drv_roundtrip(IT n, IT c) { if (!g_f.setNextBElem(n, c)) return c; return g_f.getNextBElem(c); }
#ifdef GV_CTOR
void drv_default() { g_f = F(); }
void drv_ctor(IT a, IT b, IT c, IT d) { g_f = F(a, b, c, d); }
#endif
}
