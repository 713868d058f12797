// index tagging
#include <GTMesh/UnstructuredMesh/UnstructuredMeshDefine.h>
#include <cstdint>
#ifndef GV_IT
#define GV_IT uint64_t
#endif
typedef GV_IT IT;
extern "C" {
IT drv_make(IT i) { return makeBoundaryIndex(i); }
IT drv_extract(IT i) { return extractBoundaryIndex(i); }
bool drv_isb(IT i) { return isBoundaryIndex(i); }
bool drv_isinv(IT i) { return isInvalidIndex(i); }
IT drv_roundtrip(IT i) { return extractBoundaryIndex(makeBoundaryIndex(i)); }
IT drv_inv() { return INVALID_INDEX(IT); }
IT drv_bnd() { return BOUNDARY_INDEX(IT); }
IT drv_mask() { return EXTRACTING_INDEX(IT); }
}
