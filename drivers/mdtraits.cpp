// Traits of mesh data containers.
#include <cstddef>
#include <utility>
#include <array>
#include <vector>
#include <tuple>
#include <string>
#include <functional>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h>
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h>
#define X extern "C"
typedef MeshDataContainer<int, GV_DIMS> C;
extern C g_c;
X size_t ob_n0() { return g_c.getDataByPos<0>().size(); }
X size_t ob_n1() { return g_c.getDataByPos<1>().size(); }
X int ob_v0(size_t i) { return g_c.getDataByPos<0>()[i]; }
X int ob_v1(size_t i) { return g_c.getDataByPos<1>()[i]; }
typedef std::remove_reference_t<decltype(g_c.getDataByPos<0>())> V;
extern V g_v;
X size_t ob_nv() { return g_v.size(); }
X int ob_vv(size_t i) { return g_v[i]; }
static bool eq(const char* n, const char* e) { for (size_t k = 0; k < 8; k++) { if (n[k] != e[k]) return false; if (!e[k]) return true; } return false; }
X bool drv_names() { Traits<C> t; return eq(t.getName<0>(), GV_NAME0) && eq(t.getName<1>(), GV_NAME1); }
X int drv_get(size_t i) { Traits<C> t; return t.getValue<1>(g_c)[i]; }
X void drv_set() { Traits<C> t; t.setValue<0>(g_c, g_v); }
X void drv_attr(size_t i) { Traits<C> t; t.getAttr<1>(g_c)[i] = 7; }
X unsigned drv_size() { return Traits<C>::size(); }
