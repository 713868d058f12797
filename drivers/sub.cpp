// sub-element lists
#include <GTMesh/UnstructuredMesh/MeshElements/MeshElement.h>
#include <cstddef>
#ifndef GV_IT
#define GV_IT size_t
#endif
#ifndef GV_R
#define GV_R 0
#endif
typedef GV_IT IT;
typedef SubelementContainer<IT, GV_R> S;
extern S g_s;
extern const S& gc();
extern "C" {
void gv_visit(size_t v);
size_t ob_n() { return g_s.size(); }
IT ob_e(size_t i) { return g_s.data()[i]; }
void drv_add(IT x) { g_s.addSubelement(x); }
void drv_push(IT x) { g_s.push_back(x); }
void drv_remove(unsigned int i) { g_s.removeSubelement(i); }
size_t drv_count() { return g_s.getNumberOfSubElements(); }
IT drv_get(size_t i) { return g_s[i]; }
void drv_iter() { for (auto& x : g_s) gv_visit(x); }
void drv_citer() { const S& c = g_s; for (const auto& x : c) gv_visit(x); }
void drv_cciter() { for (auto it = g_s.cbegin(); it != g_s.cend(); ++it) gv_visit(*it); }
void drv_addremove(IT x) { g_s.addSubelement(x); g_s.removeSubelement((unsigned int)(g_s.size() - 1)); }
#if GV_R > 0
unsigned drv_reserve() { return g_s.reserve(); }
#endif
void drv_fresh() { g_s = S(); }
}
