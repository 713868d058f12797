// colorings of the elements of one dimension with respect to a connecting dimension
#include "mesh_probe.h"
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h>
#include <GTMesh/UnstructuredMesh/MeshFunctions/MeshApply.h>
template <unsigned S, unsigned T> using LT = MeshDataContainer<std::vector<ElementIndex<T, size_t>>, S>;
extern LT<GV_S, GV_T> g_a;      // elements of dimension GV_T connected to the elements of dimension GV_S
#if GV_S > GV_T && !defined GV_RANDOM
// contract of MeshApply::apply for one element (C01): the function is called with every connected element, any of them possibly repeated
template <> struct MeshApply<GV_S, GV_T> {
    template <unsigned D, typename F, typename I, typename R, unsigned... Res>
    static void apply(I elementIndex, const MeshElements<D, I, R, Res...>&, F f) {
        for (I x : g_a.template getDataByPos<0>()[elementIndex]) f(elementIndex, x);
    }
};
#endif
#include <GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h>
extern MeshDataContainer<unsigned int, GV_S> g_out;
#ifdef GV_RANDOM
extern MeshDataContainer<unsigned int, GV_S> g_c;      // the greedy coloring
#endif
extern "C" {
size_t ob_an() { return g_a.getDataByPos<0>().size(); }
size_t ob_alen(size_t i) { return g_a.getDataByPos<0>()[i].size(); }
size_t ob_a(size_t i, size_t j) { return g_a.getDataByPos<0>()[i][j].index; }
size_t ob_on() { return g_out.getDataByPos<0>().size(); }
unsigned ob_o(size_t i) { return g_out.getDataByPos<0>()[i]; }
#ifdef GV_RANDOM
size_t ob_cn() { return g_c.getDataByPos<0>().size(); }
unsigned ob_c(size_t i) { return g_c.getDataByPos<0>()[i]; }
void drv_color(unsigned seed) { g_out = MeshColoring<GV_S, GV_T, METHOD_RANDOM>::color(g_mesh, seed); }
#else
void drv_color() { g_out = MeshColoring<GV_S, GV_T>::color(g_mesh); }
#endif
}
