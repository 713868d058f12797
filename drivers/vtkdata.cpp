// attributes of cells written to and read from VTK files
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h>
#ifndef GV_DIM
#define GV_DIM 3
#endif
struct D { double a; Vector<GV_DIM, double> v; double b; };
MAKE_ATTRIBUTE_TRAIT(D, a, v, b);
struct Hid { double a, b; Vector<GV_DIM, double> w; double getA() const { return a; } void setA(const double& x) { a = x; } };
MAKE_CUSTOM_TRAIT(Hid, "a", std::make_pair(&Hid::getA, &Hid::setA));
extern DataContainer<D, GV_DIM> g_d;
extern VTKMeshWriter<GV_DIM, size_t, double> g_wr;
extern std::map<std::string, std::istream::pos_type> g_pos;
extern "C" { extern char g_in[]; extern char g_out[]; }
typedef VTKMeshDataWriter<GV_DIM> W;
typedef VTKMeshDataReader<GV_DIM, size_t> Rd;
extern "C" {
size_t ob_n() { return g_d.size(); }
double ob_a(size_t i) { return g_d[i].a; }
double ob_b(size_t i) { return g_d[i].b; }
double ob_v(size_t i, unsigned k) { return g_d[i].v[k]; }
size_t ob_ncells() { return g_wr.getNumberOfCells(); }
void drv_w0() { W::writeColumn<D, 0>(*(std::ostream*)g_out, g_d, g_wr, DefaultIOTraits<D>::getTraits()); }
void drv_w1() { W::writeColumn<D, 1>(*(std::ostream*)g_out, g_d, g_wr, DefaultIOTraits<D>::getTraits()); }
void drv_w2() { W::writeColumn<D, 2>(*(std::ostream*)g_out, g_d, g_wr, DefaultIOTraits<D>::getTraits()); }
void drv_r0() { Rd::readColumn<D, 0>(*(std::istream*)g_in, g_d, g_pos, DefaultIOTraits<D>::getTraits()); }
void drv_r1() { Rd::readColumn<D, 1>(*(std::istream*)g_in, g_d, g_pos, DefaultIOTraits<D>::getTraits()); }
void drv_r2() { Rd::readColumn<D, 2>(*(std::istream*)g_in, g_d, g_pos, DefaultIOTraits<D>::getTraits()); }
void drv_idx() { auto m = Rd::indexData(*(std::istream*)g_in); }
void drv_all() { W::writeToStream(*(std::ostream*)g_out, g_d, g_wr); }
void drv_rall() { Rd::readFromStream(*(std::istream*)g_in, g_d); }
}
