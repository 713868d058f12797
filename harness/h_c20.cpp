// Mesh signature: equal meshes built in memory with different previous contents and in different ways.
#include <cstdlib>
#include <cstring>
#include <new>
static unsigned char gv_pat = 0;
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); std::memset(p, gv_pat, n); return p; }
void* operator new[](std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); std::memset(p, gv_pat, n); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#include "gv_mesh.hpp"
#include <cstring>
#if defined(DP2)
typedef UnstructuredMesh<2, size_t, double> M; enum { DIM = 2 };
#elif defined(DP3)
typedef UnstructuredMesh<3, size_t, double> M; enum { DIM = 3 };
#else
typedef UnstructuredMesh<3, size_t, double, 8> M; enum { DIM = 3 };
#endif
__attribute__((noinline)) static void dirty(unsigned char c) { volatile unsigned char j[16384]; for (auto& x : j) x = c; gv_pat = c; }
static void putd(std::string& s, double d) { char b[sizeof d]; std::memcpy(b, &d, sizeof d); s.append(b, sizeof d); }
static void putn(std::string& s, uint64_t n) { s.append(reinterpret_cast<const char*>(&n), 8); }
template <class E> static void conn(std::string& s, const E& f) { putn(s, f.getCellLeftIndex()); putn(s, f.getCellRightIndex()); putn(s, f.getNextBElemWRTCL()); putn(s, f.getNextBElemWRTCR()); }
template <class E> static void sig(std::string& s, const E& f) { for (unsigned k = 0; k < DIM; k++) putd(s, f.getCenter()[k]); putn(s, uint64_t(f.getFlag())); }
static void faceSubs(std::string& s, const MeshElement<2, 1, size_t, double>& f) { putn(s, f.getVertexAIndex()); putn(s, f.getVertexBIndex()); }
template <unsigned R> static void faceSubs(std::string& s, const MeshElement<3, 2, size_t, double, R>& f) { putn(s, f.getSubelements().size()); for (size_t i = 0; i < f.getSubelements().size(); i++) putn(s, f.getSubelements()[i]); }
// every stored value of every element
static std::string snap(const M& m) {
    std::string s;
    putn(s, m.getCells().size()); putn(s, m.getFaces().size()); putn(s, m.getEdges().size()); putn(s, m.getVertices().size());
    for (auto& c : m.getCells()) { putn(s, c.getIndex()); putn(s, c.getBoundaryElementIndex()); sig(s, c); }
    for (auto& f : m.getFaces()) { putn(s, f.getIndex()); faceSubs(s, f); conn(s, f); sig(s, f); }
    for (auto& e : m.getEdges()) { putn(s, e.getIndex()); putn(s, e.getVertexAIndex()); putn(s, e.getVertexBIndex()); }
    for (auto& v : m.getVertices()) { putn(s, v.getIndex()); for (unsigned k = 0; k < DIM; k++) putd(s, v[k]); }
    putn(s, m.getBoundaryCells().size());
    return s;
}
struct Extra { std::vector<std::array<double, 3>> cc, fc; std::vector<int> cf, ff; bool bnd; };
static void extra(M& m, const Extra& x) {
    for (size_t i = 0; i < m.getCells().size(); i++) { for (unsigned k = 0; k < DIM; k++) m.getCells()[i].getCenter()[k] = x.cc[i][k]; m.getCells()[i].getFlag() = x.cf[i]; if (!x.bnd) m.getCells()[i].setBoundaryElementIndex(INVALID_INDEX(size_t)); }
    for (size_t i = 0; i < m.getFaces().size(); i++) { for (unsigned k = 0; k < DIM; k++) m.getFaces()[i].getCenter()[k] = x.fc[i][k]; m.getFaces()[i].getFlag() = x.ff[i]; }
}
#ifndef DP2
static void faces(M& m, const Ref& r, Rng& R) {
    for (size_t i = 0; i < r.n(2); i++) {
        typename M::Face f(i);
        for (size_t e : r.down[2][i]) f.getSubelements().addSubelement(e);
        m.getFaces().push_back(f);
    }
}
#else
static void faces(M&, const Ref&, Rng&) {}
#endif
// the same mesh element by element
static void grow(M& m, const Ref& r, Rng& R) {
    m.clear();
    for (size_t i = 0; i < r.V.size(); i++) { typename M::Vertex v; v.setIndex(i); for (unsigned k = 0; k < DIM; k++) v[k] = r.V[i][k]; m.getVertices().push_back(v); }
    for (size_t i = 0; i < r.n(1); i++) { typename M::Edge e(i, r.down[1][i][0], r.down[1][i][1]); m.getEdges().push_back(e); }
    faces(m, r, R);
    for (size_t i = 0; i < r.n(r.dim); i++) { typename M::Cell c(i); m.getCells().push_back(c); }
    gv_cells(m, r);
}
static size_t build(const Ref& r, const Extra& x, int way, unsigned char pat, Rng& R, std::string& s, std::string& why, const Ref& other) {
    dirty(pat);
    M* p = new M;
    if (p->getSignature() == 0x0101010101010101ull * pat && pat) { why = "signature of a new mesh is stray memory"; }
    switch (way % 6) {
    case 0: gv_fill(*p, r); extra(*p, x); break;
    case 1: grow(*p, r, R); extra(*p, x); break;
    case 2: { M a; gv_fill(a, r); extra(a, x); dirty(pat ^ 0x5a); *p = a; break; }
    case 3: { M a; grow(a, r, R); extra(a, x); dirty(pat ^ 0x33); delete p; p = new M(a); break; }
    case 4: { gv_fill(*p, other); p->updateSignature(); gv_fill(*p, r); extra(*p, x); break; }   // reused object
    case 5: { M a; gv_fill(a, r); extra(a, x); delete p; p = new M(std::move(a)); break; }
    }
    std::string s0 = snap(*p);
    dirty(pat ^ 0x0f);
    size_t g = p->updateSignature();
    if (p->getSignature() != g) why = "the reported signature is not the computed one";
    dirty(pat ^ 0xf0);
    size_t g2 = p->updateSignature();
    if (g2 != g || p->getSignature() != g) why = "computing the signature twice gives different values";
    s = snap(*p);
    if (s != s0) why = "computing the signature changed the mesh";
    // change and change back
    if (!p->getVertices().empty()) {
        double o = p->getVertices()[0][0]; p->getVertices()[0][0] = o + 1; size_t h = p->updateSignature();
        if (p->getSignature() != h) why = "the reported signature is not the computed one (after a change)";
        p->getVertices()[0][0] = o; h = p->updateSignature();
        if (h != g) why = "signature of the restored mesh differs";
        if (p->getSignature() != g) why = "the reported signature is not the computed one (after restoring)";
    }
    M q(*p); if (q.getSignature() != g) why = "copy reports another signature";
    if (q.updateSignature() != g) why = "signature of a copy differs";
    delete p;
    return g;
}
static Extra mkExtra(const Ref& r, Rng& R) {
    Extra x; x.bnd = R.coin(0.7); size_t nc = r.n(r.dim), nf = r.n(r.dim - 1);
    bool z = R.coin(0.3);
    for (size_t i = 0; i < nc; i++) { x.cc.push_back({{z ? 0 : R.unit(), z ? -0.0 : R.unit(), R.unit()}}); x.cf.push_back(int(R.below(5)) - 2); }
    for (size_t i = 0; i < nf; i++) { x.fc.push_back({{z ? 0 : R.unit(), R.unit(), R.unit()}}); x.ff.push_back(int(R.below(5)) - 2); }
    return x;
}
int main(int argc, char** argv) {
    uint64_t seed = std::strtoull(argv[1], 0, 10); bool th = std::string(argv[2]) == "thorough";
    int N = th ? 300 : 40;
    Ref prev; prev.dim = DIM; prev.down.resize(DIM + 1); { Rng R(seed); prev = gv_generate(R, gv_opts(R, DIM == 3, 3)); }
    for (int i = -1; i < N; i++) {
        Rng R(seed * 7919 + i);
        GenOpts o = gv_opts(R, DIM == 3, i % 10 == 9 ? 6 : 3);
        Ref r = gv_generate(R, o); std::string d = gv_desc(o, seed * 7919 + i);
        if (i < 0) { r = Ref(); r.dim = DIM; r.down.resize(DIM + 1); d = "empty mesh"; }
        gv_case(d);
        Extra x = mkExtra(r, R);
        size_t g0 = 0; std::string s0;
        for (int w = 0; w < 12; w++) {
            std::string s, why; size_t g = build(r, x, w, (unsigned char)(17 * w + 1 + R.below(200)), R, s, why, prev);
            if (!why.empty()) { gv_fail("signature", d + " (way " + std::to_string(w % 6) + "): " + why); break; }
            if (w == 0) { g0 = g; s0 = s; continue; }
            if (s != s0) { gv_fail("signature-harness", d + " (way " + std::to_string(w % 6) + "): built meshes are not equal"); break; }
            if (g != g0) { gv_fail("signature-equal", d + " (way " + std::to_string(w % 6) + "): signatures of equal meshes differ"); break; }
        }
        prev = r;
    }
    return gv_done();
}
