// Boundary cells and index tagging against an independent bookkeeping.
#include "gv_mesh.hpp"
template <class M, class IT, unsigned D> static void run(uint64_t seed, const char* nm) {
    Rng G(seed); M m; const IT I = std::numeric_limits<IT>::max(), B = IT(1) << (sizeof(IT) * 8 - 1);
    std::string log = std::string(nm) + " seed " + std::to_string(seed);
    struct F { IT l, r; Vertex<D, double> c; }; struct C { IT idx, face; };
    std::vector<F> fs; std::vector<C> bs;
    auto rv = [&] { Vertex<D, double> v; for (unsigned d = 0; d < D; d++) v[d] = G.range(-9, 9); return v; };
    auto addFaces = [&](size_t n, double p) {
        for (size_t i = 0; i < n; i++) {
            typename M::Face f; f.setIndex(IT(fs.size()));
            F r{ G.coin(p) ? I : IT(G.below(50)), G.coin(p) ? I : IT(G.below(50)), rv() };
            if (r.l != I) f.setCellLeftIndex(r.l);
            if (r.r != I) f.setCellRightIndex(r.r);
            f.setCenter(r.c); m.getFaces().push_back(f); fs.push_back(r);
        } };
    for (size_t i = G.below(5); i; i--) { typename M::Cell c; c.setIndex(IT(m.getCells().size())); m.getCells().push_back(c); }
    for (size_t i = G.below(5); i; i--) { typename M::Vertex v; v.setIndex(IT(m.getVertices().size())); m.getVertices().push_back(v); }
    size_t nc = m.getCells().size(), nv = m.getVertices().size();
    auto chk = [&](const char* key, bool centers) {
        if (m.getFaces().size() != fs.size() || m.getCells().size() != nc || m.getVertices().size() != nv) { gv_fail(key, log + " number of elements changed"); return false; }
        if (m.getBoundaryCells().size() != bs.size()) { gv_fail(key, log + " " + std::to_string(m.getBoundaryCells().size()) + " boundary cells instead of " + std::to_string(bs.size())); return false; }
        std::vector<int> seen(bs.size());
        for (size_t i = 0; i < fs.size(); i++) {
            const auto& f = m.getFaces()[i];
            for (int s = 0; s < 2; s++) {
                IT now = s ? f.getCellRightIndex() : f.getCellLeftIndex(); IT& was = s ? fs[i].r : fs[i].l;
                if (was != I) { if (now != was) { gv_fail(key, log + " face " + std::to_string(i) + (s ? " right" : " left") + " side changed"); return false; } }
                else {
                    IT pos = extractBoundaryIndex(now);
                    if (now == I || !(now & B) || !isBoundaryIndex(now) || pos >= bs.size() || pos != IT(now & ~B)) { gv_fail(key, log + " face " + std::to_string(i) + (s ? " right" : " left") + " side has no boundary cell: " + std::to_string(now)); return false; }
                    const auto& b = m.getBoundaryCells()[pos];
                    if (b.getBoundaryElementIndex() != IT(i) || b.getIndex() != now) { gv_fail(key, log + " boundary cell " + std::to_string(pos) + " does not refer back to face " + std::to_string(i)); return false; }
                    if (bs[pos].idx != 0 || seen[pos]++) { gv_fail(key, log + " boundary cell " + std::to_string(pos) + " used twice"); return false; }
                    was = now; bs[pos] = {now, IT(i)};
                }
            }
        }
        for (size_t p = 0; p < bs.size(); p++) {
            const auto& b = m.getBoundaryCells()[p];
            if (b.getIndex() != bs[p].idx || b.getBoundaryElementIndex() != bs[p].face) { gv_fail(key, log + " boundary cell " + std::to_string(p) + " changed"); return false; }
            if (centers) for (unsigned d = 0; d < D; d++) if (b.getCenter()[d] != fs[bs[p].face].c[d]) { gv_fail("bound-center", log + " center of boundary cell " + std::to_string(p) + " is not the center of its face"); return false; }
        }
        return true; };
    addFaces(G.below(40), G.coin(0.1) ? 1 : G.unit() * 0.8);
    int steps = 1 + G.below(6);
    for (int st = 0; st < steps; st++) {
        switch (G.below(6)) {
        case 0: case 1: { size_t n = 0; for (auto& f : fs) n += (f.l == I) + (f.r == I); for (; n; n--) bs.push_back({0, 0}); m.setupBoundaryCells(); log += " setup"; if (!chk("bound-setup", false)) return; break; }
        case 2: { size_t n = G.below(6); addFaces(n, 0.6); log += " +" + std::to_string(n) + " faces"; break; }
        case 3: if (!fs.empty()) { IT f = IT(G.below(fs.size())); IT c = makeBoundaryIndex(IT(bs.size())); if (c != IT(IT(bs.size()) | B)) { gv_fail("bound-tag", log + " tag of " + std::to_string(bs.size())); return; } m.appendBoundaryCell(c, f); bs.push_back({c, f}); log += " append"; if (m.getBoundaryCells().size() != bs.size() || m.getBoundaryCells().back().getIndex() != c || m.getBoundaryCells().back().getBoundaryElementIndex() != f) { gv_fail("bound-append", log); return; } } break;
        case 4: m.setupBoundaryCellsCenters(); log += " centers"; { bool ok = true; for (size_t p = 0; p < bs.size(); p++) for (unsigned d = 0; d < D; d++) ok = ok && m.getBoundaryCells()[p].getCenter()[d] == fs[bs[p].face].c[d]; if (!ok) { gv_fail("bound-center", log + " center of a boundary cell is not the center of its face"); return; } } break;
        case 5: if (G.coin(0.2)) { m.clear(); fs.clear(); bs.clear(); nc = nv = 0; log += " clear"; if (m.getBoundaryCells().size() || m.getFaces().size() || m.getCells().size() || m.getVertices().size() || m.getEdges().size()) { gv_fail("bound-clear", log + " something is left"); return; } addFaces(G.below(20), 0.5); } break;
        }
    }
    size_t n = 0; for (auto& f : fs) n += (f.l == I) + (f.r == I);
    for (; n; n--) bs.push_back({0, 0});
    m.setupBoundaryCells(); m.setupBoundaryCellsCenters(); log += " setup centers";
    if (!chk("bound-setup", true)) return;
    for (auto& f : m.getFaces()) if (f.getCellLeftIndex() == I || f.getCellRightIndex() == I) { gv_fail("bound-free-side", log); return; }
    m.setupBoundaryCells(); log += " setup";
    if (!chk("bound-repeat", true)) return;
    gv_cases++;
}
template <class IT> static void tags(uint64_t seed, size_t n) {
    Rng G(seed); const unsigned w = sizeof(IT) * 8; const IT B = IT(IT(1) << (w - 1)), I = IT(~IT(0));
    for (size_t i = 0; i < n; i++) {
        IT x = IT(i < 600 ? i : i < 1200 ? IT(B - 1 - (i - 600)) : (G.next() >> G.below(64)));
        x = IT(x & ~B);
        std::string l = std::to_string(w) + "-bit index " + std::to_string(x);
        IT t = makeBoundaryIndex(x);
        if (t != IT(x | B)) gv_fail("tag-make", l);
        if (extractBoundaryIndex(t) != x || extractBoundaryIndex(x) != x) gv_fail("tag-extract", l);
        if (!isBoundaryIndex(t) || isBoundaryIndex(x)) gv_fail("tag-recognise", l);
        if (isInvalidIndex(x) || isInvalidIndex(t) != (t == I) || !isInvalidIndex(I)) gv_fail("tag-invalid", l);
        if (makeBoundaryIndex(t) != t) gv_fail("tag-twice", l);
        gv_cases++;
    }
}
int main(int argc, char** argv) {
    uint64_t seed = std::strtoull(argv[1], 0, 10); bool th = std::string(argv[2]) == "thorough";
    size_t N = th ? 20000 : 1500;
    gv_case("tags");
    tags<size_t>(seed, N); tags<unsigned>(seed, N); tags<unsigned short>(seed, N); tags<unsigned char>(seed, 200);
    for (size_t i = 0; i < N; i++) {
        uint64_t s = seed * 104729 + i;
        if (i % 100 == 0) gv_case("boundary cells from seed " + std::to_string(s));
        run<MeshElements<3, size_t, double>, size_t, 3>(s, "3D"); run<MeshElements<3, unsigned, double, 6>, unsigned, 3>(s, "3D bounded 32-bit");
        run<MeshElements<2, size_t, double>, size_t, 2>(s, "2D"); run<UnstructuredMesh<2, unsigned, double>, unsigned, 2>(s, "2D 32-bit");
        run<UnstructuredMesh<3, size_t, double, 10>, size_t, 3>(s, "3D mesh");
    }
    return gv_done();
}
