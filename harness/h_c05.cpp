// Face-to-cell links: random operation sequences against a reference record.
#include "gv_mesh.hpp"
template <class F, class IT> static void run(uint64_t seed, int steps, const char* nm) {
    Rng R(seed); F f; IT I = INVALID_INDEX(IT);
    IT l = I, r = I, nl = I, nr = I;
    std::string log = std::string(nm) + " seed " + std::to_string(seed) + ":";
    auto pick = [&]() -> IT { switch (R.below(8)) { case 0: return I; case 1: return l; case 2: return r; case 3: return IT(R.below(3)) | BOUNDARY_INDEX(IT); default: return IT(R.below(4)); } };
    auto chk = [&](const char* key) {
        if (f.getCellLeftIndex() != l || f.getCellRightIndex() != r || f.getNextBElemWRTCL() != nl || f.getNextBElemWRTCR() != nr) { gv_fail(key, log + " state differs"); return false; }
        return true; };
    if (!chk("link-initial")) return;
    for (int i = 0; i < steps; i++) {
        IT c = pick(), n = pick(); unsigned op = R.below(12);
        log += " " + std::to_string(op) + "(" + std::to_string(n) + "," + std::to_string(c) + ")";
        bool res = false, exp = false, thr = false, ethr = false; IT val = 0, ev = 0;
        try {
            switch (op) {
            case 0: case 1: exp = c != I && (l == I || r == I); if (exp) (l == I ? l : r) = c; res = f.setCellIndex(c); break;
            case 2: f.setCellLeftIndex(c); l = c; break;
            case 3: f.setCellRightIndex(c); r = c; break;
            case 4: case 5: case 6:
                if (c == I) exp = false; else if (l == c) { nl = n; exp = true; } else if (r == c) { nr = n; exp = true; }
                else if (l == I) { l = c; nl = n; exp = true; } else if (r == I) { r = c; nr = n; exp = true; }
                res = f.setNextBElem(n, c); break;
            case 7: case 8: ethr = c == I || (c != l && c != r); ev = c == r ? nr : nl; val = f.getNextBElem(c); break;
            case 9: ethr = c == I || (c != l && c != r); ev = c == r ? l : r; val = f.getOtherCellIndex(c); break;
            case 10: exp = l != I && r != I; res = f.cellsOK(); break;
            case 11: if (R.coin(0.3)) { std::swap(l, r); f.swapCellsLR(); } else if (R.coin()) { f.setNextBElemWRTCL(n); nl = n; } else { f.setNextBElemWRTCR(n); nr = n; } break;
            }
        } catch (const std::exception&) { thr = true; }
        if (thr != ethr) { gv_fail("link-refusal", log + (thr ? " refused" : " not refused")); return; }
        if (!thr && (res != exp || val != ev)) { gv_fail("link-answer", log + " answers " + std::to_string(res) + "/" + std::to_string(val) + " instead of " + std::to_string(exp) + "/" + std::to_string(ev)); return; }
        if (!chk("link-state")) return;
    }
}
int main(int argc, char** argv) {
    uint64_t seed = std::strtoull(argv[1], 0, 10); bool th = std::string(argv[2]) == "thorough";
    int N = th ? 20000 : 1500;
    for (int i = 0; i < N; i++) {
        uint64_t s = seed * 500009 + i;
        if (i % 100 == 0) gv_case("link sequences from seed " + std::to_string(s)); else gv_cases++;
        run<CellBoundaryConnection<size_t>, size_t>(s, 30, "link64");
        run<CellBoundaryConnection<unsigned>, unsigned>(s, 30, "link32");
        run<MeshElement<3, 2, size_t, double>, size_t>(s, 30, "face3D");
        run<MeshElement<2, 1, size_t, double>, size_t>(s, 30, "face2D");
        run<MeshElement<3, 2, unsigned, double, 5>, unsigned>(s, 30, "face3D bounded");
    }
    return gv_done();
}
