// Sub-element lists: random operation sequences against std::vector.
#include "gv_mesh.hpp"
template <class IT, unsigned R> static bool cap(const SubelementContainer<IT, R>& s) { return s.reserve() == R; }
template <class IT> static bool cap(const SubelementContainer<IT, 0>&) { return true; }
template <class IT, unsigned R> static void run(uint64_t seed, int steps) {
    Rng G(seed);
    struct Box { unsigned char pre[64]; SubelementContainer<IT, R> s; unsigned char post[64]; } b{};
    std::memset(b.pre, 0xA5, sizeof b.pre); std::memset(b.post, 0xA5, sizeof b.post);
    auto& s = b.s;
    std::vector<IT> v;
    std::string log = "capacity " + std::to_string(R) + " bits " + std::to_string(8 * sizeof(IT)) + " seed " + std::to_string(seed) + ": ";
    double pa = G.range(0.3, 0.9);
    auto same = [&](const char* key) {
        std::vector<IT> a, c, d, e; const auto& cs = s;
        if (cs.size() != v.size() || cs.getNumberOfSubElements() != v.size()) { gv_fail(key, log + "size " + std::to_string(cs.size()) + " instead of " + std::to_string(v.size())); return false; }
        size_t guard = v.size() + 5;
        for (auto& x : s) { a.push_back(x); if (!guard--) break; }
        guard = v.size() + 5;
        for (const auto& x : cs) { c.push_back(x); if (!guard--) break; }
        guard = v.size() + 5;
        for (auto it = cs.begin(); it != cs.cend() && guard--; ++it) d.push_back(*it);
        for (size_t i = 0; i < v.size(); i++) e.push_back(cs[i]);
        if (a != v || c != v || d != v || e != v) { gv_fail(key, log + "entries differ from the expected sequence"); return false; }
        for (unsigned i = 0; i < 64; i++) if (b.pre[i] != 0xA5 || b.post[i] != 0xA5) { gv_fail("sub-outside-memory", log + "memory around the list changed"); return false; }
        return true; };
    if (!same("sub-initial")) return;
    std::string prev;
    for (int i = 0; i < steps; i++) {
        unsigned op = G.coin(pa) ? (G.coin() ? 0 : 1) : 2 + G.below(2);
        if (G.coin(0.01)) pa = G.range(0.2, 0.95);
        IT x = G.coin(0.1) ? INVALID_INDEX(IT) : IT(G.next());
        unsigned p = unsigned(G.coin(0.9) ? G.below(v.size() + 1) : G.coin() ? v.size() + G.below(300) : G.coin() ? 0xFFFFFFFFu : unsigned(G.below(2 * R + 600)));
        if (op == 3 && !v.empty()) p = unsigned(v.size() - 1 - (G.coin(0.3) ? 0 : G.below(v.size())));
        std::string cur = (op < 2 ? "append " + std::to_string(x) : "remove at " + std::to_string(p)) + " with " + std::to_string(v.size()) + " entries";
        bool thr = false, ex = false;
        try { if (op == 0) s.addSubelement(x); else if (op == 1) s.push_back(x); else s.removeSubelement(p); } catch (const std::exception&) { thr = true; }
        if (op == 0 || op == 1) { if (R && v.size() >= R) ex = true; else v.push_back(x); }
        else if (p >= v.size()) ex = true; else v.erase(v.begin() + p);
        std::string l0 = log; log += prev + "; " + cur + " -> ";
        if (thr != ex) { gv_fail("sub-refusal", log + (thr ? "refused although possible" : "accepted although impossible")); return; }
        if (!same("sub-sequence")) return;
        if (G.coin(0.01)) { SubelementContainer<IT, R> c = s; SubelementContainer<IT, R> d; d = c; s = d; if (!same("sub-copy")) return; }
        log = l0; prev = cur;
    }
    if (!cap(s)) gv_fail("sub-capacity", log + "reserve() differs");
    gv_case(log + std::to_string(steps) + " operations");
}
int main(int argc, char** argv) {
    uint64_t seed = std::strtoull(argv[1], 0, 10); bool th = std::string(argv[2]) == "thorough";
    size_t N = th ? 3000 : 120;
    for (size_t i = 0; i < N; i++) {
        uint64_t s = seed * 7919 + i;
        run<size_t, 1>(s, 12); run<size_t, 2>(s, 20); run<size_t, 6>(s, 60); run<unsigned, 6>(s, 60); run<unsigned short, 17>(s, 80); run<size_t, 300>(s, 700); run<size_t, 0>(s, 500); run<unsigned, 0>(s, 60);
    }
    return gv_done();
}
