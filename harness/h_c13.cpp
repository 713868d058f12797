// Random histories of writes, reads, resets, clears, file transfers and copies
// of serializers against a queue of values with a reading position.
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/Traits/CustomTypeTraits.h>
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#include "gv_mesh.hpp"
#include <map>
#include <list>
#include <cstdio>
#include <cstring>
#include <unistd.h>
struct Rec { int a; std::string b; bool operator==(const Rec& o) const { return a == o.a && b == o.b; } };
MAKE_ATTRIBUTE_TRAIT(Rec, a, b);
typedef std::vector<unsigned char> Bytes;
struct Item { int kind; long i; double d; std::string s; std::vector<int> v; std::map<int, std::string> m; Rec r; size_t bytes; };
static const int KINDS = 8;
static Item mk(Rng& G, bool big) {
    Item x; x.kind = int(G.below(KINDS)); x.i = long(G.next()); x.d = G.range(-1, 1);
    size_t n = big ? 300 + G.below(3000) : G.below(6); if (big) x.kind = G.coin() ? 3 : 4;
    x.s.assign(n, char('a' + G.below(26))); for (size_t k = 0; k < n; k++) x.v.push_back(int(G.next()));
    for (size_t k = 0; k < n % 5; k++) x.m[int(G.below(100))] = x.s; x.r = Rec{int(x.i), x.s}; return x;
}
static void write(BinarySerializer& s, const Item& x) {
    switch (x.kind) { case 0: s << char(x.i); break; case 1: s << x.i; break; case 2: s.write(x.d); break; case 3: s << x.s; break; case 4: s << x.v; break; case 5: s << x.m; break; case 6: s << x.r; break; case 7: s.write(x.i, x.d); break; }
}
static void add(Bytes& b, const Item& x) {
    switch (x.kind) { case 0: BinarySerializer::addNext(b, char(x.i)); break; case 1: BinarySerializer::addNext(b, x.i); break; case 2: BinarySerializer::addNext(b, x.d); break; case 3: BinarySerializer::addNext(b, x.s); break; case 4: BinarySerializer::addNext(b, x.v); break; case 5: BinarySerializer::addNext(b, x.m); break; case 6: BinarySerializer::addNext(b, x.r); break; case 7: BinarySerializer::addNext(b, x.i); BinarySerializer::addNext(b, x.d); break; }
}
static bool read(BinarySerializer& s, const Item& x, Rng& G) {
    bool byval = G.coin(0.3);
    switch (x.kind) {
    case 0: { if (byval) return s.read<char>() == char(x.i); char c = 'x'; s >> c; return c == char(x.i); }
    case 1: { if (byval) return s.read<long>() == x.i; long l = 3; s.read(l); return l == x.i; }
    case 2: { if (byval) return s.read<double>() == x.d; double d = 9; s >> d; return d == x.d; }
    case 3: { if (byval) return s.read<std::string>() == x.s; std::string t = "old"; s >> t; return t == x.s; }
    case 4: { if (byval) return s.read<std::vector<int>>() == x.v; std::vector<int> v(7, 1); s.read(v); return v == x.v; }
    case 5: { std::map<int, std::string> m{{200, "old"}}; s >> m; return m == x.m; }
    case 6: { if (byval) return s.read<Rec>() == x.r; Rec r{1, "q"}; s >> r; return r == x.r; }
    default: { long l = 1; double d = 1; s.read(l, d); return l == x.i && d == x.d; }
    }
}
struct One { BinarySerializer s; std::vector<Item> q; size_t pos = 0; Bytes b; };
int main(int argc, char** argv) {
    size_t seed = argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1;
    bool thorough = argc > 2 && std::string(argv[2]) == "thorough";
    const std::string base = "/tmp/gv_c13_" + std::to_string(::getpid());
    std::vector<std::pair<std::string, One>> files;
    for (size_t it = 0; it < (thorough ? 6000u : 700u); it++) {
        Rng G(seed * 100003 + it); std::string h; std::vector<std::unique_ptr<One>> S; S.emplace_back(new One);
        std::vector<std::pair<std::string, std::pair<std::vector<Item>, Bytes>>> F;
        size_t steps = 5 + G.below(60); bool bad = false;
        auto fail = [&](const char* k, const std::string& w) { gv_fail(k, "history" + h + ": " + w); bad = true; };
        for (size_t st = 0; st < steps && !bad; st++) {
            size_t k = G.below(S.size()); One& o = *S[k]; std::string tag = " [" + std::to_string(k) + "]";
            switch (G.below(16)) {
            case 0: case 1: case 2: case 3: case 4: { size_t n = 1 + G.below(4); for (size_t i = 0; i < n; i++) { Item x = mk(G, G.coin(0.04)); write(o.s, x); add(o.b, x); o.q.push_back(x); h += tag + " write " + std::to_string(x.kind); } break; }
            case 5: case 6: case 7: case 8: case 9: { size_t n = 1 + G.below(5); for (size_t i = 0; i < n && o.pos < o.q.size() && !bad; i++) { h += tag + " read " + std::to_string(o.q[o.pos].kind); if (!read(o.s, o.q[o.pos], G)) fail("read", "value " + std::to_string(o.pos) + " of " + std::to_string(o.q.size()) + " differs from the one written"); o.pos++; } break; }
            case 10: o.s.resetIterator(); o.pos = 0; h += tag + " reset"; break;
            case 11: if (G.coin(0.5)) { o.s.clear(); o.q.clear(); o.pos = 0; o.b.clear(); h += tag + " clear"; } break;
            case 12: { std::string f = base + "_" + std::to_string(F.size()); if (F.size() < 3) { o.s.saveToFile(f); F.push_back({f, {o.q, o.b}}); h += tag + " save"; } else { size_t j = G.below(F.size()); o.s.saveToFile(F[j].first); F[j].second = {o.q, o.b}; h += tag + " save over " + std::to_string(j); } break; }
            case 13: if (!F.empty()) { size_t j = G.below(F.size()); o.s.loadFromFile(F[j].first); o.q = F[j].second.first; o.b = F[j].second.second; o.pos = 0; h += tag + " load " + std::to_string(j); } break;
            case 14: if (S.size() < 4) { std::unique_ptr<One> c(new One(o)); S.push_back(std::move(c)); h += tag + " copy"; } else { size_t j = G.below(S.size()); if (j != k) { *S[j] = o; h += tag + " assign to " + std::to_string(j); } } break;
            case 15: if (S.size() > 1) { S.erase(S.begin() + long(k)); h += tag + " destroy"; continue; } break;
            }
            for (auto& p : S) { if (p->s.getData() != p->b) { fail("content", "the content of the stream differs from what was written"); break; }
                if (p->s.isIteratorValid() != (p->pos < p->q.size())) { fail("end", "the end of the data is not recognised"); break; } }
        }
        for (auto& p : S) while (!bad && p->pos < p->q.size()) { if (!read(p->s, p->q[p->pos], G)) fail("read", "value " + std::to_string(p->pos) + " differs in the final reading"); p->pos++; }
        for (auto& f : F) std::remove(f.first.c_str());
        gv_case("history of " + std::to_string(steps) + " steps");
    }
    {   // a long stream, read in pieces while it grows
        BinarySerializer s; size_t w = 0, r = 0; Rng G(seed);
        for (size_t it = 0; it < 3000; it++) { for (size_t i = 0; i < 40; i++) s << (unsigned long)(w++ * 7919); size_t n = G.below(40); for (size_t i = 0; i < n && r < w; i++) { unsigned long x; s >> x; if (x != r * 7919) { gv_fail("long", "word " + std::to_string(r) + " of a growing stream is wrong"); return gv_done(); } r++; } }
        if (s.getData().size() != w * 8) gv_fail("long", "the stream has lost bytes"); gv_cases++;
    }
    return gv_done();
}
