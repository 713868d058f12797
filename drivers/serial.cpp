// Round trips through the binary encoding: written behind whatever the buffer
// holds, read back from the place where it was written.
#include <cstddef>
#include <cstdint>
#include <utility>
#include <array>
#include <vector>
#include <tuple>
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/Traits/CustomTypeTraits.h>
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#define X extern "C"
enum class En : short { a, b };
struct Rec { int i; double d; char c; bool f; };
MAKE_ATTRIBUTE_TRAIT(Rec, i, d, c, f);
struct Nest { Rec r; short s; };
MAKE_ATTRIBUTE_TRAIT(Nest, r, s);
struct Part { double p, q; };
MAKE_NAMED_ATTRIBUTE_TRAIT(Part, "q", q);
typedef std::vector<unsigned char> Bytes;
extern Bytes g_bytes;
extern size_t g_end;
X size_t ob_len() { return g_bytes.size(); }
X unsigned ob_byte(size_t i) { return g_bytes[i]; }
X size_t ob_end() { return g_end; }
#ifdef GV_TYPE
typedef GV_TYPE T;
extern T g_a, g_b;
X void drv_write() { const T& a = g_a; BinarySerializer::addNext(g_bytes, a); }
X void drv_rt() {
    size_t n = g_bytes.size();
    const T& a = g_a;
    BinarySerializer::addNext(g_bytes, a);
    Bytes::const_iterator it = g_bytes.cbegin() + n;
    BinarySerializer::readNext(it, g_b);
    g_end = it - g_bytes.cbegin();
}
#endif
#ifdef GV_SIMPLE
X T ob_a() { return g_a; }
X T ob_b() { return g_b; }
#endif
#ifdef GV_PROJ
#define P(n, t, e) X t ob_a##n() { const T& x = g_a; return e; } X t ob_b##n() { const T& x = g_b; return e; }
GV_PROJ
#endif
#ifdef GV_LIST
X size_t ob_na() { return g_a.size(); }
X size_t ob_nb() { return g_b.size(); }
#define P(n, t, e) X t ob_a##n(size_t i) { const auto& x = g_a[i]; return e; } X t ob_b##n(size_t i) { const auto& x = g_b[i]; return e; }
GV_LIST
#endif
