// Text of exported values: the value is exported to a stream (or to the standard output), observers give its components.
#include <iostream>
#include <sstream>
#include <fstream>
#include <string>
#include <vector>
#include <array>
#include <valarray>
#include <tuple>
#include <GTMesh/Traits/Traits.h>
#define X extern "C"
// an arbitrary exportable value: its text is given by the contract of its export
struct Box { long id; };
void PrintTo(const Box&, std::ostream&); void PrintTo(const Box&);
struct Rec { int i; double d; bool f; };
struct Nest { Box b; Rec r; };
struct One { Box b; };
struct Idx { std::vector<Box> v; size_t size() const { return v.size(); } void resize(size_t n) { v.resize(n); } const Box& operator[](size_t i) const { return v[i]; } Box& operator[](size_t i) { return v[i]; } };
MAKE_ATTRIBUTE_TRAIT(Rec, i, d, f);
MAKE_NAMED_ATTRIBUTE_TRAIT(Nest, "box", b, "the record", r);
MAKE_ATTRIBUTE_TRAIT(One, b);
#include <GTMesh/Debug/VariableExport.h>
#include <GTMesh/NumericStaticArray/Vector.h>
extern std::ostream g_os;
#ifdef GV_TYPE
typedef GV_TYPE V;
extern V g_v;
#define P(n, t, e) X t ob_##n() { const V& x = g_v; return e; }
#define PI(n, t, e) X t ob_##n(size_t i) { const V& x = g_v; return e; }
#define PIJ(n, t, e) X t ob_##n(size_t i, size_t j) { const V& x = g_v; return e; }
GV_PROJ
X void drv_os() { VariableExport::exportVariable(g_os, g_v); }
#ifndef GV_NOIO
X void drv_io() { VariableExport::exportVariable(g_v); }
#endif
#endif
#ifdef GV_LOG
#include <GTMesh/Debug/JSONLogger.h>
// access to the private members of the log (explicit instantiation)
template <class Tag, class T, T JSONLogger::*M> struct Open { friend T& at(JSONLogger& l, Tag) { return l.*M; } };
struct TF; struct TG; struct TW; struct TN;
std::ofstream*& at(JSONLogger&, TF*); int& at(JSONLogger&, TG*); bool& at(JSONLogger&, TW*); std::string& at(JSONLogger&, TN*);
template struct Open<TF*, std::ofstream*, &JSONLogger::logFile>; template struct Open<TG*, int, &JSONLogger::groupIndex>; template struct Open<TW*, bool, &JSONLogger::firstWrite>; template struct Open<TN*, std::string, &JSONLogger::logFileName>;
// the deleting destructor of a stream (its virtual table is given by the contract of its constructor)
X void release_stream(std::ofstream*); X void use_release() { release_stream(nullptr); }
#define LF at(g_log, (TF*)0)
extern JSONLogger g_log; extern Box g_a, g_b; struct Txt { char c; }; extern Txt g_tname, g_tname2, g_tpath; static const char* const g_name = &g_tname.c; static const char* const g_name2 = &g_tname2.c; static const char* const g_path = &g_tpath.c; extern const std::string g_file; extern int g_line;
X long ob_a() { return g_a.id; } X long ob_b() { return g_b.id; }
X int ob_line() { return g_line; } X int ob_group() { return at(g_log, (TG*)0); } X bool ob_first() { return at(g_log, (TW*)0); } X bool ob_open() { return LF != nullptr; }
X const char* ob_name() { return g_name; } X const char* ob_name2() { return g_name2; } X const char* ob_path() { return g_path; } X const std::string* ob_file() { return &g_file; } X const char* ob_logname() { return at(g_log, (TN*)0).c_str(); }
static void open_log() { LF = new std::ofstream; }
static void no_log() { LF = nullptr; }
X void log_w1() { open_log(); g_log.writeVar(g_line, g_file, g_name, g_a); }
X void log_w2() { open_log(); g_log.writeVar(g_line, g_file, g_name, g_a, g_name2, g_b); }
X void log_s1() { open_log(); g_log.writeVar(g_name, g_a); }
X void log_s2() { open_log(); g_log.writeVar(g_name, g_a, g_name2, g_b); }
X void log_n1() { no_log(); g_log.writeVar(g_line, g_file, g_name, g_a); }
X void log_ns() { no_log(); g_log.writeVar(g_name, g_a); }
X void log_d() { open_log(); g_log.destroy(); }
X void log_dd() { open_log(); g_log.destroy(); g_log.destroy(); }
X void log_dn() { no_log(); g_log.destroy(); }
X void log_c() { open_log(); g_log.create(g_path); }
X void log_cn() { no_log(); g_log.create(g_path); }
X void log_x() { open_log(); g_log.~JSONLogger(); }
#endif
