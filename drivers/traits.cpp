// Access to the members of described classes, one position of the traits at a time.
#include <cstddef>
#include <utility>
#include <array>
#include <vector>
#include <tuple>
#include <string>
#include <functional>
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/Traits/TraitsBind/TraitsBind.h>
#define X extern "C"
struct In { int a; double b; };
struct S {
    int i; double d; char c; In in; double x, y; short s; long l;
    double getX() const { return x; }
    void setX(const double& v) { x = v; }
    double getY() { return y; }
    void setY(double v) { y = v; }
    const short& getS() const { return s; }
    short& refS() { return s; }
};
static long freeGet(const S& o) { return o.l; }
static void freeSet(S& o, const long& v) { o.l = v; }
static const double& freeCRef(const S& o) { return o.in.b; }
static double& freeRef(S& o) { return o.in.b; }
struct GetA { int operator()(const S& o) const { return o.in.a; } };
struct SetA { void operator()(S& o, const int& v) const { o.in.a = v; } };
struct RefA { int& operator()(S& o) const { return o.in.a; } };
MAKE_ATTRIBUTE_TRAIT(In, a, b);
MAKE_CUSTOM_TRAIT(S, "int", &S::i, "dbl", &S::d, "chr", &S::c, "inner", &S::in,
                  "x", std::make_pair(&S::getX, &S::setX), "y", std::make_pair(&S::getY, &S::setY), "s", std::make_pair(&S::getS, &S::refS),
                  "free", std::make_pair(freeGet, freeSet), "ref", std::make_pair(freeCRef, freeRef), "fun", std::make_pair(GetA{}, SetA{}), "fur", std::make_pair(GetA{}, RefA{}));
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(S, "second", d, "first", i);
template <typename A, typename B> struct Tm { A a; B b; A a2; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Tm<A, B>), (typename A, typename B), a, b, a2);
extern S g_a, g_b;
X int ob_i(const S* o) { return o->i; }
X double ob_d(const S* o) { return o->d; }
X char ob_c(const S* o) { return o->c; }
X int ob_ia(const S* o) { return o->in.a; }
X double ob_ib(const S* o) { return o->in.b; }
X double ob_x(const S* o) { return o->x; }
X double ob_y(const S* o) { return o->y; }
X short ob_s(const S* o) { return o->s; }
X long ob_l(const S* o) { return o->l; }
X S* ob_a() { return &g_a; }
X S* ob_b() { return &g_b; }
#ifdef GV_P
#ifndef GV_TR
#define GV_TR DefaultTraits
#endif
typedef decltype(GV_TR<S>::getTraits()) TrC;
typedef std::remove_const_t<TrC> Tr;
typedef std::remove_reference_t<Tr::type<GV_P>> T;
extern T g_v;
#ifdef GV_INNER
X int ob_va() { return g_v.a; }
X double ob_vb() { return g_v.b; }
#else
X T ob_v() { return g_v; }
#endif
X void drv_get() { auto t = GV_TR<S>::getTraits(); g_v = t.getValue<GV_P>(g_a); }
X void drv_getp() { auto t = GV_TR<S>::getTraits(); g_v = t.getValue<GV_P>(&g_a); }
X void drv_set() { auto t = GV_TR<S>::getTraits(); t.setValue<GV_P>(g_a, g_v); }
X void drv_rget() { auto t = GV_TR<S>::getTraits(); g_v = t.getReference<GV_P>().getValue(g_a); }
#ifdef GV_SETP
X void drv_setp() { auto t = GV_TR<S>::getTraits(); t.setValue<GV_P>(&g_a, g_v); }
#endif
#ifdef GV_CONST
X void drv_cget() { auto t = GV_TR<S>::getTraits(); const S& o = g_a; g_v = t.getValue<GV_P>(o); }
X void drv_cgetp() { auto t = GV_TR<S>::getTraits(); const S* o = &g_a; g_v = t.getValue<GV_P>(o); }
#endif
#ifdef GV_DIRECT
X void drv_attr() { auto t = GV_TR<S>::getTraits(); t.getAttr<GV_P>(g_a) = g_v; }
X void drv_attrget() { auto t = GV_TR<S>::getTraits(); g_v = t.getAttr<GV_P>(g_a); }
#ifdef GV_SETP
X void drv_attrp() { auto t = GV_TR<S>::getTraits(); t.getAttr<GV_P>(&g_a) = g_v; }
#endif
#endif
X bool drv_name() { auto t = GV_TR<S>::getTraits(); const char* n = t.getName<GV_P>(); static const char e[] = GV_NAME; for (size_t k = 0; k < sizeof(e); k++) if (n[k] != e[k]) return false; return true; }
#endif
#ifdef GV_APPLY
extern unsigned long g_order;
extern double g_sum;
X unsigned long ob_order() { return g_order; }
struct Rec { template <typename R> void operator()(unsigned int i, const R& r, const std::string&) const { g_order = g_order * 16 + i + 1; g_sum = g_sum + r.getValue(g_a); } };
struct Rec2 { template <typename R> void operator()(const R& r, const std::string&) const { g_order = g_order * 16 + sizeof(r.getValue(g_a)); } };
struct Set { template <typename R> void operator()(unsigned int, const R& r, const std::string&) const { r.setValue(g_a, 0); } };
X double ob_sum() { return g_sum; }
X void drv_apply() { DefaultArithmeticTraits<S>::getTraits().apply(Rec()); }
X void drv_apply2() { DefaultArithmeticTraits<S>::getTraits().apply(Rec2()); }
X void drv_zero() { DefaultArithmeticTraits<S>::getTraits().apply(Set()); }
X unsigned drv_size() { return DefaultTraits<S>::size() * 100 + DefaultArithmeticTraits<S>::size() * 10 + DefaultIOTraits<In>::size(); }
X void drv_nested() { get<0>(g_b) = get<0>(g_a); }                       // by position, default arithmetic traits
extern Tm<int, double> g_t; extern int g_i;
X int ob_t0() { return g_t.a; }
X double ob_t1() { return g_t.b; }
X int ob_t2() { return g_t.a2; }
X int ob_gi() { return g_i; }
X void drv_tset() { DefaultTraits<Tm<int, double>>::getTraits().setValue<2>(g_t, g_i); }
X int drv_bind() { auto own = makeTraits<S>("a", &S::i, "b", &S::l); auto b = bindTraits(g_a, own); 
    const auto& t = SelectTraits<S, 0, DefaultTraits, decltype(own)>::getTraitsInstance(b.tupTraits); return int(t.size()) * 10 + int(&b.object == &g_a); }
X long drv_own() { auto own = makeTraits<S>("a", &S::i, "b", &S::l); auto b = bindTraits(g_a, own); return SelectTraitsWithIODefault<S, decltype(own)>::getTraitsInstance(b.tupTraits).template getValue<1>(b.object); }
X int drv_dflt() { auto own = makeTraits<In>("b", &In::b); auto b = bindTraits(g_a, own); return SelectTraitsWithIODefault<S, decltype(own)>::getTraitsInstance(b.tupTraits).template getValue<0>(b.object); }
X double drv_second() { auto sec = makeTraits<In>("b", &In::b); auto own = makeTraits<S>("in", &S::in); auto b = bindTraits(g_a, own, sec);
    return SelectTraitsWithIODefault<In, decltype(own), decltype(sec)>::getTraitsInstance(b.tupTraits).template getValue<0>(own.getValue<0>(b.object)); }
#endif
