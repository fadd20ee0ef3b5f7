// comparator and projection wrappers (C10)
#include "nt.h"
#include <cpp-sort/comparators/flip.h>
#include <cpp-sort/comparators/not_fn.h>
#include <cpp-sort/comparators/projection_compare.h>
#include <cpp-sort/utility/functional.h>
#include <cpp-sort/utility/as_function.h>
using namespace nt; using namespace cppsort;
// records value category and constness of the arguments and of the function object
static std::string lg;
template<class T> const char* cat() { return std::is_lvalue_reference<T>::value ? (std::is_const<std::remove_reference_t<T>>::value ? "cl" : "l") : (std::is_const<std::remove_reference_t<T>>::value ? "cr" : "r"); }
struct V { int k; };
struct Rel { int salt = 0; template<class A, class B> bool operator()(A&& a, B&& b) { lg += std::string("F(") + cat<A&&>() + "," + cat<B&&>() + ")m" + std::to_string(salt); return go(a.k, b.k); } template<class A, class B> bool operator()(A&& a, B&& b) const { lg += std::string("F(") + cat<A&&>() + "," + cat<B&&>() + ")c" + std::to_string(salt); return go(a.k, b.k); }
    bool go(int a, int b) const { return ((a * 7 + b * 13 + salt) % 5) < 2; } };   // an arbitrary asymmetric relation
struct P1 : utility::projection_base { int s = 0; template<class A> V operator()(A&& a) const { lg += std::string("P1(") + cat<A&&>() + ")"; return {a.k * 3 + 1 + s}; } };
struct P2 { template<class A> V operator()(A&& a) const { lg += std::string("P2(") + cat<A&&>() + ")"; return {a.k * a.k + 2}; } };
struct Pass : utility::projection_base { template<class A> A&& operator()(A&& a) const { lg += std::string("I(") + cat<A&&>() + ")"; return std::forward<A>(a); } };
static bool R(int a, int b, int s = 0) { return Rel{s}.go(a, b); }
static V s1{0}, s2{0};
template<class F> void call(const char* nm, F f, int a, int b, bool want, const char* wl, bool sw) { // the four combinations of constness
    tick(); ++nontriv; snprintf(ctx, sizeof ctx, "%s a=%d b=%d", nm, a, b); V x{a}, y{b}; const V cx{a}, cy{b}; const F cf = f;
    auto ck = [&](bool r, const char* h, const std::string& e) { if (bool(r) != want) fail("C10", "%s gives %d", h, !want); if (wl && lg.find(e) == std::string::npos) fail("C10", "%s: called as %s, expected %s", h, lg.c_str(), e.c_str()); lg.clear(); };
    auto e = [&](const char* p, const char* q) { return wl ? std::string(wl) + (sw ? std::string(q) + "," + p : std::string(p) + "," + q) + ")" : std::string(); };
    ck(f(x, y), "lvalue call", e("l", "l")); ck(f(cx, y), "const argument call", e("cl", "l")); ck(f(x, cy), "const argument call", e("l", "cl")); ck(cf(x, y), "const function call", e("l", "l")); ck(f(V{a}, y), "rvalue argument call", e("r", "l")); ck(cf(x, std::move(cy)), "const rvalue argument call", e("l", "cr")); ck(F(f)(x, V{b}), "rvalue function call", e("l", "r")); ck(std::move(cf)(V{a}, V{b}), "const rvalue function call", e("r", "r")); }
template<class F> void proj(const char* nm, const F& f, int a, int want, const char* wl) { tick(); ++nontriv; snprintf(ctx, sizeof ctx, "%s a=%d", nm, a); V x{a}; const V cx{a}; F g = f; lg.clear(); if (g(x).k != want) fail("C10", "gives %d", g(x).k); lg.clear(); if (f(cx).k != want) fail("C10", "const gives %d", f(cx).k); lg.clear(); (void)f(V{a}); if (wl && lg != wl) fail("C10", "calls %s, expected %s", lg.c_str(), wl); lg.clear(); }
static bool fun(const V& a, const V& b) { return R(a.k, b.k); }
struct Mem { int k; int neg() const { return -k; } bool lt(const Mem& o) const { return R(k, o.k); } };
int main(int c, char** v) { init(c, v);
  for (int a = -6; a < 7; ++a) for (int b = -6; b < 7; ++b) for (int s : {0, 3}) { Rel r{s}; bool f = R(a, b, s), g = R(b, a, s);
    call("flip", flip(r), a, b, g, "F(", true); call("not_fn", not_fn(r), a, b, !f, "F(", false); call("flip flip", flip(flip(r)), a, b, f, "F(", false); call("not_fn not_fn", not_fn(not_fn(r)), a, b, f, "F(", false);
    call("flip not_fn", flip(not_fn(r)), a, b, !g, "F(", true); call("not_fn flip", not_fn(flip(r)), a, b, !g, "F(", true); call("flip not_fn flip", flip(not_fn(flip(r))), a, b, !f, "F(", false); call("not_fn flip not_fn", not_fn(flip(not_fn(r))), a, b, g, "F(", true);
    call("flip not_fn flip not_fn", flip(not_fn(flip(not_fn(r)))), a, b, f, "F(", false);
    const auto fl = flip(r); call("flip of a const flip", flip(fl), a, b, f, "F(", false); const auto nf = not_fn(r); call("not_fn of a const not_fn", not_fn(nf), a, b, f, "F(", false); call("base", flip(r).base(), a, b, f, "F(", false); call("base of not_fn", not_fn(r).base(), a, b, f, "F(", false);
    int pa = a * 3 + 1, pb = b * 3 + 1; bool pf = R(pa, pb, s), pg = R(pb, pa, s); auto pc = make_projection_compare(r, P1{});
    call("projection_compare", pc, a, b, pf, nullptr, false); call("flip projection_compare", flip(pc), a, b, pg, nullptr, false); call("not_fn projection_compare", not_fn(pc), a, b, !pf, nullptr, false); call("flip flip projection_compare", flip(flip(pc)), a, b, pf, nullptr, false); call("flip not_fn projection_compare", flip(not_fn(pc)), a, b, !pg, nullptr, false); call("not_fn flip projection_compare", not_fn(flip(pc)), a, b, !pg, nullptr, false); call("not_fn not_fn projection_compare", not_fn(not_fn(pc)), a, b, pf, nullptr, false); call("flip not_fn flip projection_compare", flip(not_fn(flip(pc))), a, b, !pf, nullptr, false);
    call("projection_compare identity", make_projection_compare(r, utility::identity{}), a, b, f, "F(", false); call("projection_compare pass-through", make_projection_compare(r, Pass{}), a, b, f, "F(", false); call("projection_compare of flip", make_projection_compare(flip(r), P1{}), a, b, pg, nullptr, false); call("projection_compare of not_fn", make_projection_compare(not_fn(r), P1{}), a, b, !pf, nullptr, false);
    call("projection_compare nested", make_projection_compare(pc, P2{}), a, b, R((a*a+2)*3+1, (b*b+2)*3+1, s), nullptr, false);
    if (pc.comparison().salt != s) fail("C10", "comparison() lost its state"); 
    call("function pointer flip", flip(&fun), a, b, R(b, a), nullptr, false); call("function pointer not_fn", not_fn(&fun), a, b, !R(a, b), nullptr, false);
    call("as_comparison", utility::as_comparison(r), a, b, f, "F(", false); call("as_comparison as_comparison", utility::as_comparison(utility::as_comparison(r)), a, b, f, "F(", false); call("as_comparison function", utility::as_comparison(&fun), a, b, R(a, b), nullptr, false);
    call("as_function", utility::as_function(r), a, b, f, "F(", false);
    snprintf(ctx, sizeof ctx, "member pointers a=%d b=%d", a, b); Mem ma{a}, mb{b};
    if (make_projection_compare(std::less<>{}, &Mem::k)(ma, mb) != (a < b)) fail("C10", "data member projection"); if (make_projection_compare(std::less<>{}, &Mem::neg)(ma, mb) != (-a < -b)) fail("C10", "member function projection"); if (flip(&Mem::lt)(ma, mb) != R(b, a)) fail("C10", "flip of a member function"); if (not_fn(&Mem::lt)(ma, mb) != !R(a, b)) fail("C10", "not_fn of a member function"); if (utility::as_projection(&Mem::k)(ma) != a) fail("C10", "as_projection of a data member"); if (utility::as_function(&Mem::k)(ma) != a) fail("C10", "as_function of a data member");
    if (flip(make_projection_compare(std::less<>{}, &Mem::k))(ma, mb) != (b < a)) fail("C10", "flip of a projection_compare");
    proj("P1|P2", P1{} | P2{}, a, (a*3+1)*(a*3+1)+2, "P1(r)P2(r)"); proj("P1|P1", P1{} | P1{}, a, (a*3+1)*3+1, "P1(r)P1(r)"); proj("as_projection(P2)|P1", utility::as_projection(P2{}) | P1{}, a, (a*a+2)*3+1, "P2(r)P1(r)"); proj("P1|identity", P1{} | utility::identity{}, a, a*3+1, "P1(r)"); proj("identity|P1", utility::identity{} | P1{}, a, a*3+1, "P1(r)"); proj("P1|P2|P1", P1{} | P2{} | P1{}, a, ((a*3+1)*(a*3+1)+2)*3+1, "P1(r)P2(r)P1(r)"); proj("P1|(Pass|P2)", P1{} | (Pass{} | P2{}), a, (a*3+1)*(a*3+1)+2, "P1(r)I(r)P2(r)"); { P1 st; st.s = 5; proj("stateful|P2", st | P2{}, a, (a*3+6)*(a*3+6)+2, "P1(r)P2(r)"); proj("P2|stateful", utility::as_projection(P2{}) | st, a, (a*a+2)*3+6, nullptr); }
    { V x{a}; lg.clear(); auto pp = Pass{} | Pass{}; V& y = pp(x); if (&y != &x) fail("C10", "a pipe of pass-through projections returns another object"); const V z{a}; const V& w = pp(z); if (&w != &z || lg != "I(l)I(l)I(cl)I(cl)") fail("C10", "constness lost in a pipe: %s", lg.c_str()); lg.clear(); int arr[1] = {a}; if (&utility::indirect{}(arr) != arr) fail("C10", "indirect"); auto id = utility::identity{} | utility::identity{}; if (&id(x) != &x) fail("C10", "identity"); auto ip = utility::indirect{} | [](int q) { return q + 1; }; if (ip(arr) != a + 1) fail("C10", "indirect | function"); auto mp = utility::as_projection(&Mem::k) | std::negate<>{}; if (mp(ma) != -a) fail("C10", "member | function"); auto mp2 = &Mem::neg | utility::as_projection(std::negate<>{}); if (mp2(ma) != a) fail("C10", "member function | projection"); }
#if __cplusplus >= 201703L
    { using FC = utility::function_constant<&fun>; if (FC{}(V{a}, V{b}) != R(a, b) || FC{} != &fun || flip(FC{})(V{a}, V{b}) != R(b, a)) fail("C10", "function_constant"); using FM = utility::function_constant<&Mem::k>; if (FM{}(ma) != a) fail("C10", "function_constant of a member"); }
#endif
  }
  static_assert(std::is_same<decltype(flip(flip(Rel{}))), Rel>::value, ""); static_assert(std::is_same<decltype(not_fn(not_fn(Rel{}))), Rel>::value, "");
  samples.push_back(ctx); return finish(); }
