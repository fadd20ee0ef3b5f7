// contracts of the comparator and projection wrappers (C10): the user's functions are uninterpreted and
// see the value category and constness of their arguments and the constness of the function object
#include "vcs.h"
#include <functional>
#include <type_traits>
#include <utility>
#include <cpp-sort/comparators/flip.h>
#include <cpp-sort/comparators/not_fn.h>
#include <cpp-sort/comparators/projection_compare.h>
#include <cpp-sort/utility/as_function.h>
#include <cpp-sort/utility/functional.h>
using namespace cppsort; namespace U = cppsort::utility;
struct V { int k; };
enum { L, CL, R, CR };
template<class T> constexpr int cat() { return (std::is_lvalue_reference<T>::value ? 0 : 2) + (std::is_const<std::remove_reference_t<T>>::value ? 1 : 0); }
struct F { int s; template<class A, class B> bool operator()(A&& a, B&& b) { return vc_ufb(s, 0, cat<A&&>(), a.k, cat<B&&>(), b.k); } template<class A, class B> bool operator()(A&& a, B&& b) const { return vc_ufb(s, 1, cat<A&&>(), a.k, cat<B&&>(), b.k); } };
template<int N> struct P : U::projection_base { int s; explicit P(int s): s(s) {} template<class A> V operator()(A&& a) { return {vc_ufi((s ^ N), 0, cat<A&&>(), a.k)}; } template<class A> V operator()(A&& a) const { return {vc_ufi((s ^ N), 1, cat<A&&>(), a.k)}; } };
struct Q { int s; template<class A> V operator()(A&& a) { return {vc_ufi(s, 4, cat<A&&>(), a.k)}; } template<class A> V operator()(A&& a) const { return {vc_ufi(s, 5, cat<A&&>(), a.k)}; } };
struct Pass : U::projection_base { template<class A> A&& operator()(A&& a) const { return std::forward<A>(a); } };
template<class G> bool as(int c, G& g, V& a, V& b, int ca, int cb) {
#define C2(x, y) (c == 0 ? g(x, y) : c == 1 ? static_cast<const G&>(g)(x, y) : c == 2 ? std::move(g)(x, y) : static_cast<const G&&>(g)(x, y))
#define C1(x) (cb == L ? C2(x, b) : cb == CL ? C2(x, static_cast<const V&>(b)) : cb == R ? C2(x, static_cast<V&&>(b)) : C2(x, static_cast<const V&&>(b)))
    return ca == L ? C1(a) : ca == CL ? C1(static_cast<const V&>(a)) : ca == R ? C1(static_cast<V&&>(a)) : C1(static_cast<const V&&>(a)); }
// for every way of calling: g behaves as want(constness of the callee, category a, a, category b, b)
template<class G, class W> void same(G g, W want) { V a{any<int>()}, b{any<int>()};
    for (int c = 0; c < 4; ++c) for (int ca = 0; ca < 4; ++ca) for (int cb = 0; cb < 4; ++cb) { bool w = want(c & 1, ca, a.k, cb, b.k); ASSERT(as(c, g, a, b, ca, cb) == w, "the wrapper denotes the documented function for every value category"); } }
static bool uf(int s, int c, int x, int a, int y, int b) { return vc_ufb(s, c, x, a, y, b); }
#define S int s = any<int>(); F f{s}
#define PLAIN [=](int c, int x, int a, int y, int b) { return uf(s, c, x, a, y, b); }
#define NEG [=](int c, int x, int a, int y, int b) { return !uf(s, c, x, a, y, b); }
#define FLIP [=](int c, int x, int a, int y, int b) { return uf(s, c, y, b, x, a); }
#define NEGFLIP [=](int c, int x, int a, int y, int b) { return !uf(s, c, y, b, x, a); }
VC(flip) { S; same(flip(f), FLIP); }
VC(not_fn) { S; same(not_fn(f), NEG); }
VC(flip_flip) { S; same(flip(flip(f)), PLAIN); static_assert(std::is_same<decltype(flip(flip(f))), F>::value, ""); }
VC(not_not) { S; same(not_fn(not_fn(f)), PLAIN); static_assert(std::is_same<decltype(not_fn(not_fn(f))), F>::value, ""); }
VC(flip_not) { S; same(flip(not_fn(f)), NEGFLIP); }
VC(not_flip) { S; same(not_fn(flip(f)), NEGFLIP); }
VC(flip_not_flip) { S; same(flip(not_fn(flip(f))), NEG); }
VC(not_flip_not) { S; same(not_fn(flip(not_fn(f))), FLIP); }
VC(flip_not_flip_not) { S; same(flip(not_fn(flip(not_fn(f)))), PLAIN); }
VC(flip_const) { S; const auto g = flip(f); same(flip(g), PLAIN); const F h = f; same(flip(h), FLIP); const auto n = not_fn(flip(f)); same(flip(n), NEG); }
VC(not_const) { S; const auto g = not_fn(f); same(not_fn(g), PLAIN); const F h = f; same(not_fn(h), NEG); const auto n = flip(not_fn(f)); same(not_fn(n), FLIP); }
VC(base) { S; same(flip(f).base(), PLAIN); same(not_fn(f).base(), PLAIN); }
#define SP int s = any<int>(), t = any<int>(); F f{s}; P<0> p(t)
#define PC(c, x, a, y, b) uf(s, c, R, vc_ufi(t, c, x, a), R, vc_ufi(t, c, y, b))
#define LAM(e) [=](int c, int x, int a, int y, int b) { return e; }
VC(projection_compare) { SP; same(make_projection_compare(f, p), LAM(PC(c, x, a, y, b))); }
VC(projection_compare_flip) { SP; same(flip(make_projection_compare(f, p)), LAM(uf(s, c, R, vc_ufi(t, c, y, b), R, vc_ufi(t, c, x, a)))); }
VC(projection_compare_flip_flip) { SP; same(flip(flip(make_projection_compare(f, p))), LAM(PC(c, x, a, y, b))); }
VC(projection_compare_not) { SP; same(not_fn(make_projection_compare(f, p)), LAM(!PC(c, x, a, y, b))); }
VC(projection_compare_not_not) { SP; same(not_fn(not_fn(make_projection_compare(f, p))), LAM(PC(c, x, a, y, b))); }
VC(projection_compare_flip_not) { SP; same(flip(not_fn(make_projection_compare(f, p))), LAM(!uf(s, c, R, vc_ufi(t, c, y, b), R, vc_ufi(t, c, x, a)))); }
VC(projection_compare_of_flip) { SP; same(make_projection_compare(flip(f), p), LAM(uf(s, c, R, vc_ufi(t, c, y, b), R, vc_ufi(t, c, x, a)))); }
VC(projection_compare_of_not) { SP; same(make_projection_compare(not_fn(f), p), LAM(!PC(c, x, a, y, b))); }
VC(projection_compare_identity) { S; same(make_projection_compare(f, U::identity{}), PLAIN); }
VC(projection_compare_pass) { S; same(make_projection_compare(f, Pass{}), PLAIN); }
VC(projection_compare_nested) { SP; P<7> q(t); same(make_projection_compare(make_projection_compare(f, p), q), LAM(uf(s, c, R, vc_ufi(t, c, R, vc_ufi((t ^ 7), c, x, a)), R, vc_ufi(t, c, R, vc_ufi((t ^ 7), c, y, b))))); }
VC(projection_compare_parts) { SP; auto g = make_projection_compare(f, p); ASSERT(g.comparison().s == s && g.projection().s == t, "the comparison and projection are the given ones"); same(g.comparison(), PLAIN); }
VC(as_comparison) { S; same(U::as_comparison(f), PLAIN); same(U::as_comparison(U::as_comparison(f)), PLAIN); const F h = f; same(U::as_comparison(h), PLAIN); }
VC(as_function) { S; V a{any<int>()}, b{any<int>()}; const F h = f; ASSERT(&U::as_function(f) == &f && &U::as_function(h) == &h, "as_function of a function object is that object"); same(U::as_function(f), PLAIN); }
// projections
template<class G> V one(int c, G& g, V& a, int ca) {
#define D2(x) (c == 0 ? g(x) : c == 1 ? static_cast<const G&>(g)(x) : c == 2 ? std::move(g)(x) : static_cast<const G&&>(g)(x))
    return ca == L ? D2(a) : ca == CL ? D2(static_cast<const V&>(a)) : ca == R ? D2(static_cast<V&&>(a)) : D2(static_cast<const V&&>(a)); }
template<class G, class W> void psame(G g, W want) { V a{any<int>()}; for (int c = 0; c < 4; ++c) for (int ca = 0; ca < 4; ++ca) { int w = want(c & 1, ca, a.k); ASSERT(one(c, g, a, ca).k == w, "the projection denotes the documented function for every value category"); } }
#define PL(e) [=](int c, int x, int a) { return e; }
VC(pipe) { int t = any<int>(), u = any<int>(); P<0> p(t); P<3> q(u); psame(p | q, PL(vc_ufi((u ^ 3), c, R, vc_ufi(t, c, x, a)))); }
VC(pipe_three) { int t = any<int>(), u = any<int>(), w = any<int>(); P<0> p(t); P<3> q(u); P<5> r(w); psame(p | q | r, PL(vc_ufi((w ^ 5), c, R, vc_ufi((u ^ 3), c, R, vc_ufi(t, c, x, a))))); psame(p | (q | r), PL(vc_ufi((w ^ 5), c, R, vc_ufi((u ^ 3), c, R, vc_ufi(t, c, x, a))))); }
VC(pipe_function) { int t = any<int>(), u = any<int>(); P<0> p(t); Q q{u}; psame(p | q, PL(vc_ufi(u, 4 + c, R, vc_ufi(t, c, x, a)))); psame(q | p, PL(vc_ufi(t, c, R, vc_ufi(u, 4 + c, x, a)))); }
VC(pipe_identity) { int t = any<int>(); P<0> p(t); psame(p | U::identity{}, PL(vc_ufi(t, c, x, a))); psame(U::identity{} | p, PL(vc_ufi(t, c, x, a))); psame(Pass{} | p, PL(vc_ufi(t, c, x, a))); psame(p | Pass{}, PL(vc_ufi(t, c, x, a))); }
VC(as_projection) { int t = any<int>(); Q q{t}; psame(U::as_projection(q), PL(vc_ufi(t, 4 + c, x, a))); psame(U::as_projection(U::as_projection(q)), PL(vc_ufi(t, 4 + c, x, a))); psame(U::as_projection(q) | P<1>(t), PL(vc_ufi((t ^ 1), c, R, vc_ufi(t, 4 + c, x, a)))); }
VC(members) { V a{any<int>()}, b{any<int>()}; const V& ca = a; ASSERT(&U::as_function(&V::k)(a) == &a.k && &U::as_function(&V::k)(ca) == &a.k && &U::as_projection(&V::k)(a) == &a.k, "a pointer to member designates the member");
    ASSERT(make_projection_compare(std::less<>{}, &V::k)(a, b) == (a.k < b.k) && flip(make_projection_compare(std::less<>{}, &V::k))(a, b) == (b.k < a.k), "comparison of members"); }
VC(references) { V a{any<int>()}; const V& ca = a; U::identity id; V* pa = &a; auto pp = Pass{} | Pass{};
    ASSERT(&id(a) == &a && &id(ca) == &a && &pp(a) == &a && &pp(ca) == &a, "identity and pipes return the same object"); ASSERT(&U::indirect{}(pa) == &a, "indirect dereferences");
    static_assert(std::is_same<decltype(id(a)), V&>::value && std::is_same<decltype(id(ca)), const V&>::value && std::is_same<decltype(id(V{})), V&&>::value, ""); ASSERT(a.k == ca.k, "unchanged"); }
static bool fun(const V& a, const V& b) { return vc_ufb(0, 0, 0, a.k, 0, b.k); }
static bool fun2(const V& a, const V& b) { return vc_ufb(1, 0, 0, a.k, 0, b.k); }
VC(functions) { auto w = [](int i) { return [i](int, int, int a, int, int b) { return vc_ufb(i, 0, 0, a, 0, b); }; }; auto fl = [](int, int, int a, int, int b) { return vc_ufb(0, 0, 0, b, 0, a); }; auto ng = [](int, int, int a, int, int b) { return !vc_ufb(0, 0, 0, a, 0, b); };
    same(&fun, w(0)); same(flip(&fun), fl); same(not_fn(&fun), ng); same(flip(flip(&fun)), w(0)); same(not_fn(flip(flip(not_fn(&fun)))), w(0)); same(U::as_comparison(&fun2), w(1)); same(U::function_constant<&fun>{}, w(0)); same(flip(U::function_constant<&fun>{}), fl); }
