// contract of sorter_facade and of the sorting functions (C18): whatever the call form, the sorter's own function is entered
// exactly once, with the bounds of the collection, a comparison and a projection which together denote the requested order,
// and its result is what the call returns. The user's comparison and projection are uninterpreted functions.
#pragma once
#include "vcs.h"
#include <array>
#include <functional>
#include <type_traits>
#include <utility>
#include <cpp-sort/sort.h>
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/stable_sort.h>
#include <cpp-sort/utility/as_function.h>
#include <cpp-sort/utility/functional.h>
using namespace cppsort; namespace U = cppsort::utility;
static int S = 0;   // seed of the uninterpreted functions
struct W { int k; bool before(const W& o) const { return vc_ufb(S, 1, k, o.k, 0, 0); } int proj() const { return vc_ufi(S, 2, k, 0); }
    friend bool operator<(const W& a, const W& b) { return vc_ufb(S, 3, a.k, b.k, 0, 0); } friend bool operator>(const W& a, const W& b) { return vc_ufb(S, 4, a.k, b.k, 0, 0); } };
static bool fcmp(const W& a, const W& b) { return vc_ufb(S, 5, a.k, b.k, 0, 0); } static bool icmp(const int& a, const int& b) { return vc_ufb(S, 6, a, b, 0, 0); } static int fproj(const W& a) { return vc_ufi(S, 7, a.k, 0); }
struct Cw { int s; bool operator()(const W& a, const W& b) const { return vc_ufb(S, 8, s, a.k, b.k, 0); } };             // stateful comparison of elements
struct Ci { int s; bool operator()(int a, int b) const { return vc_ufb(S, 9, s, a, b, 0); } };                           // stateful comparison of projected values
struct Pw { int s; int operator()(const W& a) const { return vc_ufi(S, 10, s, a.k); } };                                   // stateful projection
struct Call { int n; const void *f, *l; bool ab, ba, aa; int r; };
static Call G;
template<class It, class C, class P> int rec(It f, It l, C c, P p) { auto&& cc = U::as_function(c); auto&& pp = U::as_function(p); ++G.n; G.f = &*f; G.l = &*f + (l - f); W* a = &*f;
    G.ab = cc(pp(a[0]), pp(a[1])); G.ba = cc(pp(a[1]), pp(a[0])); G.aa = cc(pp(a[0]), pp(a[0])); return G.r; }
struct Base { using iterator_category = std::random_access_iterator_tag; using is_always_stable = std::false_type; };
struct full_impl : Base { template<class It, class C = std::less<>, class P = U::identity> auto operator()(It f, It l, C c = {}, P p = {}) const -> std::enable_if_t<is_projection_iterator_v<P, It, C>, int> { return rec(f, l, c, p); } };
struct cmp_impl : Base { template<class It, class C = std::less<>> auto operator()(It f, It l, C c = {}) const -> std::enable_if_t<not is_projection_iterator_v<C, It>, int> { return rec(f, l, c, U::identity{}); } };
struct proj_impl : Base { template<class It, class P = U::identity> auto operator()(It f, It l, P p = {}) const -> std::enable_if_t<is_projection_iterator_v<P, It>, int> { return rec(f, l, std::less<>{}, p); } };
struct coll_impl : Base { template<class Cl, class C = std::less<>, class P = U::identity> auto operator()(Cl&& x, C c = {}, P p = {}) const -> std::enable_if_t<is_projection_v<P, Cl, C>, int> { return rec(std::begin(x), std::end(x), c, p); }
                          template<class It, class C = std::less<>, class P = U::identity> auto operator()(It f, It l, C c = {}, P p = {}) const -> std::enable_if_t<is_projection_iterator_v<P, It, C>, int> { return rec(f, l, c, p); } };
struct collonly_impl : Base { template<class Cl, class C = std::less<>, class P = U::identity> auto operator()(Cl&& x, C c = {}, P p = {}) const -> std::enable_if_t<is_projection_v<P, Cl, C>, int> { return rec(std::begin(x), std::end(x), c, p); } };
struct full_sorter : sorter_facade<full_impl> {}; struct cmp_sorter : sorter_facade<cmp_impl> {}; struct proj_sorter : sorter_facade<proj_impl> {}; struct coll_sorter : sorter_facade<coll_impl> {};
template<class T> struct Span { T *b, *e; T* begin() const { return b; } T* end() const { return e; } };
enum { N = 3 };
template<class C, class P> static void want(int r, const W* a, C c, P p, const char* nm) {
    (void)nm; ASSERT(G.n == 1, "the sorter runs exactly once"); ASSERT(G.f == a && G.l == a + N, "the sorter gets the bounds of the collection"); ASSERT(r == G.r, "the result of the sorter is returned");
    auto&& cc = U::as_function(c); auto&& pp = U::as_function(p);
    ASSERT(G.ab == bool(cc(pp(a[0]), pp(a[1]))) && G.ba == bool(cc(pp(a[1]), pp(a[0]))) && G.aa == bool(cc(pp(a[0]), pp(a[0]))), "the comparison and the projection denote the requested order"); }
template<class A> static void reset(A& a) { G = {}; G.r = any<int>(); for (int i = 0; i < N; ++i) a[i].k = any<int>(); }
static const auto LT = std::less<>{}; static const auto ID = U::identity{};
// every container form; args is what is passed after the collection
template<class Sr, class C, class P, class... A> static void forms(const Sr& s, C c, P p, A... args) {
    { W a[N]; reset(a); int r = s(a, args...); want(r, a, c, p, "array"); }
    { W a[N]; reset(a); int r = s(a, a + N, args...); want(r, a, c, p, "iterators"); }
    { std::array<W, N> a; reset(a); int r = s(a, args...); want(r, a.data(), c, p, "std::array"); }
    { std::array<W, N> a; reset(a); int r = s(a.begin(), a.end(), args...); want(r, a.data(), c, p, "std::array iterators"); }
    { W a[N]; reset(a); int r = s(Span<W>{a, a + N}, args...); want(r, a, c, p, "span-like temporary"); }
    { W a[N]; reset(a); const Span<W> q{a, a + N}; int r = s(q, args...); want(r, a, c, p, "const span"); }
    { W a[N]; reset(a); Sr t = s; auto u = std::move(t); int r = u(a, args...); want(r, a, c, p, "copied sorter"); }
    { W a[N]; reset(a); int r = cppsort::sort(s, a, args...); want(r, a, c, p, "sort(sorter, collection)"); }
    { W a[N]; reset(a); int r = cppsort::sort(s, a, a + N, args...); want(r, a, c, p, "sort(sorter, iterators)"); } }
#define LAMC [x](const W& a, const W& b) { return vc_ufb(S, 11, x, a.k, b.k, 0); }
#define LAMP [x](const W& a) { return vc_ufi(S, 12, x, a.k); }
