// every way of calling a sorter (C18)
#pragma once
#include "nt.h"
#include <array>
#include <memory>
#include <cpp-sort/adapters.h>
#include <cpp-sort/sort.h>
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorters.h>
#include <cpp-sort/stable_sort.h>
#include <cpp-sort/utility/as_function.h>
#include <cpp-sort/utility/functional.h>
using namespace nt; using namespace cppsort; namespace U = cppsort::utility;
struct W { int k, id; bool less_than(const W& o) const { return k < o.k; } int neg() const { return -k; } friend bool operator<(const W& a, const W& b) { return a.k < b.k; } friend bool operator>(const W& a, const W& b) { return b.k < a.k; } friend bool operator==(const W& a, const W& b) { return a.k == b.k; } };
static bool fgt(const W& a, const W& b) { return b.k < a.k; } static bool igt(const int& a, const int& b) { return b < a; } static int fneg(const W& a) { return -a.k; }
struct Gt { template<class A, class B> bool operator()(const A& a, const B& b) const { return b < a; } };
struct Md { bool operator()(int a, int b) const { return (a & 7) != (b & 7) ? (a & 7) < (b & 7) : a < b; } };     // needs ints: proves the projection is applied
static long calls = 0; static int last_ret;
// sorters that natively support one kind of call only
struct Base { using iterator_category = std::random_access_iterator_tag; using is_always_stable = std::false_type; };
template<class It, class C, class P> int go(It f, It l, C c, P p) { ++calls; auto&& cc = U::as_function(c); auto&& pp = U::as_function(p); for (It i = f; i != l; ++i) { It m = i; for (It j = i; j != l; ++j) if (cc(pp(*j), pp(*m))) m = j; if (m != i) { using cppsort::utility::iter_swap; iter_swap(m, i); } } return last_ret = int(17 + (l - f)); }
struct full_impl : Base { template<class It, class C = std::less<>, class P = U::identity> auto operator()(It f, It l, C c = {}, P p = {}) const -> std::enable_if_t<is_projection_iterator_v<P, It, C>, int> { return go(f, l, c, p); } };
struct cmp_impl : Base { template<class It, class C = std::less<>> auto operator()(It f, It l, C c = {}) const -> std::enable_if_t<not is_projection_iterator_v<C, It>, int> { return go(f, l, c, U::identity{}); } };
struct proj_impl : Base { template<class It, class P = U::identity> auto operator()(It f, It l, P p = {}) const -> std::enable_if_t<is_projection_iterator_v<P, It>, int> { return go(f, l, std::less<>{}, p); } };
struct coll_impl : Base { template<class Cl, class C = std::less<>, class P = U::identity> auto operator()(Cl&& x, C c = {}, P p = {}) const -> std::enable_if_t<is_projection_v<P, Cl, C>, int> { return go(std::begin(x), std::end(x), c, p) + 1000; }
                          template<class It, class C = std::less<>, class P = U::identity> auto operator()(It f, It l, C c = {}, P p = {}) const -> std::enable_if_t<is_projection_iterator_v<P, It, C>, int> { return go(f, l, c, p); } };
struct stateful_impl : full_impl { int s; stateful_impl(int x = 3) : s(x) {} template<class It, class C = std::less<>, class P = U::identity> auto operator()(It f, It l, C c = {}, P p = {}) const -> std::enable_if_t<is_projection_iterator_v<P, It, C>, std::unique_ptr<int>> { go(f, l, c, p); return std::make_unique<int>(s); } };
struct full_sorter : sorter_facade<full_impl> {}; struct cmp_sorter : sorter_facade<cmp_impl> {}; struct proj_sorter : sorter_facade<proj_impl> {}; struct coll_sorter : sorter_facade<coll_impl> {}; struct stateful_sorter : sorter_facade<stateful_impl> { stateful_sorter(int x) : sorter_facade<stateful_impl>(x) {} };
template<class T> struct Span { T *b, *e; T* begin() const { return b; } T* end() const { return e; } };
static std::vector<W> mk(const Keys& k) { std::vector<W> v; for (size_t i = 0; i < k.size(); ++i) v.push_back({k[i], int(i)}); return v; }
template<class It, class C, class P> void check(It f, It l, const Keys& k, const char* form, C c, P p) { auto&& cc = U::as_function(c); auto&& pp = U::as_function(p); std::vector<char> seen(k.size(), 0); size_t n = 0; It pr = f; for (It i = f; i != l; ++i, ++n) { if (n >= k.size() || i->id < 0 || i->id >= int(k.size()) || seen[i->id]++ || k[i->id] != i->k) { fail("C18", "%s: not a permutation", form); return; } if (i != f && cc(pp(*i), pp(*pr))) { fail("C18", "%s: not sorted in the requested order at %zu", form, n); return; } pr = i; } if (n != k.size()) fail("C18", "%s: size changed", form); }
static std::string sn;
template<class R, class A> void rt(const char* form, const R& r, const A& want) { if (!(r == want)) fail("C18", "%s: the result of the sorter is lost", form); }
// calls in every container form; args: what is passed after the collection
template<class S, class C, class P, class... A> void forms(const S& s, const char* what, const Keys& k, C c, P p, A... args) {
    auto st = [&](const char* f) { tick(); if (k.size() > 1) ++nontriv; snprintf(ctx, sizeof ctx, "%s %s, %s, on %s", sn.c_str(), what, f, show(k).c_str()); };
    { st("vector"); auto v = mk(k); s(v, args...); check(v.begin(), v.end(), k, "vector", c, p); }
    { st("iterators"); auto v = mk(k); s(v.begin(), v.end(), args...); check(v.begin(), v.end(), k, "iterators", c, p); }
#ifndef FEW
    { st("pointers"); auto v = mk(k); s(v.data(), v.data() + v.size(), args...); check(v.begin(), v.end(), k, "pointers", c, p); }
    { st("span-like rvalue"); auto v = mk(k); s(Span<W>{v.data(), v.data() + v.size()}, args...); check(v.begin(), v.end(), k, "span rvalue", c, p); }
    { st("const span-like lvalue"); auto v = mk(k); const Span<W> q{v.data(), v.data() + v.size()}; s(q, args...); check(v.begin(), v.end(), k, "const span", c, p); }
#endif
    { st("deque"); auto v = mk(k); std::deque<W> d(v.begin(), v.end()); s(d, args...); check(d.begin(), d.end(), k, "deque", c, p); }
#ifndef FEW
    if (k.size() == 6) { st("array"); auto v = mk(k); W a[6]; std::copy(v.begin(), v.end(), a); s(a, args...); check(a, a + 6, k, "array", c, p); std::array<W, 6> b; std::copy(v.begin(), v.end(), b.begin()); s(b, args...); check(b.begin(), b.end(), k, "std::array", c, p); }
    if constexpr (sizeof...(A) < 3) { st("cppsort::sort"); 
        { auto v = mk(k); cppsort::sort(s, v, args...); check(v.begin(), v.end(), k, "sort(sorter, collection)", c, p); }
        { auto v = mk(k); cppsort::sort(s, v.begin(), v.end(), args...); check(v.begin(), v.end(), k, "sort(sorter, iterators)", c, p); } }
#endif
    { st("copy of the sorter"); auto v = mk(k); S t = s; auto u = std::move(t); u(v, args...); check(v.begin(), v.end(), k, "copied sorter", c, p); }
}
template<class... A> void deft(const char* what, const Keys& k, A... args) { }
template<class C, class P, class... A> void generic(const char* what, const Keys& k, C c, P p, A... args) { sn = "cppsort::sort";
    auto st = [&](const char* f) { tick(); if (k.size() > 1) ++nontriv; snprintf(ctx, sizeof ctx, "%s %s on %s", f, what, show(k).c_str()); };
    { st("sort(collection)"); auto v = mk(k); cppsort::sort(v, args...); check(v.begin(), v.end(), k, "", c, p); }
    { st("sort(iterators)"); auto v = mk(k); cppsort::sort(v.begin(), v.end(), args...); check(v.begin(), v.end(), k, "", c, p); }
    { st("sort(list)"); auto v = mk(k); std::list<W> d(v.begin(), v.end()); cppsort::sort(d, args...); check(d.begin(), d.end(), k, "", c, p); }
    auto stab = [&](auto& v) { auto&& cc = U::as_function(c); auto&& pp = U::as_function(p); auto q = v.begin(); bool f = true; for (auto i = v.begin(); i != v.end(); ++i) { if (!f && !cc(pp(*q), pp(*i)) && !cc(pp(*i), pp(*q)) && i->id < q->id) { fail("C18", "stable_sort is not stable"); return; } q = i; f = false; } };
    { st("stable_sort(collection)"); auto v = mk(k); cppsort::stable_sort(v, args...); check(v.begin(), v.end(), k, "", c, p); stab(v); }
    { st("stable_sort(iterators)"); auto v = mk(k); cppsort::stable_sort(v.begin(), v.end(), args...); check(v.begin(), v.end(), k, "", c, p); stab(v); }
    { st("stable_sort(list)"); auto v = mk(k); std::list<W> d(v.begin(), v.end()); cppsort::stable_sort(d, args...); check(d.begin(), d.end(), k, "", c, p); stab(d); }
    { st("stable_sort(sorter, collection)"); auto v = mk(k); cppsort::stable_sort(heap_sorter{}, v, args...); check(v.begin(), v.end(), k, "", c, p); stab(v); }
    { st("stable_sort(sorter, iterators)"); auto v = mk(k); cppsort::stable_sort(heap_sorter{}, v.begin(), v.end(), args...); check(v.begin(), v.end(), k, "", c, p); stab(v); }
}
static const auto LT = std::less<>{}; static const auto ID = U::identity{};
template<class S> void cmps(const S& s, const Keys& k) { // comparison forms
    forms(s, "default comparison", k, LT, ID, std::less<>{}); forms(s, "std::less<W>", k, LT, ID, std::less<W>{}); forms(s, "std::greater<>", k, Gt{}, ID, std::greater<>{}); forms(s, "std::greater<W>", k, Gt{}, ID, std::greater<W>{}); forms(s, "function pointer comparison", k, Gt{}, ID, &fgt); forms(s, "member function comparison", k, LT, ID, &W::less_than); forms(s, "lambda comparison", k, Gt{}, ID, [](const W& a, const W& b) { return b.k < a.k; }); }
template<class S> void projs(const S& s, const Keys& k) { forms(s, "identity projection", k, LT, ID, U::identity{}); forms(s, "data member projection", k, LT, &W::k, &W::k); forms(s, "member function projection", k, LT, &W::neg, &W::neg); forms(s, "function pointer projection", k, LT, &fneg, &fneg); forms(s, "lambda projection", k, LT, &fneg, [](const W& a) { return -a.k; }); }
template<class S> void both(const S& s, const Keys& k) { forms(s, "default comparison and identity", k, LT, ID, std::less<>{}, U::identity{}); forms(s, "greater and identity", k, Gt{}, ID, std::greater<>{}, U::identity{}); forms(s, "greater and data member", k, Gt{}, &W::k, std::greater<>{}, &W::k); forms(s, "less and member function", k, LT, &W::neg, std::less<>{}, &W::neg); forms(s, "std::less<int> and projection", k, LT, &W::neg, std::less<int>{}, &W::neg); forms(s, "non-transparent order and projection", k, Md{}, &W::k, Md{}, &W::k); forms(s, "function pointers", k, Gt{}, &fneg, &igt, &fneg); }
template<class S, class... A> using call_t = decltype(std::declval<const S&>()(std::declval<std::vector<W>&>(), std::declval<A>()...)); template<class V, class S, class... A> struct can_ : std::false_type {}; template<class S, class... A> struct can_<std::void_t<call_t<S, A...>>, S, A...> : std::true_type {};
template<class S, class... A> constexpr bool can = can_<void, S, A...>::value;
template<class S> void fp(const Keys& k) { auto st = [&](const char* f) { tick(); if (k.size() > 1) ++nontriv; snprintf(ctx, sizeof ctx, "%s as function pointer %s on %s", sn.c_str(), f, show(k).c_str()); }; using V = std::vector<W>; using I = V::iterator;
    { st("(V&)"); void(*f)(V&) = S{}; auto v = mk(k); f(v); check(v.begin(), v.end(), k, "", LT, ID); } { st("(I,I)"); void(*f)(I, I) = S{}; auto v = mk(k); f(v.begin(), v.end()); check(v.begin(), v.end(), k, "", LT, ID); }
    { st("(V&&)"); void(*f)(Span<W>&&) = S{}; auto v = mk(k); f(Span<W>{v.data(), v.data() + v.size()}); check(v.begin(), v.end(), k, "", LT, ID); }
    { st("(V&,greater)"); void(*f)(V&, std::greater<>) = S{}; auto v = mk(k); f(v, std::greater<>{}); check(v.begin(), v.end(), k, "", Gt{}, ID); } { st("(I,I,greater)"); void(*f)(I, I, std::greater<>) = S{}; auto v = mk(k); f(v.begin(), v.end(), std::greater<>{}); check(v.begin(), v.end(), k, "", Gt{}, ID); }
    { st("(V&,projection)"); void(*f)(V&, int W::*) = S{}; auto v = mk(k); f(v, &W::k); check(v.begin(), v.end(), k, "", LT, &W::k); } { st("(I,I,projection)"); void(*f)(I, I, int(W::*)() const) = S{}; auto v = mk(k); f(v.begin(), v.end(), &W::neg); check(v.begin(), v.end(), k, "", LT, &W::neg); }
    { st("(V&,greater,projection)"); void(*f)(V&, std::greater<>, int W::*) = S{}; auto v = mk(k); f(v, std::greater<>{}, &W::k); check(v.begin(), v.end(), k, "", Gt{}, &W::k); } { st("(I,I,Md,projection)"); void(*f)(I, I, Md, int W::*) = S{}; auto v = mk(k); f(v.begin(), v.end(), Md{}, &W::k); check(v.begin(), v.end(), k, "", Md{}, &W::k); }
    { st("(span&&,Md,projection)"); void(*f)(Span<W>&&, Md, int W::*) = S{}; auto v = mk(k); f(Span<W>{v.data(), v.data() + v.size()}, Md{}, &W::k); check(v.begin(), v.end(), k, "", Md{}, &W::k); } }
template<class S> void all(const char* n, const S& s, const Keys& k) { sn = n; forms(s, "no argument", k, LT, ID); cmps(s, k); projs(s, k); both(s, k); if (samples.size() < 3) samples.push_back(ctx); }
// sorters of integers that accept projections only
template<class S> void ints(const char* n, const S& s, const Keys& k) { sn = n; forms(s, "data member projection", k, LT, &W::k, &W::k); forms(s, "member function projection", k, LT, &W::neg, &W::neg); forms(s, "default comparison and projection", k, LT, &W::k, std::less<>{}, &W::k);}
static std::vector<Keys> inputs() { std::vector<Keys> in; in.push_back({}); in.push_back({4}); in.push_back({2, 1}); in.push_back({5, 3, 9, 3, 1, 8}); in.push_back({1, 2, 3, 4, 5, 6}); in.push_back({6, 5, 4, 3, 2, 1}); for (int n : {6, 9, 20, 33, 70}) for (int p : {0, 2, 4, 5, 14}) in.push_back(pattern(p, n, unsigned(seed)).k); return in; }
