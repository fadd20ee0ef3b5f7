// integer helpers, buffer policies, search and range helpers (C19)
#define NT_NEW
#include "nt.h"
#include <cmath>
#include <limits>
#include <cpp-sort/detail/bitops.h>
#include <cpp-sort/detail/equal_range.h>
#include <cpp-sort/detail/is_p_sorted.h>
#include <cpp-sort/detail/is_sorted_until.h>
#include <cpp-sort/detail/lower_bound.h>
#include <cpp-sort/detail/min_element.h>
#include <cpp-sort/detail/minmax_element.h>
#include <cpp-sort/detail/minmax_element_and_is_sorted.h>
#include <cpp-sort/detail/nth_element.h>
#include <cpp-sort/detail/partition.h>
#include <cpp-sort/detail/reverse.h>
#include <cpp-sort/detail/rotate.h>
#include <cpp-sort/detail/stable_partition.h>
#include <cpp-sort/detail/swap_ranges.h>
#include <cpp-sort/detail/upper_bound.h>
#include <cpp-sort/utility/buffer.h>
#include <cpp-sort/utility/functional.h>
#include <cpp-sort/utility/size.h>
using namespace nt; namespace D = cppsort::detail; namespace U = cppsort::utility;
static std::mt19937_64 G;
template<class T> std::vector<T> values() { std::vector<T> v; using L = std::numeric_limits<T>; if (sizeof(T) <= 2) { for (long long i = (long long)L::min(); i <= (long long)L::max(); ++i) v.push_back(T(i)); return v; }
    for (int i = 0; i < L::digits; ++i) for (int d = -3; d <= 3; ++d) v.push_back(T((std::make_unsigned_t<T>(1) << i) + d)); for (int i = 0; i < 300; ++i) v.push_back(T(i)); for (int i = 0; i < 5; ++i) { v.push_back(T(L::max() - T(i))); v.push_back(T(L::min() + T(i))); }
    for (int i = 0; i < 3000; ++i) v.push_back(T(G() >> (G() % 64))); if (std::is_signed<T>::value) for (int i = 0; i < 500; ++i) v.push_back(T(G())); return v; }
template<class T> void ints(const char* tn) { using Un = std::make_unsigned_t<T>; using L = std::numeric_limits<T>; for (T x : values<T>()) { tick(); ++nontriv; snprintf(ctx, sizeof ctx, "%s %s", tn, std::to_string(x).c_str());
    if (D::as_unsigned(x) != Un(x)) fail("C19", "as_unsigned");
    if (T(U::half{}(x)) != T(x / 2)) fail("C19", "utility::half");
    if (x < 0) continue; Un u = Un(x);
    if (D::half(x) != T(x / 2)) fail("C19", "half is %s", std::to_string(D::half(x)).c_str());
    if (D::has_single_bit(x) != (__builtin_popcountll((unsigned long long)u) == 1)) fail("C19", "has_single_bit is wrong");
    if (x > 0) { int fl = 63 - __builtin_clzll((unsigned long long)u), ce = fl + ((u & (u - 1)) != 0);
        if ((long long)D::log2(x) != fl) fail("C19", "log2 is %s", std::to_string(D::log2(x)).c_str());
        if ((long long)D::ceil_log2(x) != ce) fail("C19", "ceil_log2 is %s", std::to_string(D::ceil_log2(x)).c_str());
        if (std::is_unsigned<T>::value) { if (D::hyperfloor(u) != Un(Un(1) << fl)) fail("C19", "hyperfloor is %s", std::to_string(D::hyperfloor(u)).c_str()); if (ce < L::digits && D::hyperceil(u) != Un(Un(1) << ce)) fail("C19", "hyperceil is %s", std::to_string(D::hyperceil(u)).c_str()); } } 
    if (std::is_unsigned<T>::value) for (int s = 1; s < std::numeric_limits<Un>::digits; s += (sizeof(T) > 1 ? 3 : 1)) { Un r = D::rotl(u, s), w = 0; int n = std::numeric_limits<Un>::digits; for (int b = 0; b < n; ++b) if ((u >> b) & 1) w = Un(w | Un(Un(1) << ((b + s) % n))); if (r != w) fail("C19", "rotl by %d", s); } }
    for (int i = 0; i < 2000; ++i) { T a = T(G() >> (G() % 64)), b = T(G() >> (G() % 64)); if (i < 400) { a = T(i % 20 + 1); b = T(i / 20 + 1); } if (a < 0) a = T(~a); if (b < 0) b = T(~b); if (a == 0) a = 1; if (b == 0) b = 1; snprintf(ctx, sizeof ctx, "%s gcd(%s,%s)", tn, std::to_string(a).c_str(), std::to_string(b).c_str()); tick(); Un x = Un(a), y = Un(b); while (y) { Un t = Un(x % y); x = y; y = t; } if (Un(D::gcd(a, b)) != x) fail("C19", "gcd is %s", std::to_string(D::gcd(a, b)).c_str()); } samples.push_back(ctx); }
template<std::size_t N> void fixedb() { typename U::fixed_buffer<N>::template buffer<int> b(12345); tick(); snprintf(ctx, sizeof ctx, "fixed_buffer<%zu>", N); if (b.size() != N || std::size_t(b.end() - b.begin()) != N || std::size_t(b.cend() - b.cbegin()) != N) fail("C19", "size %zu", (std::size_t)b.size()); for (std::size_t i = 0; i < N; ++i) if (&b[i] != b.begin() + i) fail("C19", "operator[]"); const auto& c = b; if (std::size_t(c.end() - c.begin()) != N) fail("C19", "const range"); for (std::size_t i = 0; i < N; ++i) b[i] = int(i); }
template<class P, class F> void dynb(const char* nm, F want) { for (std::size_t n : {0,1,2,3,4,5,7,8,9,15,16,17,24,25,26,35,36,37,99,100,101,1000,4095,4096,65535,65536,999999}) { tick(); ++nontriv; snprintf(ctx, sizeof ctx, "dynamic_buffer<%s> of %zu", nm, n); long bl = blocks; { typename U::dynamic_buffer<P>::template buffer<int> b(n); std::size_t w = want(n); if (b.size() != w) fail("C19", "size %zu instead of %zu", (std::size_t)b.size(), w); if (std::size_t(b.end() - b.begin()) != w || std::size_t(b.cend() - b.cbegin()) != w) fail("C19", "range"); for (std::size_t i = 0; i < w; ++i) { if (&b[i] != b.begin() + i) fail("C19", "operator[]"); b[i] = int(i); } } if (blocks != bl) fail("C19 C15", "leak"); } }
struct I2 { std::size_t operator()(std::size_t n) const { return n ? n - 1 : 0; } };
template<class C> std::vector<int> keys(const C& c) { std::vector<int> r; for (auto& e : c) r.push_back(e.key); return r; }
template<class C> void mk(C& c, const Keys& k) { for (auto it = k.rbegin(); it != k.rend(); ++it) c.emplace_front(*it, int(k.rend() - it) - 1); }
template<> void mk(std::vector<E>& c, const Keys& k) { for (std::size_t i = 0; i < k.size(); ++i) c.emplace_back(k[i], int(i)); }
template<class C> bool perm(const C& c, const Keys& k) { std::vector<char> s(k.size(), 0); std::size_t n = 0; for (auto& e : c) { if (!e.live || e.id < 0 || e.id >= int(k.size()) || s[e.id]++ || k[e.id] != e.key) return false; ++n; } return n == k.size(); }
template<class It> long dist(It a, It b) { return long(std::distance(a, b)); }
#define CK(cond, ...) do { if (!(cond)) fail("C19", __VA_ARGS__); } while (0)
template<class C> struct bidi : std::integral_constant<bool, !std::is_same<C, std::forward_list<E>>::value> {};
template<class C> void search(const char* cn, const Keys& k) { C c; mk(c, k); long n = long(k.size()); 
    for (int v = -1; v <= 9; ++v) { tick(); if (n) ++nontriv; snprintf(ctx, sizeof ctx, "search %d in %s %s", v, cn, show(k).c_str());
        long lo = std::lower_bound(k.begin(), k.end(), v) - k.begin(), hi = std::upper_bound(k.begin(), k.end(), v) - k.begin();
        auto d = [&](auto it) { return dist(c.begin(), it); };
        CK(d(D::lower_bound(c.begin(), c.end(), v, Cmp{}, Proj{})) == lo, "lower_bound"); CK(d(D::lower_bound_n(c.begin(), n, v, Cmp{}, Proj{})) == lo, "lower_bound_n"); CK(d(D::lower_monobound_n(c.begin(), n, v, Cmp{}, Proj{})) == lo, "lower_monobound_n"); CK(d(D::upper_bound(c.begin(), c.end(), v, Cmp{}, Proj{})) == hi, "upper_bound"); CK(d(D::upper_bound_n(c.begin(), n, v, Cmp{}, Proj{})) == hi, "upper_bound_n");
        auto r = D::equal_range(c.begin(), c.end(), v, Cmp{}, Proj{}); CK(d(r.first) == lo && d(r.second) == hi, "equal_range gives [%ld,%ld)", d(r.first), d(r.second)); } }
template<class C> void ranges(const char* cn, const Keys& k) { long n = long(k.size()); auto start = [&](const char* w) { tick(); if (n > 1) ++nontriv; snprintf(ctx, sizeof ctx, "%s on %s %s", w, cn, show(k).c_str()); };
    { start("min/max"); C c; mk(c, k); auto d = [&](auto it) { return dist(c.begin(), it); };
      CK(d(D::min_element(c.begin(), c.end(), Cmp{}, Proj{})) == std::min_element(k.begin(), k.end()) - k.begin(), "min_element");
      CK(d(D::is_sorted_until(c.begin(), c.end(), Cmp{}, Proj{})) == std::is_sorted_until(k.begin(), k.end()) - k.begin(), "is_sorted_until"); CK(D::is_sorted(c.begin(), c.end(), Cmp{}, Proj{}) == std::is_sorted(k.begin(), k.end()), "is_sorted");
      auto w = std::minmax_element(k.begin(), k.end()); auto m = D::minmax_element(c.begin(), c.end(), Cmp{}, Proj{}); CK(d(m.first) == w.first - k.begin() && d(m.second) == w.second - k.begin(), "minmax_element gives %ld,%ld", d(m.first), d(m.second));
      if (n) { CK(d(D::unchecked_min_element(c.begin(), c.end(), Cmp{}, Proj{})) == std::min_element(k.begin(), k.end()) - k.begin(), "unchecked_min_element"); }
      if (n > 1) { auto q = D::unchecked_minmax_element(c.begin(), c.end(), Cmp{}, Proj{}); CK(d(q.first) == w.first - k.begin() && d(q.second) == w.second - k.begin(), "unchecked_minmax_element"); }
      auto s = D::minmax_element_and_is_sorted(c.begin(), c.end(), Cmp{}, Proj{}); CK(s.is_sorted == std::is_sorted(k.begin(), k.end()), "minmax_element_and_is_sorted: is_sorted"); if (n) CK(k[d(s.min)] == *w.first && k[d(s.max)] == *w.second, "minmax_element_and_is_sorted"); }
    for (long p = 0; p < n; ++p) { start("nth_element"); C c; mk(c, k); auto it = D::nth_element(c.begin(), c.end(), p, n, Cmp{}, Proj{}); auto s = k; std::sort(s.begin(), s.end()); CK(dist(c.begin(), it) == p, "nth_element returns another position"); CK(perm(c, k), "nth_element loses elements"); auto q = keys(c); CK(q[p] == s[p], "nth_element %ld", p); for (long i = 0; i < n; ++i) CK(i < p ? q[i] <= q[p] : q[i] >= q[p], "nth_element %ld does not partition", p); }
    for (long p = 0; p <= n; ++p) { start("rotate"); C c; mk(c, k); auto r = D::rotate(c.begin(), std::next(c.begin(), p), c.end()); CK(dist(c.begin(), r) == n - p, "rotate by %ld returns position %ld", p, dist(c.begin(), r)); auto s = k; std::rotate(s.begin(), s.begin() + p, s.end()); CK(keys(c) == s && perm(c, k), "rotate by %ld", p);
        for (long q = 0; q <= p; ++q) { start("is_p_sorted"); C z; mk(z, k); (void)z; } }
    for (int t = 0; t <= 4; ++t) { start("partition"); C c; mk(c, k); auto pr = [t](const E& e) { E::chk(e, "predicate"); return e.key < t; }; auto r = D::partition(c.begin(), c.end(), pr); long m = std::count_if(k.begin(), k.end(), [t](int x) { return x < t; }); CK(dist(c.begin(), r) == m, "partition returns %ld", dist(c.begin(), r)); CK(perm(c, k), "partition loses elements"); long i = 0; for (auto& e : c) { CK((e.key < t) == (i < m), "partition at %ld", i); ++i; } }
    if constexpr (bidi<C>::value) { { start("reverse"); C c; mk(c, k); D::reverse(c.begin(), c.end()); auto s = k; std::reverse(s.begin(), s.end()); CK(keys(c) == s && perm(c, k), "reverse"); }
      for (int t = 0; t <= 4; ++t) for (long lim : {-1L, 0L, 40L, 100L}) { start("stable_partition"); C c; mk(c, k); auto pr = [t](const E& e) { return e.key < t; }; mem_limit = lim; auto r = D::stable_partition(c.begin(), c.end(), n, pr); mem_limit = -1; auto s = k; auto m = std::stable_partition(s.begin(), s.end(), [t](int x) { return x < t; }) - s.begin(); CK(dist(c.begin(), r) == m, "stable_partition returns %ld", dist(c.begin(), r)); CK(keys(c) == s && perm(c, k), "stable_partition"); int pid = -1; long i = 0; for (auto& e : c) { if (i == m) pid = -1; CK(e.id > pid, "stable_partition changes the order"); pid = e.id; ++i; } } }
    if (n > 0 && n % 2 == 0) { start("swap_ranges"); C c; mk(c, k); auto m = std::next(c.begin(), n / 2); D::swap_ranges_inner(c.begin(), m, m); auto s = k; std::swap_ranges(s.begin(), s.begin() + n / 2, s.begin() + n / 2); CK(keys(c) == s && perm(c, k), "swap_ranges_inner"); }
    if (bidi<C>::value) for (long p = 0; p <= n; ++p) {} }
struct NoSize { std::vector<int> v; auto begin() const { return v.begin(); } auto end() const { return v.end(); } };
int main(int c, char** v) { init(c, v); G.seed(seed);
  ints<signed char>("signed char"); ints<unsigned char>("unsigned char"); ints<short>("short"); ints<unsigned short>("unsigned short"); ints<int>("int"); ints<unsigned>("unsigned"); ints<long>("long"); ints<unsigned long>("unsigned long"); ints<long long>("long long"); ints<unsigned long long>("unsigned long long");
  fixedb<0>(); fixedb<1>(); fixedb<2>(); fixedb<7>(); fixedb<512>();
  dynb<U::half>("half", [](std::size_t n) { return n / 2; }); dynb<U::sqrt>("sqrt", [](std::size_t n) { std::size_t r = 0; while ((r + 1) * (r + 1) <= n) ++r; return r; }); dynb<U::identity>("identity", [](std::size_t n) { return n; }); dynb<I2>("n-1", [](std::size_t n) { return n ? n - 1 : 0; });
  { typename U::dynamic_buffer<U::log>::buffer<int> b(1000); snprintf(ctx, sizeof ctx, "dynamic_buffer<log> of 1000"); CK(b.size() == 6, "size %zu", (std::size_t)b.size()); }
  { int a[7]; const int ca[3] = {}; std::vector<int> w(5); std::forward_list<int> f{1, 2, 3}; NoSize ns{{1, 2}}; const NoSize& cns = ns; snprintf(ctx, sizeof ctx, "size"); CK(U::size(a) == 7 && U::size(ca) == 3 && U::size(w) == 5 && U::size(f) == 3 && U::size(ns) == 2 && U::size(cns) == 2, "utility::size"); }
  for (int n = 0; n <= (thorough ? 12 : 9); ++n) for (int t = 0; t < 40; ++t) { Keys k(n); for (auto& x : k) x = int(G() % 9); std::sort(k.begin(), k.end()); search<std::vector<E>>("vector", k); search<std::list<E>>("list", k); search<std::forward_list<E>>("forward_list", k); }
  for (int n : {17, 31, 32, 33, 64, 100, 255}) for (int t = 0; t < 6; ++t) { Keys k(n); for (auto& x : k) x = int(G() % 9); std::sort(k.begin(), k.end()); search<std::vector<E>>("vector", k); search<std::forward_list<E>>("forward_list", k); }
  auto all = [&](const Keys& k) { ranges<std::vector<E>>("vector", k); ranges<std::list<E>>("list", k); ranges<std::forward_list<E>>("forward_list", k); };
  for (int n = 0; n <= (thorough ? 6 : 5); ++n) weak_orders(n, all);
  for (int n : {6, 7, 8, 9, 13, 16, 24, 33, 48, 65, 90, 129}) for (int p = 0; p < NPAT; ++p) { auto in = pattern(p, n, unsigned(seed)); if (n > 33 && p % 3) continue; all(in.k); }
  return finish(); }
