#include "conforming.h"
#include <cpp-sort/metrics.h>
#include <cpp-sort/adapters/counting_adapter.h>
#include <cpp-sort/adapters/stable_adapter.h>
#include <cpp-sort/sorters.h>
#include <cpp-sort/fixed_sorters.h>
using namespace cppsort;
static std::vector<std::pair<const void*, const void*>> seen_args; static bool rec = false; static unsigned long trace; 
struct TCmp { bool operator()(const int& a, const int& b) const { ++n_cmp; trace = trace * 1000003u + unsigned(a) * 31u + unsigned(b); return lt(a, b); } };
namespace cppsort { namespace utility { template<> struct is_probably_branchless_comparison<TCmp, int> : std::true_type {}; } }
struct TProj { const int& operator()(const E& e) const { ++n_proj; E::chk(e, "projection"); return e.key; } };
struct NProj { int operator()(const int& e) const { ++n_proj; return -e; } };
template<class C> std::vector<int> ids(const C& c) { std::vector<int> r; for (auto& e : c) r.push_back(e.id); return r; }
template<class S, class C> void one(const char* nm, const char* cn, const char* pat, const Keys& k, bool moves) {
    snprintf(ctx, sizeof ctx, "metrics of %s on %s %s order=%d %s", nm, cn, pat, rev, show(k).c_str()); tick(); if (k.size() > 1) ++nontriv; if (samples.size() < 3 && k.size() == 5) samples.push_back(ctx);
    C a; fill(a, k); n_cmp = n_proj = 0; trace = 0; long m0 = n_moves; S{}(a, TCmp{}, TProj{}); long cmp = n_cmp, prj = n_proj, mov = n_moves - m0; unsigned long tr = trace; auto want = ids(a);
    auto chk = [&](const C& c, const char* w, long got, long exp, bool calls) { if (got != exp) fail("C13", "%s returns %ld, the sorter performs %ld", w, got, exp); if (ids(c) != want) fail("C13", "%s does not sort as the adapted sorter", w); if (calls && (n_cmp != cmp || n_proj != prj || trace != tr)) fail("C13", "%s: calls not forwarded (%ld comparisons, %ld projections seen)", w, n_cmp, n_proj); };
    n_cmp = n_proj = 0; trace = 0; { C c; fill(c, k); auto r = metrics::comparisons<S>{}(c, TCmp{}, TProj{}); chk(c, "metrics::comparisons", long(r.value()), cmp, true); static_assert(std::is_same<decltype(r), utility::metric<std::size_t, metrics::comparisons_tag>>::value, ""); }
    n_cmp = n_proj = 0; trace = 0; { C c; fill(c, k); auto r = metrics::comparisons<S, int>{}(c.begin(), c.end(), TCmp{}, TProj{}); chk(c, "metrics::comparisons<int>(iterators)", r.value(), cmp, true); static_assert(std::is_same<decltype(r), utility::metric<int, metrics::comparisons_tag>>::value, ""); }
    n_cmp = n_proj = 0; trace = 0; { C c; fill(c, k); auto r = metrics::projections<S>{}(c, TCmp{}, TProj{}); chk(c, "metrics::projections", long(r.value()), prj, true); }
    n_cmp = n_proj = 0; trace = 0; { C c; fill(c, k); auto r = metrics::projections<S, long long>{}(c.begin(), c.end(), TCmp{}, TProj{}); chk(c, "metrics::projections(iterators)", long(r.value()), prj, true); }
    n_cmp = n_proj = 0; trace = 0; { C c; fill(c, k); auto r = counting_adapter<S>{}(c, TCmp{}, TProj{}); chk(c, "counting_adapter", long(r), cmp, true); }
    n_cmp = n_proj = 0; trace = 0; { C c; fill(c, k); auto r = counting_adapter<S, unsigned>{}(c.begin(), c.end(), TCmp{}, TProj{}); chk(c, "counting_adapter<unsigned>(iterators)", long(r), cmp, true); static_assert(std::is_same<decltype(r), unsigned>::value, ""); }
    n_cmp = n_proj = 0; trace = 0; { C c; fill(c, k); auto r = metrics::moves<S>{}(c, TCmp{}, TProj{}); if (moves) chk(c, "metrics::moves", long(r.value()), mov, false); else { if (ids(c) != want) fail("C13", "metrics::moves does not sort as the adapted sorter"); } }
    n_cmp = n_proj = 0; trace = 0; { C c; fill(c, k); auto r = metrics::moves<S, int>{}(c.begin(), c.end(), TCmp{}, TProj{}); if (moves) chk(c, "metrics::moves<int>(iterators)", long(r.value()), mov, false); }
    { C c; fill(c, k); auto r = metrics::running_time<S>{}(c, TCmp{}, TProj{}); if (ids(c) != want) fail("C13", "metrics::running_time does not sort as the adapted sorter"); if (r.value().count() < 0) fail("C13", "negative running time"); }
}
template<class S, bool L = true> void go(const char* nm, int maxn, bool moves = true) {
    if (!only.empty() && std::string(nm).find(only) == std::string::npos) return;
    auto f = [&](const char* p, const Keys& k) { one<S, std::vector<E>>(nm, "vector", p, k, moves); if constexpr (L) if (k.size() < 40) { one<S, std::list<E>>(nm, "list", p, k, moves); } };
    rev = 0; int ex = thorough ? 6 : 5; for (int n = 0; n <= ex; ++n) weak_orders(n, [&](const Keys& k) { f("weak-order", k); });
    for (int n : {7, 8, 12, 16, 17, 24, 31, 33, 50, 65, 100, 129, 200, 300}) if (n <= maxn) for (int p = 0; p < NPAT; ++p) { rev = 0; auto in = pattern(p, n, unsigned(seed)); f(in.name.c_str(), in.k); if (n < 70) { rev = 1 + p % 3; f(in.name.c_str(), in.k); } } rev = 0;
    // without projection, without comparison, composed
    for (int n : {0, 1, 2, 5, 20, 60}) for (int p : {0, 2, 4, 14}) { auto k = pattern(p, n, unsigned(seed)).k; snprintf(ctx, sizeof ctx, "metrics of %s on ints %s", nm, show(k).c_str()); tick();
        n_cmp = 0; auto a = k; S{}(a, TCmp{}); long cmp = n_cmp; n_proj = 0; auto pa = k; S{}(pa, NProj{}); long prj = n_proj;
        auto b = k; auto r1 = metrics::comparisons<S>{}(b, TCmp{}); if (long(r1.value()) != cmp || a != b) fail("C13", "comparisons(collection, compare)"); 
        b = k; auto r2 = metrics::comparisons<S>{}(b); if (long(r2.value()) != cmp || a != b) fail("C13", "comparisons(collection)"); 
        b = k; auto r3 = metrics::comparisons<S>{}(b.begin(), b.end()); if (long(r3.value()) != cmp || a != b) fail("C13", "comparisons(iterators)");
        b = k; auto r4 = metrics::projections<S>{}(b, NProj{}); if (long(r4.value()) != prj || pa != b) fail("C13", "projections(collection, projection): %ld, expected %ld", long(r4.value()), prj);
        b = k; auto r5 = metrics::projections<S>{}(b.begin(), b.end(), NProj{}); if (long(r5.value()) != prj || pa != b) fail("C13", "projections(iterators, projection)"); 
        b = k; auto r6 = metrics::projections<S>{}(b); if (!std::is_sorted(b.begin(), b.end())) fail("C13", "projections(collection) does not sort"); 
        b = k; metrics::moves<S> mm{}; auto r7 = mm(b); if (!std::is_sorted(b.begin(), b.end())) fail("C13", "moves(collection) does not sort"); }
}
int main(int c, char** v) { init(c, v); samples.reserve(8);
  go<insertion_sorter>("insertion_sorter", 130); go<selection_sorter>("selection_sorter", 130); go<heap_sorter, false>("heap_sorter", 300); go<quick_sorter>("quick_sorter", 300); go<merge_sorter>("merge_sorter", 300, false);
  go<pdq_sorter, false>("pdq_sorter", 300, false); go<smooth_sorter, false>("smooth_sorter", 300); go<tim_sorter, false>("tim_sorter", 300, false); go<spin_sorter, false>("spin_sorter", 300, false); go<anti_sorter<bi>>("conforming", 65, false);
  // metric values
  { snprintf(ctx, sizeof ctx, "metric arithmetic"); tick(); utility::metric<int, metrics::comparisons_tag> a(3), b(5); if (!(a < b) || a == b || !(a != b) || b <= a || !(b >= a) || !(b > 4) || !(3 == a) || int(a) != 3 || a.value() != 3) fail("C13", "metric comparison operators"); a = 7; if (a.value() != 7) fail("C13", "metric assignment"); a = b; if (!(a == b)) fail("C13", "metric assignment"); }
  return finish(); }
