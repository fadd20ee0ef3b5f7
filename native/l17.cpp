// container-aware adapter on linked lists (C17; exceptions: C15)
#include "sorters.h"
#include <cpp-sort/adapters/container_aware_adapter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/mel_sorter.h>
#include <cpp-sort/sorters/selection_sorter.h>
#include <cpp-sort/sorters/heap_sorter.h>
using namespace cppsort;
static const char* P17 = "C17 C11";
template<class S, class C> void onel(const char* nm, const char* cn, const char* pat, const Keys& k, bool stable, int form) {
    snprintf(ctx, sizeof ctx, "%s on %s<E> %s order=%d form=%d %s", nm, cn, pat, rev, form, show(k).c_str()); tick(); if (k.size() > 1) ++nontriv; if (samples.size() < 3 && k.size() == 5) samples.push_back(ctx);
    static bool warm = (seen_cap.reserve(1 << 16), true); (void)warm;
    long base = n_objs, bl = blocks; 
    { C c; fill(c, k); std::vector<const E*> at(k.size()); for (auto& e : c) at[e.id] = &e;
      long objs = n_objs, mv = n_moves; S s{};
      if (form == 0) s(c, Cmp{}, Proj{}); 
      else if (form == 1) s(c, [](const E& a, const E& b) { return Cmp{}(Proj{}(a), Proj{}(b)); });
      else if (form == 2) s(c, Proj{});
      else s(c, Cmp{}, &E::key);
      if (n_moves != mv) fail("C17", "%ld element moves", n_moves - mv);
      if (n_objs != objs) fail("C17 C15", "elements created or destroyed: %ld", n_objs - objs);
      check(c, k, false, "C17 C11");
      int prev = 0, pid = -1; bool first = true; 
      for (auto& e : c) { if (e.id < 0 || e.id >= int(k.size())) { fail(P17, "foreign element"); break; } if (at[e.id] != &e) { fail("C17", "element %d is no longer at its address", e.id); break; }
        if (stable && !first && !lt(prev, e.key) && !lt(e.key, prev) && e.id < pid) { fail("C17 C02", "equivalent elements swapped"); break; } prev = e.key; pid = e.id; first = false; }
      if constexpr (!isfl<C>::value) { // links are consistent backwards too
        std::size_t n = 0; for (auto it = c.rbegin(); it != c.rend(); ++it) ++n; if (n != k.size() || c.size() != k.size()) fail(P17, "list links or size broken"); }
    }
    if (n_objs != base || blocks != bl) fail("C17 C15", "unbalanced elements or nodes");
}
template<class S, class C> void throwing(const char* nm, const char* cn) {
    std::vector<Keys> ks; for (int n : {2, 3, 5, 8, 12, 17, 33, 70}) for (int p : {0, 1, 2, 4, 5, 6, 9, 14, 18}) ks.push_back(pattern(p, n, unsigned(seed)).k);
    for (auto& k : ks) for (int what : {1, 2}) for (long at = 0; at < 400; at += (at < 30 ? 1 : 17)) {
        snprintf(ctx, sizeof ctx, "%s on %s<E> throwing from %s number %ld %s", nm, cn, what == 1 ? "comparison" : "projection", at, show(k).c_str()); tick(); ++nontriv; if (samples.size() < 3) samples.push_back(ctx);
        long base = n_objs, bl = blocks; bool caught = false;
        { C c; throw_at = -1; fill(c, k); throw_what = what; op_count = 0; throw_at = at; S s{};
          try { s(c, Cmp{}, Proj{}); } catch (const injected& x) { caught = x.n == at; } catch (...) { fail("C15", "a different exception"); }
          bool reached = op_count > at; throw_what = 0; throw_at = -1;
          if (reached && !caught) fail("C15", "the exception did not reach the caller");
          if (!reached) at = 1000; 
          std::size_t n = 0; for (auto& e : c) { E::chk(e, "after the exception"); ++n; } }
        if (n_objs != base || blocks != bl) fail("C15 C17", "leak after an exception: %ld elements %ld nodes", n_objs - base, blocks - bl);
    }
}
template<class S> void go(const char* nm, bool stable) {
    if (prop == "C15") { throwing<S, std::list<E>>(nm, "list"); throwing<S, std::forward_list<E>>(nm, "forward_list"); return; }
    int maxn = 700;
    rev = 0; all_inputs(false, maxn, [&](const char* p, const Keys& k) { onel<S, std::list<E>>(nm, "list", p, k, stable, 0); onel<S, std::forward_list<E>>(nm, "forward_list", p, k, stable, 0); });
    for (int r : {0, 1, 2, 3}) { rev = r; for (int f = 0; f < 4; ++f) if (f != 2 || r == 0) for (int n = 0; n <= 5; ++n) weak_orders(n, [&](const Keys& k) { onel<S, std::list<E>>(nm, "list", "weak-order", k, stable, f); onel<S, std::forward_list<E>>(nm, "forward_list", "weak-order", k, stable, f); }); 
      for (int n : {8, 17, 33, 65, 130, 300}) for (int p = 0; p < NPAT; ++p) { auto in = pattern(p, n, unsigned(seed)); onel<S, std::list<E>>(nm, "list", in.name.c_str(), in.k, stable, 0); onel<S, std::forward_list<E>>(nm, "forward_list", in.name.c_str(), in.k, stable, 0); } } rev = 0;
}
int main(int c, char** v) { init(c, v);
  go<container_aware_adapter<insertion_sorter>>("container_aware_adapter<insertion_sorter>", true);
  go<container_aware_adapter<merge_sorter>>("container_aware_adapter<merge_sorter>", true);
  go<container_aware_adapter<selection_sorter>>("container_aware_adapter<selection_sorter>", true);
  go<container_aware_adapter<mel_sorter>>("container_aware_adapter<mel_sorter>", false);
  return finish(); }
