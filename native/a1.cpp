#include "conforming.h"
#include <cpp-sort/adapters/indirect_adapter.h>
#include <cpp-sort/adapters/out_of_place_adapter.h>
#include <cpp-sort/adapters/schwartz_adapter.h>
#include <cpp-sort/sorters/quick_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/selection_sorter.h>
int main(int c, char** v) { init(c, v); modes(); using namespace cppsort;
  if (prop == "C20") {   // selection sort: one exchange per position
    auto sel = [&](auto tag, const char* nm, const Keys& k) { using C = typename decltype(tag)::type; C col; fill(col, k); snprintf(ctx, sizeof ctx, "selection_sorter on %s %s", nm, show(k).c_str()); tick(); if (k.size() > 1) ++nontriv; long s0 = n_swaps, m0 = n_moves; selection_sorter{}(col, Cmp{}, Proj{}); long sw = n_swaps - s0, mv = n_moves - m0; check(col, k, false, "C20"); if (sw > long(k.size())) fail("C20", "%ld exchanges for %zu elements", sw, k.size()); if (mv > 3 * long(k.size())) fail("C20", "%ld element moves for %zu elements", mv, k.size()); };
    struct TV { using type = std::vector<E>; }; struct TF { using type = std::forward_list<E>; };
    for (int n = 0; n <= 5; ++n) weak_orders(n, [&](const Keys& k) { sel(TV{}, "vector", k); sel(TF{}, "forward_list", k); });
    for (int n : {6, 9, 17, 33, 64, 100}) for (int p = 0; p < NPAT; ++p) { auto in = pattern(p, n, unsigned(seed)); sel(TV{}, "vector", in.k); sel(TF{}, "forward_list", in.k); } }
  if (prop == "C20") {   // indirect_adapter moves along cycles only
    auto cyc = [](const Keys& p) { long tot = 0; std::vector<char> s(p.size()); for (std::size_t i = 0; i < p.size(); ++i) { if (s[i]) continue; long l = 0; std::size_t j = i; while (!s[j]) { s[j] = 1; j = p[j]; ++l; } if (l > 1) tot += l + 1; } return tot; };
    auto go = [&](auto tag, const char* nm, const Keys& k0) { using C = typename decltype(tag)::type; 
        for (int st = 0; st < 2; ++st) { Keys k = k0; 
        // stable permutation from the keys (distinct ids break ties through the stable sort)
        C col; fill(col, k); snprintf(ctx, sizeof ctx, "indirect_adapter<%s> on %s %s", st ? "merge_sorter" : "quick_sorter", nm, show(k).c_str()); tick(); ++nontriv; if (samples.size() < 3 && k.size() == 5) samples.push_back(ctx);
        long m0 = n_moves;
        if (st) indirect_adapter<merge_sorter>{}(col, Cmp{}, Proj{}); else indirect_adapter<quick_sorter>{}(col, Cmp{}, Proj{});
        long moved = n_moves - m0; long n = k.size(); check(col, k, st, "C20");
        Keys perm(n); long i = 0; long inplace = 0; for (auto& e : col) { perm[i] = e.id; inplace += e.id == i; ++i; }
        long want = cyc(perm);
        if (moved != want) fail("C20", "%ld element moves, the permutation cycles need %ld", moved, want);
        if (2 * moved > 3 * n) fail("C20", "%ld element moves exceed 3n/2", moved);
        if (st && std::is_sorted(k.begin(), k.end()) && moved) fail("C20", "%ld element moves on sorted input", moved);
        } };
    struct V { using type = std::vector<E>; }; struct L { using type = std::list<E>; }; struct F { using type = std::forward_list<E>; };
    all_inputs(false, 1100, [&](const char*, const Keys& k) { go(V{}, "vector", k); });
    permutations(7, [&](const Keys& k) { go(V{}, "vector", k); });
    all_inputs(true, 130, [&](const char*, const Keys& k) { go(L{}, "list", k); go(F{}, "forward_list", k); });
    return finish();
  }
  Opt q; q.name = "";
  auto O = [](const char* n) { Opt o{}; o.name = n; o.maxn = 400; return o; };
  run<indirect_adapter<quick_sorter>>(O("indirect_adapter<quick_sorter>"));
  run<indirect_adapter<merge_sorter>>(O("indirect_adapter<merge_sorter>"));
  { Opt o = O("indirect_adapter<conforming>"); o.maxn = 130; run<indirect_adapter<anti_sorter<ra>>>(o); }
  run<out_of_place_adapter<quick_sorter>>(O("out_of_place_adapter<quick_sorter>"));
  run<out_of_place_adapter<merge_sorter>>(O("out_of_place_adapter<merge_sorter>"));
  { Opt o = O("out_of_place_adapter<conforming>"); o.maxn = 130; run<out_of_place_adapter<anti_sorter<ra>>>(o); }
  run<schwartz_adapter<quick_sorter>>(O("schwartz_adapter<quick_sorter>"));
  run<schwartz_adapter<heap_sorter>>(O("schwartz_adapter<heap_sorter>"));
  run<schwartz_adapter<merge_sorter>>(O("schwartz_adapter<merge_sorter>"));
  { Opt o = O("schwartz_adapter<insertion_sorter>"); o.maxn = 130; run<schwartz_adapter<insertion_sorter>>(o); }
  { Opt o = O("schwartz_adapter<conforming>"); o.maxn = 130; run<schwartz_adapter<anti_sorter<ra>>>(o); }
  return finish(); }
