#include "conforming.h"
#include <cpp-sort/utility/sorted_indices.h>
#include <cpp-sort/utility/sorted_iterators.h>
#include <cpp-sort/utility/apply_permutation.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/quick_sorter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/smooth_sorter.h>
#include <cpp-sort/sorters/spin_sorter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace cppsort;
template<class C> bool intact(const C& c, const Keys& k) { std::size_t i = 0; for (auto& e : c) { if (i >= k.size() || !e.live || e.id != int(i) || e.key != k[i]) { fail("C12", "the collection was modified at position %zu", i); return false; } ++i; } return i == k.size(); }
static void order_ok(const Keys& k, const std::vector<int>& idx, bool stable) {
    std::size_t n = k.size(); if (idx.size() != n) { fail("C12", "%zu positions for %zu elements", idx.size(), n); return; }
    std::vector<char> s(n); for (int i : idx) { if (i < 0 || i >= int(n) || s[i]) { fail("C12", "position %d missing or repeated", i); return; } s[i] = 1; }
    for (std::size_t i = 1; i < n; ++i) { if (lt(k[idx[i]], k[idx[i-1]])) { fail("C12", "not sorted at %zu", i); return; } if (stable && !lt(k[idx[i-1]], k[idx[i]]) && idx[i] < idx[i-1]) { fail("C12", "not stable at %zu", i); return; } }
}
template<class S> void go(const char* nm, bool stable, int maxn) {
    auto one = [&](const char* pat, const Keys& k) {
        snprintf(ctx, sizeof ctx, "sorted_indices/iterators<%s> %s order=%d %s", nm, pat, rev, show(k).c_str()); tick(); if (k.size() > 1) ++nontriv; if (samples.size() < 3 && k.size() == 5) samples.push_back(ctx);
        std::vector<E> v; fill(v, k); long mv = n_moves, ob = n_objs;
        auto idx = utility::sorted_indices<S>{}(v, Cmp{}, Proj{}); 
        if (n_moves != mv || n_objs != ob) fail("C12", "elements were moved, created or destroyed"); 
        intact(v, k); order_ok(k, std::vector<int>(idx.begin(), idx.end()), stable);
        auto idx2 = utility::sorted_indices<S>{}(v.begin(), v.end(), Cmp{}, Proj{}); if (idx2 != idx) fail("C12", "iterator form differs");
        auto its = utility::sorted_iterators<S>{}(v, Cmp{}, Proj{}); std::vector<int> p; for (auto it : its) p.push_back(int(it - v.begin()));
        intact(v, k); order_ok(k, p, stable); if (n_moves != mv || n_objs != ob) fail("C12", "elements were moved, created or destroyed");
        if (k.size() < 130) { std::list<E> l; fill(l, k); mv = n_moves; auto li = utility::sorted_iterators<S>{}(l, Cmp{}, Proj{}); std::vector<int> q; for (auto it : li) q.push_back(it->id); order_ok(k, q, stable); intact(l, k); if (n_moves != mv) fail("C12", "moves"); 
            std::forward_list<E> f; fill(f, k); mv = n_moves; auto fi = utility::sorted_iterators<S>{}(f.begin(), f.end(), Cmp{}, Proj{}); q.clear(); for (auto it : fi) q.push_back(it->id); order_ok(k, q, stable); intact(f, k); if (n_moves != mv) fail("C12", "moves"); }
        // applying the permutation sorts the collection
        auto id3 = idx; std::vector<int> want(idx.begin(), idx.end()); utility::apply_permutation(v, id3);
        for (std::size_t i = 0; i < v.size(); ++i) if (!v[i].live || v[i].id != want[i]) { fail("C12", "apply_permutation(sorted_indices): position %zu", i); break; }
    };
    rev = 0; all_inputs(false, maxn, one);
    for (int r : {1, 2, 3}) { rev = r; for (int n = 0; n <= 5; ++n) weak_orders(n, [&](const Keys& k) { one("weak-order", k); }); for (int n : {8, 17, 33, 65, 130}) for (int p = 0; p < NPAT; ++p) { auto in = pattern(p, n, unsigned(seed)); one(in.name.c_str(), in.k); } } rev = 0;
}
template<class I> void apply(const Keys& p, int form) {
    snprintf(ctx, sizeof ctx, "apply_permutation index type of %zu bytes form %d %s", sizeof(I), form, show(p).c_str()); tick(); ++nontriv; if (samples.size() < 5 && p.size() == 6) samples.push_back(ctx);
    std::size_t n = p.size(); std::vector<E> v; Keys k(n); for (std::size_t i = 0; i < n; ++i) k[i] = int(100 + i); fill(v, k); long ob = n_objs;
    std::vector<I> ix(p.begin(), p.end());
    if (form == 0) utility::apply_permutation(v, ix); else if (form == 1) utility::apply_permutation(v.begin(), v.end(), ix.begin(), ix.end());
    else if (form == 2) { std::deque<I> d(p.begin(), p.end()); utility::apply_permutation(v.data(), v.data() + n, d.begin(), d.end()); }
    else utility::apply_permutation(v, std::vector<I>(p.begin(), p.end()));
    if (n_objs != ob) fail("C12 C03", "temporaries leaked");
    for (std::size_t i = 0; i < n; ++i) if (!v[i].live || v[i].id != p[i] || v[i].key != 100 + p[i]) { fail("C12", "position %zu holds element %d instead of %d", i, v[i].id, p[i]); break; }
}
int main(int c, char** v) { init(c, v);
  for (int n = 0; n <= 8; ++n) permutations(n, [&](const Keys& p) { apply<std::size_t>(p, 0); if (n < 7) { apply<int>(p, 1); apply<long>(p, 2); apply<unsigned char>(p, 3); } });
  std::mt19937 g(seed); for (int n : {9, 10, 16, 31, 64, 100, 257, 1000}) for (int t = 0; t < (thorough ? 300 : 30); ++t) { Keys p(n); for (int i = 0; i < n; ++i) p[i] = i; if (t % 3) std::shuffle(p.begin(), p.end(), g); else for (int s = 0; s < t / 3; ++s) std::swap(p[g() % n], p[g() % n]); if (t == 0) std::rotate(p.begin(), p.begin() + 1, p.end()); apply<long>(p, t % 4); }
  go<heap_sorter>("heap_sorter", false, 400); go<merge_sorter>("merge_sorter", true, 400); go<quick_sorter>("quick_sorter", false, 400); go<insertion_sorter>("insertion_sorter", true, 130); go<smooth_sorter>("smooth_sorter", false, 130);
  go<spin_sorter>("spin_sorter", true, 400); go<stable_adapter<heap_sorter>>("stable_adapter<heap_sorter>", true, 130); go<anti_sorter<ra>>("conforming", false, 80);
  return finish(); }
