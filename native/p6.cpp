// measures of presortedness against brute-force definitions (C06, C07); exceptions (C15)
#include "sorters.h"
#include <cpp-sort/probes.h>
#include <cpp-sort/adapters/indirect_adapter.h>
#include <deque>
using namespace cppsort;
using L = long long;
static bool LE(int a, int b) { return !lt(b, a); }
static L b_runs(const Keys& k) { L r = 0; for (std::size_t i = 1; i < k.size(); ++i) r += lt(k[i], k[i-1]); return r; }
static L b_inv(const Keys& k) { L r = 0; for (std::size_t i = 0; i < k.size(); ++i) for (std::size_t j = i + 1; j < k.size(); ++j) r += lt(k[j], k[i]); return r; }
static L b_dis(const Keys& k) { L r = 0; for (std::size_t i = 0; i < k.size(); ++i) for (std::size_t j = i + 1; j < k.size(); ++j) if (lt(k[j], k[i])) r = std::max<L>(r, j - i); return r; }
static L b_rem(const Keys& k) { std::vector<L> d(k.size()); L b = 0; for (std::size_t i = 0; i < k.size(); ++i) { d[i] = 1; for (std::size_t j = 0; j < i; ++j) if (LE(k[j], k[i])) d[i] = std::max(d[i], d[j] + 1); b = std::max(b, d[i]); } return L(k.size()) - b; }
static L b_sus(const Keys& k) { std::vector<L> d(k.size()); L b = 0; for (std::size_t i = 0; i < k.size(); ++i) { d[i] = 1; for (std::size_t j = 0; j < i; ++j) if (lt(k[i], k[j])) d[i] = std::max(d[i], d[j] + 1); b = std::max(b, d[i]); } return k.empty() ? 0 : b - 1; }
static L b_mono(const Keys& k) { if (k.size() < 2) return 0; L r = 0; std::size_t i = 0, n = k.size(); // longest monotone pieces, an optimal partition
    while (i < n) { ++r; std::size_t a = i + 1, b = i + 1; while (a < n && LE(k[a-1], k[a])) ++a; while (b < n && LE(k[b], k[b-1])) ++b; i = std::max(a, b); } return r - 1; }
static L b_osc(const Keys& k) { L r = 0; for (std::size_t i = 0; i < k.size(); ++i) for (std::size_t j = 0; j + 1 < k.size(); ++j) { int a = k[j], b = k[j+1]; if (lt(b, a)) std::swap(a, b); r += lt(a, k[i]) && lt(k[i], b); } return r; }
static L b_enc(const Keys& k) { std::vector<std::pair<int,int>> l; for (int x : k) { bool done = false; for (auto& p : l) { if (LE(x, p.first)) { p.first = x; done = true; break; } if (LE(p.second, x)) { p.second = x; done = true; break; } } if (!done) l.push_back({x, x}); } return l.empty() ? 0 : L(l.size()) - 1; }
static Keys sorted(Keys k) { std::stable_sort(k.begin(), k.end(), lt); return k; }
static L b_ham(const Keys& k) { auto s = sorted(k); L r = 0; for (std::size_t i = 0; i < k.size(); ++i) r += lt(k[i], s[i]) || lt(s[i], k[i]); return r; }
static L b_max(const Keys& k) { auto s = sorted(k); L r = 0; for (std::size_t i = 0; i < k.size(); ++i) { L lo = std::lower_bound(s.begin(), s.end(), k[i], lt) - s.begin(), hi = std::upper_bound(s.begin(), s.end(), k[i], lt) - s.begin(); L p = i; if (p < lo) r = std::max(r, lo - p); else if (p >= hi) r = std::max(r, p - hi + 1); } return r; }
static bool distinct(const Keys& k) { auto s = sorted(k); for (std::size_t i = 1; i < s.size(); ++i) if (!lt(s[i-1], s[i])) return false; return true; }
static L b_exc(const Keys& k) { auto s = sorted(k); std::vector<char> seen(k.size()); L cyc = 0; for (std::size_t i = 0; i < k.size(); ++i) if (!seen[i]) { ++cyc; std::size_t j = i; while (!seen[j]) { seen[j] = 1; j = std::lower_bound(s.begin(), s.end(), k[j], lt) - s.begin(); } } return L(k.size()) - cyc; }
static L b_block(const Keys& k) { // equivalent elements in their original relative order
    std::size_t n = k.size(); if (n < 2) return 0; std::vector<std::size_t> o(n); for (std::size_t i = 0; i < n; ++i) o[i] = i; std::stable_sort(o.begin(), o.end(), [&](auto a, auto b) { return lt(k[a], k[b]); });
    auto eqv = [&](int a, int b) { return !lt(a, b) && !lt(b, a); }; L r = 0;
    for (std::size_t i = 0; i + 1 < n; ++i) r += o[i] + 1 == n ? !eqv(k[o[i]], k[o[n-1]]) : !eqv(k[o[i] + 1], k[o[i+1]]); return r; }
template<class C> C make(const Keys& k) { C c; fill(c, k); return c; }
template<class C> void intact(const C& c, const Keys& k) { std::size_t i = 0; for (auto& e : c) { if (i >= k.size() || !e.live || e.id != int(i) || e.key != k[i]) { fail("C07", "the collection changed at position %zu", i); return; } ++i; } if (i != k.size()) fail("C07", "the collection changed size"); }
template<class Pb, class B> struct Probe { const char* name; Pb p; B brute; bool need_distinct; long mx_ok = 0; };
template<class Pb, class B, class C> void meas(const char* nm, Pb& p, B brute, bool nd, const char* cn, const Keys& k, bool oom) {
    snprintf(ctx, sizeof ctx, "probe::%s on %s<E>%s order=%d %s", nm, cn, oom ? " without memory" : "", rev, show(k).c_str()); tick(); if (k.size() > 1) ++nontriv; if (samples.size() < 4 && k.size() == 5) samples.push_back(ctx);
    C c = make<C>(k); const C& cc = c; long objs = n_objs; L got;
    if (oom) mem_limit = 0;
    try { got = L(p(cc, Cmp{}, Proj{})); } catch (const std::bad_alloc&) { mem_limit = -1; if (!oom) fail("C06 C07", "std::bad_alloc"); return; }
    mem_limit = -1;
    if (n_objs != objs) fail("C15 C07", "temporary elements leaked");
    intact(c, k);
    L mx = L(Pb::max_for_size(L(k.size())));
    if (got < 0 || got > mx) fail("C07", "returns %lld, above the documented maximum %lld", got, mx);
    bool srt = std::is_sorted(k.begin(), k.end(), lt);
    if (srt && got != 0) fail("C07 C06", "returns %lld on a sorted collection", got);
    if (!srt && got == 0 && strcmp(nm, "mono")  && strcmp(nm, "enc") && strcmp(nm, "osc")  ) fail("C06", "returns 0 on an unsorted collection");
    if (!nd || distinct(k)) { L want = brute(k); if (got != want) fail("C06", "returns %lld, the definition gives %lld", got, want); }
}
template<class Pb, class B> void go(const char* nm, Pb& p, B brute, bool nd, bool attained) {
    if (!only.empty() && only != nm) return;
    using V = std::vector<E>; using Li = std::list<E>; using F = std::forward_list<E>;
    auto all = [&](const Keys& k, bool lists) { meas<Pb, B, V>(nm, p, brute, nd, "vector", k, false); 
        if (lists) { meas<Pb, B, Li>(nm, p, brute, nd, "list", k, false); meas<Pb, B, F>(nm, p, brute, nd, "forward_list", k, false); } };
    for (int r : {0, 1, 2, 3}) { rev = r;
        for (int n = 0; n <= (r == 0 ? 6 : 5); ++n) { weak_orders(n, [&](const Keys& k) { all(k, n <= 5); if (n <= 5) { meas<Pb, B, V>(nm, p, brute, nd, "vector", k, true); meas<Pb, B, Li>(nm, p, brute, nd, "list", k, true); meas<Pb, B, F>(nm, p, brute, nd, "forward_list", k, true); } }); }
        std::vector<int> ns{7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 33, 47, 64, 65, 100, 128, 150}; if (thorough) ns.insert(ns.end(), {11, 13, 14, 20, 40, 80, 200, 257, 400});
        for (int n : ns) for (int q = 0; q < NPAT; ++q) for (int s = 0; s < (n < 70 ? (thorough ? 12 : 3) : 1); ++s) { auto in = pattern(q, n, unsigned(seed * 50 + s)); all(in.k, r == 0); if (s == 0 && r == 0) { meas<Pb, B, V>(nm, p, brute, nd, "vector", in.k, true); meas<Pb, B, Li>(nm, p, brute, nd, "list", in.k, true); meas<Pb, B, F>(nm, p, brute, nd, "forward_list", in.k, true); } } }
    rev = 0;
    if (attained) for (int n = strcmp(nm, "ham") ? 0 : 2; n <= 8; ++n) { L best = 0, mx = L(Pb::max_for_size(L(n))); snprintf(ctx, sizeof ctx, "probe::%s, every permutation of %d elements", nm, n); ++nontriv;
        permutations(n, [&](const Keys& k) { tick(); best = std::max(best, L(p(k))); });
        if (best != mx) fail("C07", "the largest value is %lld, max_for_size gives %lld", best, mx); }
    // other calling forms, other integer types for max_for_size, temporaries through the indirect adapter
    for (int n : {0, 1, 2, 3, 5, 9, 20, 40}) for (int q : {0, 2, 5}) { auto k = pattern(q, n, unsigned(seed)).k; L a = L(p(k)); snprintf(ctx, sizeof ctx, "probe::%s calling forms %s", nm, show(k).c_str()); tick();
        if (L(p(k.begin(), k.end())) != a || L(p(k, std::less<>{})) != a || L(p(k.begin(), k.end(), std::less<>{}, [](int x) { return x; })) != a || L(p(k, std::negate<>{})) != L(p(k, std::greater<>{}))) fail("C06 C18", "calling forms disagree");
        Keys e2 = k; auto ia = indirect_adapter<Pb>(p); if (k.size() < 2 || true) { std::deque<int> d(k.begin(), k.end()); if (L(p(d)) != a) fail("C06", "deque and vector disagree"); }
        int mi = Pb::max_for_size(int(n)); long ml = Pb::max_for_size(long(n)); unsigned mu = Pb::max_for_size(unsigned(n)); std::size_t mz = Pb::max_for_size(std::size_t(n)); if (L(mi) != L(ml) || L(mu) != L(ml) || L(mz) != L(ml)) fail("C07", "max_for_size depends on the integer type"); }
    if (prop == "C15") { std::vector<Keys> ks; for (int n : {2, 3, 5, 8, 17, 33, 70}) for (int q : {0, 1, 2, 4, 9, 14}) ks.push_back(pattern(q, n, unsigned(seed)).k);
        for (auto& k : ks) for (int what : {1, 2}) for (long at = 0; at < 3000; at += at < 20 ? 1 : 23) { snprintf(ctx, sizeof ctx, "probe::%s throwing from %s number %ld %s", nm, what == 1 ? "comparison" : "projection", at, show(k).c_str()); tick();
            auto run1 = [&](auto c) { fill(c, k); long objs = n_objs, bl = blocks; bool caught = false; throw_what = what; op_count = 0; throw_at = at; try { p(c, Cmp{}, Proj{}); } catch (const injected& x) { caught = x.n == at; } catch (...) { fail("C15", "a different exception"); }
                bool reached = op_count > at; throw_what = 0; throw_at = -1; if (reached && !caught) fail("C15", "the exception did not reach the caller"); if (n_objs != objs || blocks != bl) fail("C15", "leak: %ld elements %ld blocks", n_objs - objs, blocks - bl); return reached; };
            bool r = run1(V{}); r |= run1(F{}); r |= run1(Li{}); if (!r) break; } }
}
int main(int c, char** v) { init(c, v); modes(); samples.reserve(8);
  #define GO(n, nd, att) go(#n, probe::n, b_##n, nd, att)
  GO(runs, false, true); GO(inv, false, true); GO(dis, false, true); GO(rem, false, true); GO(sus, false, true); GO(mono, false, true); GO(osc, false, true); GO(enc, false, true);
  GO(ham, false, true); GO(max, false, true); GO(exc, true, true); GO(block, false, true);
  go("par", probe::par, b_dis, false, true);
  return finish(); }
