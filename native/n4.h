#pragma once
// sorting networks (C04): every call form is replayed on recording elements; sortedness of the recorded
// network is decided for all inputs with the 0-1 principle (complete, see decide())
#include "nt.h"
#include <array>
#include <map>
#include <unordered_set>
#include <cpp-sort/fixed/sorting_network_sorter.h>
#include <cpp-sort/fixed/odd_even_merge_network_sorter.h>
#include <cpp-sort/fixed/merge_exchange_network_sorter.h>
#include <cpp-sort/utility/sorting_networks.h>
using namespace nt;
using Net = std::vector<std::pair<int,int>>; using u64 = std::uint64_t;
static int K[128]; static int vals[128]; static Net rec;
static const int CE[65] = {0,0,1,3,5,9,12,16,19,25,29,35,39,45,51,56,60,71,77,85,91,99,106,114,120,130,139,147,155,164,172,180,185,199,209,220,227,240,250,259,265,282,291,303,309,324,332,340,346,365,376,387,395,411,421,432,438,454,465,476,483,497,506,515,521};
struct P { int pos, key; };   // pos: the slot (fixed), key: what moves
static P* base; static long ncmp;
struct El { int key, id; };
static El* E0;
// comparator on elements records the slots it is given
struct Rec { bool operator()(const El& a, const El& b) const { ++ncmp; int i = int(&a - E0), j = int(&b - E0); rec.push_back({std::min(i, j), std::max(i, j)}); return a.key < b.key; } };
// the comparator is applied as compare(second, first) on slots; on Projection the reference identity is lost, so a recording projection returns references
struct Id { template<class T> T&& operator()(T&& t) const { return std::forward<T>(t); } };

// 0-1 principle: the set of 0-1 vectors a network can produce, kept per connected component of what ran so far.
static bool decide(const Net& nw, int n, std::string& why) {
    struct C { u64 mask; std::vector<u64> vs; }; std::vector<C> cs; std::vector<int> of(n), since(n, 0);
    for (int i = 0; i < n; ++i) { cs.push_back({u64(1) << i, {0, u64(1) << i}}); of[i] = i; }
    // dependency order is free between disjoint slots: run everything inside components before joining two of them
    std::vector<std::vector<int>> q(n); for (int i = 0; i < int(nw.size()); ++i) { q[nw[i].first].push_back(i); q[nw[i].second].push_back(i); }
    std::vector<std::size_t> h(n, 0); std::size_t done = 0;
    auto uniq = [](std::vector<u64>& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); };
    while (done < nw.size()) {
        bool prog = false; int best = -1; double bs = 1e300;
        std::vector<char> dirty(n, 0);
        for (bool again = true; again;) { again = false;
            for (int s = 0; s < n; ++s) while (h[s] < q[s].size()) { int e = q[s][h[s]]; int a = nw[e].first, b = nw[e].second; int o = a == s ? b : a; if (h[o] >= q[o].size() || q[o][h[o]] != e) break;
                if (of[a] == of[b]) { auto& v = cs[of[a]].vs; u64 A = u64(1) << a, B = u64(1) << b; for (auto& x : v) if ((x & A) && !(x & B)) x ^= A | B; dirty[of[a]] = 1; ++h[a]; ++h[b]; ++done; prog = again = true; if (v.size() > 4096 && ++since[of[a]] % 16 == 0) uniq(v); }
                else break; } }
        for (int i = 0; i < n; ++i) if (dirty[i]) uniq(cs[i].vs);
        if (done == nw.size()) break;
        for (int s = 0; s < n; ++s) if (h[s] < q[s].size()) { int e = q[s][h[s]]; int a = nw[e].first, b = nw[e].second; int o = a == s ? b : a; if (h[o] >= q[o].size() || q[o][h[o]] != e || of[a] == of[b]) continue; double z = double(cs[of[a]].vs.size()) * cs[of[b]].vs.size(); if (z < bs) { bs = z; best = e; } }
        if (best < 0) { if (prog) continue; why = "inconsistent"; return false; }
        if (bs > 8e7) { why = "too large"; return true; }
        int a = of[nw[best].first], b = of[nw[best].second]; std::vector<u64> v; v.reserve(std::size_t(bs)); for (u64 x : cs[a].vs) for (u64 y : cs[b].vs) v.push_back(x | y);
        for (int i = 0; i < n; ++i) if (of[i] == b) of[i] = a; cs[a].mask |= cs[b].mask; cs[a].vs.swap(v); cs[b].vs.clear(); cs[b].vs.shrink_to_fit();
    }
    for (int i = 1; i < n; ++i) if (of[i] != of[0]) { why = "slot " + std::to_string(i) + " is never compared"; return false; }
    for (u64 x : cs[of[0]].vs) { int ones = __builtin_popcountll(x); u64 want = ones == 0 ? 0 : (~u64(0) << (64 - ones)) >> (64 - n); if (x != want) { // backward: recover an input
            u64 t = x; why = "a 0-1 input ends as "; for (int i = 0; i < n; ++i) why += char('0' + ((t >> i) & 1)); return false; } }
    return true; }
static std::map<Net, bool> seenok;
template<class A> Net as_net(const A& a) { Net r; for (auto& p : a) r.push_back({int(p.first), int(p.second)}); return r; }
static Net norm(const Net& a) { Net r = a; for (auto& p : r) if (p.second < p.first) std::swap(p.first, p.second); return r; }
// the same network up to the order of operations on disjoint slots
static bool same_network(const Net& a, const Net& b, int n) { std::vector<std::vector<std::pair<int,int>>> x(n), y(n); for (auto p : norm(a)) { x[p.first].push_back(p); x[p.second].push_back(p); } for (auto p : norm(b)) { y[p.first].push_back(p); y[p.second].push_back(p); } return x == y; }
static std::mt19937 G;
template<int N, class F> void go(const char* nm, int doc, const Net& pairs, F run) {
    Net first; bool have = false;
    for (int t = 0; t < (thorough ? 200 : 12); ++t) {
        std::vector<El> e(N + 1); for (int i = 0; i < N; ++i) e[i] = {t == 0 ? i : t == 1 ? N - i : t == 2 ? 0 : int(G() % (t % 2 ? 2 : 2 * N)), i};
        snprintf(ctx, sizeof ctx, "%s<%d> input %d", nm, N, t); tick(); if (N > 1) ++nontriv;
        auto in = e; E0 = e.data(); rec.clear(); run(e); 
        std::vector<char> seen(N, 0); for (int i = 0; i < N; ++i) { if (e[i].id < 0 || e[i].id >= N || seen[e[i].id] || e[i].key != in[e[i].id].key) { fail("C04", "not a permutation"); return; } seen[e[i].id] = 1; if (i && e[i].key < e[i-1].key) { std::string s; for (int j = 0; j < N; ++j) s += std::to_string(in[j].key) + ","; fail("C04", "position %d is not sorted, input %s", i, s.c_str()); return; } }
        if (!have) { first = rec; have = true; } else if (!(norm(rec) == norm(first))) fail("C04", "the sequence of compare-exchanges depends on the values");
        if (doc >= 0 && int(rec.size()) != doc) { fail("C04", "%zu comparisons, %d are documented", rec.size(), doc); return; }
    }
    if (!same_network(first, pairs, N ? N : 1)) fail("C04", "index_pairs() is not the network that runs");
    for (auto& p : pairs) if (p.first < 0 || p.second < 0 || p.first >= N || p.second >= N || p.first == p.second) { fail("C04", "index pair (%d,%d) outside the collection", p.first, p.second); return; }
    snprintf(ctx, sizeof ctx, "%s<%d> all inputs", nm, N); alarm(250);
    for (const Net* x : {(const Net*)&first, &pairs}) { if (seenok.count(*x)) continue; std::string why; bool ok = N < 2 || decide(*x, N, why); if (!ok) { fail("C04", "%s", why.c_str()); continue; } seenok[*x] = true; if (!why.empty()) printf("NOTE %s: %s\n", ctx, why.c_str()); }
}
#ifndef LO
#define LO 0
#define HI 32
#endif
template<template<std::size_t> class S, int N> void one(const char* nm, int doc) {
    auto pr = S<N>::index_pairs(); Net pairs = as_net(pr);
    if (int(pairs.size()) != doc && doc >= 0) { snprintf(ctx, sizeof ctx, "%s<%d>", nm, N); fail("C04", "index_pairs() has %zu pairs, %d are documented", pairs.size(), doc); }
    go<N>(nm, doc, pairs, [](std::vector<El>& e) { S<N>{}(e.begin(), e.begin() + N, Rec{}); });
    go<N>("swap_index_pairs", doc, pairs, [&](std::vector<El>& e) { cppsort::utility::swap_index_pairs(e.begin(), pr, Rec{}); });
#ifdef UNROLL
    if constexpr (N > 1) { go<N>("swap_index_pairs_force_unroll", doc, pairs, [&](std::vector<El>& e) { cppsort::utility::swap_index_pairs_force_unroll(e.data(), pr, Rec{}); }); }
#endif
    // projection and a descending order
    for (int t = 0; t < 4; ++t) { std::array<El, N + 1> a; std::vector<int> k; for (int i = 0; i < N; ++i) { a[i] = {int(G() % 50), i}; k.push_back(a[i].key); } snprintf(ctx, sizeof ctx, "%s<%d> projected descending", nm, N); tick(); std::sort(k.begin(), k.end(), std::greater<>{});
        if (t % 2) S<N>{}(a.begin(), a.begin() + N, std::greater<>{}, &El::key); else cppsort::utility::swap_index_pairs(a.begin(), S<N>::template index_pairs<int>(), std::greater<>{}, &El::key);
        for (int i = 0; i < N; ++i) if (a[i].key != k[i]) { fail("C04", "position %d", i); break; } }
}
template<int... I> void nets(std::integer_sequence<int, I...>) { (one<cppsort::sorting_network_sorter, LO + I>("sorting_network_sorter", CE[LO + I]), ...); }
template<int... I> void mex(std::integer_sequence<int, I...>) { (one<cppsort::merge_exchange_network_sorter, LO + I>("merge_exchange_network_sorter", -1), ...); }
int main(int c, char** v) { init(c, v); G.seed(seed);
#if PART == 0
    nets(std::make_integer_sequence<int, HI - LO + 1>());
#else
    mex(std::make_integer_sequence<int, HI - LO + 1>());
  #if LO == 0
    one<cppsort::odd_even_merge_network_sorter, 0>("odd_even_merge_network_sorter", 0); one<cppsort::odd_even_merge_network_sorter, 1>("odd_even_merge_network_sorter", 0); one<cppsort::odd_even_merge_network_sorter, 2>("odd_even_merge_network_sorter", 1); one<cppsort::odd_even_merge_network_sorter, 4>("odd_even_merge_network_sorter", 5); one<cppsort::odd_even_merge_network_sorter, 8>("odd_even_merge_network_sorter", 19); one<cppsort::odd_even_merge_network_sorter, 16>("odd_even_merge_network_sorter", 63); one<cppsort::odd_even_merge_network_sorter, 32>("odd_even_merge_network_sorter", 191); one<cppsort::odd_even_merge_network_sorter, 64>("odd_even_merge_network_sorter", 543);
  #endif
#endif
    samples.push_back(ctx); return finish(); }
