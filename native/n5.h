// small fixed-size sorters (C05): every permutation of every size, costs summed and compared with the documented weights
#pragma once
#include "nt.h"
#include <cpp-sort/fixed/low_comparisons_sorter.h>
#include <cpp-sort/fixed/low_moves_sorter.h>
using namespace nt; using i64 = long long;
static const i64 CW[14] = {0,0,2,16,112,832,6912,62784,623232,6759936,79937280,1020833280,15167554560LL,223436206080LL};
static const i64 MW[14] = {0,0,3,17,122,898,7188,63276,612048,6476112,74558880,929011680,12465394560LL,179294186880LL};
static i64 cmps = 0, movs = 0;
struct CL { bool operator()(int a, int b) const { ++cmps; return a < b; } };
struct M { signed char k; bool dead = false; M(int k = 0): k((signed char)k) {} M(M&& o): k(o.k) { ++movs; o.dead = true; o.k = 100; } M& operator=(M&& o) { ++movs; k = o.k; dead = o.dead; o.dead = true; o.k = 100; return *this; } };
struct ML { bool operator()(const M& a, const M& b) const { return a.k < b.k; } };
static std::string sh(const int* a, int n) { std::string s; for (int i = 0; i < n; ++i) s += std::to_string(a[i]) + ","; return s; }
template<int N> void cmp_all() { int a[N + 1], b[N + 1]; for (int i = 0; i < N; ++i) a[i] = i; cmps = 0; i64 cnt = 0; snprintf(ctx, sizeof ctx, "low_comparisons_sorter<%d> every permutation", N);
    do { if ((++cnt & 0xfffff) == 1) alarm(60); memcpy(b, a, sizeof b); cppsort::low_comparisons_sorter<N>{}(b, b + N, CL{}); bool ok = true; for (int i = 0; i < N; ++i) ok &= b[i] == i; if (!ok) { snprintf(ctx, sizeof ctx, "low_comparisons_sorter<%d> on %s", N, sh(a, N).c_str()); fail("C05", "result %s", sh(b, N).c_str()); return; } } while (std::next_permutation(a, a + N));
    evals += cnt; if (N > 1) nontriv += cnt; if (cmps > CW[N]) fail("C05", "%lld comparisons over all permutations, the documented weight is %lld", cmps, CW[N]); }
template<int N> void mov_all() { int a[N + 1]; for (int i = 0; i < N; ++i) a[i] = i; movs = 0; i64 cnt = 0; snprintf(ctx, sizeof ctx, "low_moves_sorter<%d> every permutation", N); M b[N + 1];
    do { if ((++cnt & 0xfffff) == 1) alarm(60); for (int i = 0; i < N; ++i) { b[i].k = (signed char)a[i]; b[i].dead = false; } cppsort::low_moves_sorter<N>{}(b, b + N, ML{}); bool ok = true; for (int i = 0; i < N; ++i) ok &= b[i].k == i; if (!ok) { snprintf(ctx, sizeof ctx, "low_moves_sorter<%d> on %s", N, sh(a, N).c_str()); fail("C05", "wrong result"); return; } } while (std::next_permutation(a, a + N));
    evals += cnt; if (N > 1) nontriv += cnt; if (movs > MW[N]) fail("C05", "%lld moves over all permutations, the documented weight is %lld", movs, MW[N]); }
template<int N> void weak() { weak_orders(N, [&](const Keys& k) { int a[N + 1]; std::copy(k.begin(), k.end(), a); M b[N + 1]; for (int i = 0; i < N; ++i) b[i].k = (signed char)k[i]; ++evals; ++nontriv; auto s = k; std::sort(s.begin(), s.end()); cppsort::low_comparisons_sorter<N>{}(a, a + N); cppsort::low_moves_sorter<N>{}(b, b + N, ML{}); snprintf(ctx, sizeof ctx, "low_comparisons_sorter / low_moves_sorter<%d> on %s", N, show(k).c_str()); for (int i = 0; i < N; ++i) if (a[i] != s[i] || b[i].k != s[i]) { fail("C05", "position %d", i); break; } }); }
// sizes whose algorithm first sorts an inner range with a smaller sorter, then inserts: the weight follows from
// the weight of the inner sorter and from the insertions of every arrangement around a sorted inner range
template<int N, int I, int OFF> void cmp_insert() { std::mt19937 g(seed); i64 sum = 0, base; { int s[I]; for (int i = 0; i < I; ++i) s[i] = i; cmps = 0; cppsort::low_comparisons_sorter<I>{}(s, s + I, CL{}); base = cmps; }
    std::vector<int> outs; i64 arr = 0; for (int i = 0; i < N; ++i) if (i < OFF || i >= OFF + I) outs.push_back(i);
    int k = N - I; std::vector<int> sel(N, 0); std::fill(sel.end() - k, sel.end(), 1);
    do { std::vector<int> in, out; for (int i = 0; i < N; ++i) (sel[i] ? out : in).push_back(i);
        do { int a[N]; std::copy(in.begin(), in.end(), a + OFF); for (int i = 0; i < k; ++i) a[outs[i]] = out[i]; int b[N]; memcpy(b, a, sizeof b); cmps = 0; cppsort::low_comparisons_sorter<N>{}(a, a + N, CL{}); sum += cmps - base; ++arr; ++evals; ++nontriv; snprintf(ctx, sizeof ctx, "low_comparisons_sorter<%d> on %s", N, sh(b, N).c_str()); for (int i = 0; i < N; ++i) if (a[i] != i) { fail("C05", "position %d", i); return; } } while (std::next_permutation(out.begin(), out.end())); } while (std::next_permutation(sel.begin(), sel.end()));
    i64 fI = 1; for (int i = 2; i <= I; ++i) fI *= i; i64 w = arr * CW[I] + fI * sum; snprintf(ctx, sizeof ctx, "low_comparisons_sorter<%d> every permutation (weight composed from size %d)", N, I); if (w > CW[N]) fail("C05", "%lld comparisons over all permutations, the documented weight is %lld", w, CW[N]); }
