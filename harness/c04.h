#pragma once
// every sorting network of every size: the compare-exchanges that run, the pairs they expose and the public helpers (C04)
#include "vco.h"
#include <array>
#include <vector>
#include <cpp-sort/fixed/sorting_network_sorter.h>
#include <cpp-sort/fixed/odd_even_merge_network_sorter.h>
#include <cpp-sort/fixed/merge_exchange_network_sorter.h>
#include <cpp-sort/utility/sorting_networks.h>
#ifdef VC_REPLAY
static void __vc_net(void* p, int n, const char* nm) { __vc_sorted(p, n, nm); }
static void __vc_same(void* p, int n, const char* nm) {}
#else
extern "C" { void __vc_net(void*, int, const char*); void __vc_same(void*, int, const char*); }
#endif
template<class S, int N> static void net(const char* nm) {
    { E a[N]; S{}(a, a + N, Lt{}); __vc_net(a, N, nm); }
#ifndef VC_REPLAY
    { E a[N]; cppsort::utility::swap_index_pairs(a, S::index_pairs(), Lt{}); __vc_same(a, N, "swap_index_pairs(index_pairs())"); }
    { int a[N]; S{}(a, a + N); __vc_same(a, N, "on int with the default comparison"); }
    { double a[N]; S{}(a, a + N, std::greater<>{}); __vc_same(a, N, "on double with std::greater<>"); }
    { E a[N]; auto pr = S::template index_pairs<int>(); cppsort::utility::swap_index_pairs(a, pr, Lt{}, cppsort::utility::identity{}); __vc_same(a, N, "swap_index_pairs(index_pairs<int>())"); }
    if constexpr (N <= 12) { E a[N]; auto pr = S::template index_pairs<int>(); cppsort::utility::swap_index_pairs_force_unroll(a, pr, Lt{}, cppsort::utility::identity{}); __vc_same(a, N, "swap_index_pairs_force_unroll"); }
#endif
}
#define SN(n) extern "C" void vc_sn_##n() { net<cppsort::sorting_network_sorter<n>, n>("sorting_network_sorter"); }
#define ME(n) extern "C" void vc_me_##n() { net<cppsort::merge_exchange_network_sorter<n>, n>("merge_exchange_network_sorter"); }
#define OE(n) extern "C" void vc_oe_##n() { net<cppsort::odd_even_merge_network_sorter<n>, n>("odd_even_merge_network_sorter"); }
