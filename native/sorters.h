// Runs one sorter over every input family in several modes; T::name, T::quad describe it.
#pragma once
#define NT_NEW
#include "nt.h"
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorter_traits.h>
using namespace nt;
namespace nt {
inline bool m_sort = true, m_oom = false, m_throw = false, m_count = false;
struct Opt { const char* name; bool quad = false; int maxn = 3000; bool oom_ok = false; bool no_mem = false; bool thr = true; int fixed = -1; double cmp_c = 0; bool linear_sorted = false; bool no_list = false; bool strict = true; };
template<class C> struct isfl : std::false_type {};
template<class... A> struct isfl<std::forward_list<A...>> : std::true_type {};
template<class C> void fill(C& c, const Keys& k) { if constexpr (isfl<C>::value) { auto it = c.before_begin(); for (std::size_t i = 0; i < k.size(); ++i) it = c.emplace_after(it, k[i], int(i)); } else { if constexpr (std::is_same<C, std::vector<E>>::value) c.reserve(k.size()); for (std::size_t i = 0; i < k.size(); ++i) c.emplace_back(k[i], int(i)); } }
inline std::vector<char> seen_cap;
// oracle: sorted permutation (C01), stability when reported (C02), discipline (C03, inside E)
template<class C> void check(const C& c, const Keys& k, bool stable, const char* also = "") {
    int prev = 0, pid = -1; std::size_t n = 0; auto& seen = seen_cap; seen.assign(k.size(), 0); bool first = true;
    std::string p01 = std::string("C01 C11 C16 C18 C12 ") + also;
    for (auto& e : c) {
        if (n >= k.size()) { fail(p01.c_str(), "collection grew"); return; }
        if (!e.live) { fail((p01 + " C03").c_str(), "an element at position %zu holds no value after the sort", n); return; }
        if (e.id < 0 || e.id >= int(k.size()) || seen[e.id] || k[e.id] != e.key) { fail((p01 + " C03").c_str(), "not a permutation: element at position %zu", n); return; }
        seen[e.id] = 1;
        if (!first && lt(e.key, prev)) { fail(p01.c_str(), "not sorted at position %zu (order %d)", n, rev); return; }
        if (stable && !first && !lt(prev, e.key) && !lt(e.key, prev) && e.id < pid) { fail((std::string("C02 C16 ") + also).c_str(), "equivalent elements swapped at position %zu (order %d)", n, rev); return; }
        prev = e.key; pid = e.id; first = false; ++n;
    }
    if (n != k.size()) fail(p01.c_str(), "collection shrank");
}
template<class S, class C> bool is_stable_for() { return bool(cppsort::is_stable<S(C&, Cmp, Proj)>::value); }
template<class S, class C> void one(S& s, const Opt& o, const char* cname, const char* pat, const Keys& k, bool stable) {
    snprintf(ctx, sizeof ctx, "%s on %s<E> %s order=%d %s", o.name, cname, pat, rev, show(k).c_str());
    strict = o.strict;
    tick(); if (k.size() > 1) ++nontriv;
    if (samples.size() < 3 && k.size() == 5) samples.push_back(ctx);
    long base = n_objs; 
    { C c; fill(c, k); 
      if (m_sort) { long objs = n_objs; s(c, Cmp{}, Proj{}); 
        if (n_objs != objs) fail("C03 C15", "%ld temporary element(s) not destroyed", n_objs - objs);
        check(c, k, stable); }
      else s(c, Cmp{}, Proj{}); }
    if (n_objs != base) fail("C03 C15", "element count unbalanced by %ld", n_objs - base);
}
template<class S, class C> void run_container(const Opt& o, const char* cname) {
    S s{}; bool stable = is_stable_for<S, C>();
    int maxn = o.quad ? std::min(o.maxn, 600) : o.maxn;
    if (!std::is_same<C, std::vector<E>>::value) maxn = std::min(maxn, 600);
    bool full = std::is_same<C, std::vector<E>>::value;
    auto feed = [&](auto f) {
        if (o.fixed >= 0) { int n = o.fixed;
            if (n <= 6 || (thorough && n == 7)) weak_orders(n, [&](const Keys& k) { f("weak-order", k); });
            if (n <= 8 && n >= 2) permutations(n, [&](const Keys& k) { f("permutation", k); });
            for (int p = 0; p < NPAT; ++p) for (int t = 0; t < (thorough ? 400 : 40); ++t) { auto in = pattern(p, n, unsigned(seed*1000+t)); f(in.name.c_str(), in.k); }
        } else all_inputs(o.quad, maxn, f); };
    if (m_sort) {
        rev = 0; feed([&](const char* p, const Keys& k) { one<S, C>(s, o, cname, p, k, stable); });
        if (o.fixed < 0) for (int r : {1, 2, 3}) { rev = r;   // other orders on a sample
            for (int n = 0; n <= 5; ++n) weak_orders(n, [&](const Keys& k) { one<S, C>(s, o, cname, "weak-order", k, stable); });
            for (int n : {8, 13, 17, 25, 33, 41, 50, 64, 65, 90, 130, 200, 300, 500}) if (n <= maxn) for (int p = 0; p < NPAT; ++p) { auto in = pattern(p, n, unsigned(seed)); one<S, C>(s, o, cname, in.name.c_str(), in.k, stable); } }
        rev = 0;
        if (full && o.fixed < 0) for (int n : {16, 20, 24, 31, 40, 47, 64, 80, 100, 128, 200, 257, 400, 600, 1100, 2500}) if (n <= maxn) {
            Keys k(n); for (int i = 0; i < n; ++i) k[i] = i;
            adv_gas = 1 << 28; adv_solid = 0; adv_cand = 0; adv_val.assign(n, adv_gas);
            { C c; fill(c, k); adversary = true; snprintf(ctx, sizeof ctx, "%s on %s<E> adversary n=%d", o.name, cname, n); tick(); s(c, Cmp{}, Proj{}); adversary = false; }
            Keys v(adv_val.begin(), adv_val.end()); one<S, C>(s, o, cname, "quicksort-killer", v, stable);
            for (auto& x : v) x /= 3; one<S, C>(s, o, cname, "quicksort-killer/3", v, stable);
        }
    }
    if (m_throw && o.thr && o.fixed < 0) {
        strict = false;
        std::vector<Keys> ks; for (int n : {2, 3, 5, 8, 12, 17, 24, 33, 48, 70, 100, 150, 300}) for (int p : {0, 1, 2, 4, 5, 6, 9, 14, 18, 26, 27, 31}) ks.push_back(pattern(p, n, unsigned(seed)).k);
        for (auto& k : ks) for (int what : {1, 2, 4}) {
            // number of operations without a throw
            throw_what = what; op_count = 0; throw_at = 1L << 60;
            { C c; fill(c, k); op_count = 0; snprintf(ctx, sizeof ctx, "%s on %s<E> dry run %s", o.name, cname, show(k).c_str()); tick(); s(c, Cmp{}, Proj{}); }
            long total = op_count; long step = thorough ? std::max(1L, total / 200) : std::max(1L, total / (k.size() < 30 ? 30 : 12));
            for (long at = 0; at < total; at += step) {
                snprintf(ctx, sizeof ctx, "%s on %s<E> throwing from %s number %ld of %ld %s", o.name, cname, what == 1 ? "comparison" : what == 2 ? "projection" : "element move", at, total, show(k).c_str());
                tick(); ++nontriv; if (samples.size() < 3) samples.push_back(ctx);
                long base = n_objs, bl = blocks; bool caught = false;
                { C c; throw_at = 1L << 60; fill(c, k); long objs = n_objs, cb = blocks; op_count = 0; throw_at = at;
                  try { s(c, Cmp{}, Proj{}); } catch (const injected& x) { caught = x.n == at; } catch (...) { fail("C15", "a different exception reached the caller"); caught = true; }
                  throw_at = 1L << 60;
                  if (!caught) fail("C15", "the exception did not reach the caller");
                  if (n_objs != objs) fail("C15", "%ld temporary element(s) leaked or destroyed twice", n_objs - objs);
                  if (blocks != cb) fail("C15", "%ld memory block(s) leaked or freed twice", blocks - cb); }
                if (n_objs != base || blocks != bl) fail("C15", "unbalanced after the collection died: %ld elements %ld blocks", n_objs - base, blocks - bl);
            }
        }
        // allocation failure in the middle (std::bad_alloc): nothing may leak either
        throw_what = 0; throw_at = -1;
        for (auto& k : ks) for (int at = 0; at < (thorough ? 60 : 12); ++at) {
            snprintf(ctx, sizeof ctx, "%s on %s<E> allocation %d fails %s", o.name, cname, at, show(k).c_str()); tick();
            C c; fill(c, k); long objs = n_objs, cb = blocks; new_fail_at = at;
            try { s(c, Cmp{}, Proj{}); } catch (const std::bad_alloc&) {} catch (...) { fail("C15", "an unexpected exception"); }
            bool reached = new_fail_at < 0; new_fail_at = -1;
            if (n_objs != objs) fail("C15", "%ld temporary element(s) leaked after an allocation failure", n_objs - objs);
            if (blocks != cb) fail("C15", "%ld memory block(s) leaked after an allocation failure", blocks - cb);
            if (!reached) break;
        }
        strict = true;
    }
    if (m_oom && o.oom_ok) {
        auto go = [&](const char* p, const Keys& k, long lim, int mode) {
            C c; fill(c, k);
            snprintf(ctx, sizeof ctx, "%s on %s<E> %s memory limit %ld bytes (%s) %s", o.name, cname, p, lim, mode ? "in total" : "per request", show(k).c_str());
            tick(); if (k.size() > 1) ++nontriv; if (samples.size() < 3 && k.size() == 5) samples.push_back(ctx);
            long objs = n_objs; strict = false;
            if (mode == 0) mem_limit = lim; else mem_total = live_bytes + lim;
            try { s(c, Cmp{}, Proj{}); } catch (const std::bad_alloc&) { mem_limit = mem_total = -1; fail("C16", "std::bad_alloc escaped"); return; } catch (...) { mem_limit = mem_total = -1; fail("C16", "an exception escaped"); return; }
            mem_limit = mem_total = -1; strict = true;
            if (n_objs != objs) fail("C16 C15", "%ld temporary element(s) not destroyed", n_objs - objs);
            check(c, k, stable);
        };
        for (int n = 0; n <= 5; ++n) weak_orders(n, [&](const Keys& k) { for (long lim : {0L, 16L, 32L, 64L}) go("weak-order", k, lim, 0); });
        for (int n : {6, 7, 9, 12, 15, 16, 17, 20, 24, 30, 33, 40, 47, 50, 60, 64, 65, 81, 100, 120, 128, 150, 200, 256, 300, 500}) for (int p = 0; p < NPAT; ++p) {
            auto in = pattern(p, n, unsigned(seed)); 
            if (thorough) { for (long l = 0; l <= n; l += std::max(1, n/16)) for (int m : {0, 1}) go(in.name.c_str(), in.k, l * 16, m); }
            else for (long l : {0L, 1L, long(n/16), long(n/8), long(n/4), long(n/3), long(n/2) - 1}) { if (l >= 0) { go(in.name.c_str(), in.k, l * 16, 0); } } }
        for (int r : {1, 2, 3}) { rev = r; for (int n : {20, 41, 100, 257}) for (int p = 0; p < NPAT; ++p) { auto in = pattern(p, n, unsigned(seed)); for (long l : {0L, 3L, 7L}) go(in.name.c_str(), in.k, l * 16, 0); } } rev = 0;
    }
    if (m_count && (o.cmp_c > 0 || o.linear_sorted) && full) {
        auto lg = [](double n) { double r = 0; while (n > 1) { n /= 2; ++r; } return r; };
        auto cnt = [&](const char* p, const Keys& k) {
            C c; fill(c, k); snprintf(ctx, sizeof ctx, "%s on %s<E> %s %s", o.name, cname, p, show(k).c_str()); tick(); ++nontriv; if (samples.size() < 3) samples.push_back(ctx);
            n_cmp = 0; s(c, Cmp{}, Proj{}); double n = k.size(); 
            if (o.cmp_c > 0 && n_cmp > o.cmp_c * n * lg(n) + 64) fail("C21", "%ld comparisons exceed %.1f n log2 n", n_cmp, o.cmp_c);
            if (o.linear_sorted && std::is_sorted(k.begin(), k.end()) && n_cmp > 4 * n + 64) fail("C21", "%ld comparisons on sorted input", n_cmp);
            if (getenv("NT_SHOW")) printf("%s %s n=%zu cmp=%ld ratio %.2f lin %.2f\n", o.name, p, k.size(), n_cmp, n_cmp / (n * lg(n)), n_cmp / n);
        };
        for (int n : {64, 100, 128, 200, 257, 400, 600, 1000, 2000, 4000}) for (int p = 0; p < NPAT; ++p) { auto in = pattern(p, n, unsigned(seed)); cnt(in.name.c_str(), in.k); }
        for (int n : {64, 128, 200, 257, 400, 600, 1000, 2000, 4000}) {
            Keys k(n); for (int i = 0; i < n; ++i) k[i] = i;
            adv_gas = 1 << 28; adv_solid = 0; adv_cand = 0; adv_val.assign(n, adv_gas);
            { C c; fill(c, k); adversary = true; s(c, Cmp{}, Proj{}); adversary = false; }
            cnt("quicksort-killer", Keys(adv_val.begin(), adv_val.end()));
        }
    }
}
template<class S, class = void> struct cat_of { using type = std::forward_iterator_tag; };
template<class S> struct cat_of<S, std::void_t<typename S::iterator_category>> { using type = typename S::iterator_category; };
template<class S> void run(const Opt& o) {
    if (!only.empty() && std::string(o.name).find(only) == std::string::npos) return;
    using cat = typename cat_of<S>::type;
    run_container<S, std::vector<E>>(o, "vector");
#ifndef NT_RA_ONLY
    if constexpr (std::is_convertible<std::bidirectional_iterator_tag, cat>::value) if (!m_count) run_container<S, std::list<E>>(o, "list");
    if constexpr (std::is_convertible<std::forward_iterator_tag, cat>::value) if (!m_count) run_container<S, std::forward_list<E>>(o, "forward_list");
#endif
}
inline void modes() { m_oom = prop == "C16"; m_throw = prop == "C15"; m_count = prop == "C21"; m_sort = !(m_oom || m_throw || m_count); }
}
