// Bounded stand-in / refuter support: instrumented element type, input families, failure injection.
// Everything is header-only; every native program is one translation unit using the real headers of /repo.
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <new>
#include <random>
#include <signal.h>
#include <string>
#include <type_traits>
#include <unistd.h>
#include <utility>
#include <vector>
#include <sanitizer/asan_interface.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void));

namespace nt {
// ---------------------------------------------------------------- reporting
inline std::string prop = "C01";         // property being decided: only its failures count
inline std::string only;                 // substring filter on the subject
inline long seed = 1; inline bool thorough = false;
inline unsigned long evals = 0, nontriv = 0;
inline int nfail = 0;
inline char ctx[4096] = "start";
inline std::vector<std::string> samples;
inline void death() { fprintf(stdout, "CRASH case: %s\n", ctx); fflush(stdout); }
inline void on_alarm(int) { fprintf(stdout, "FAIL %s does not terminate (60 s) case: %s\n", prop.c_str(), ctx); fflush(stdout); _exit(1); }
inline void on_sig(int s) { fprintf(stdout, "CRASH signal %d case: %s\n", s, ctx); fflush(stdout); _exit(2); }
inline bool wants(const char* props) { return strstr(props, prop.c_str()) != nullptr; }
inline void fail(const char* props, const char* fmt, ...) {
    if (!wants(props)) return;
    if (nfail++ < 4) {
        char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        fprintf(stdout, "FAIL %s %s case: %s\n", prop.c_str(), b, ctx); fflush(stdout);
    }
}
inline void init(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--prop") prop = argv[++i]; else if (a == "--only") only = argv[++i];
        else if (a == "--seed") seed = atol(argv[++i]); else if (a == "--thorough") thorough = true;
    }
#if __has_feature(address_sanitizer)
    __sanitizer_set_death_callback(death);
#endif
    signal(SIGALRM, on_alarm); signal(SIGABRT, on_sig); signal(SIGTERM, on_sig);
}
inline int finish() {
    printf("STATS evaluations=%lu nontrivial=%lu\n", evals, nontriv);
    for (auto& s : samples) printf("SAMPLE %s\n", s.c_str());
    if (nfail) printf("FAILED %d\n", nfail);
    fflush(stdout);
    _exit(nfail ? 1 : 0);
}
inline void tick() { ++evals; alarm(60); }

// ---------------------------------------------------------------- memory accounting and exhaustion
inline long blocks = 0;                  // live heap blocks
inline bool count_blocks = true;
inline long mem_limit = -1;              // a single request above this many bytes fails (-1: no limit)
inline long mem_total = -1;              // total bytes that may be live (-1: no limit)
inline long new_fail_at = -1;            // the k-th allocation throws
inline bool bad_alloc_seen = false;

// ---------------------------------------------------------------- element
enum : std::uint32_t { MAGIC = 0xE1E3E4E5u, GONE = 0xDEADDEADu };
struct E;
inline long n_objs = 0, n_moves = 0, n_cmp = 0, n_proj = 0, n_swaps = 0;
inline long throw_at = -1;               // throws when op_count reaches it
inline long op_count = 0; inline int throw_what = 0;   // 1 comparison, 2 projection, 4 move
struct injected { long n; };
inline void op(int what) { if (throw_what & what) { if (throw_at >= 0 && op_count++ == throw_at) throw injected{throw_at}; } }
inline bool strict = true;               // check the move discipline
struct E {
    int key; int id; std::uint32_t magic; std::uint32_t live;
    E() : key(-7777777), id(-1), magic(MAGIC), live(0) { ++n_objs; }
    E(int k, int i) : key(k), id(i), magic(MAGIC), live(1) { ++n_objs; }
    E(E&& o) : key(0), id(0), magic(0), live(0) {
        chk(o, "move-construct from"); op(4);
        if (!o.live && strict) fail("C03", "moves a value out of an element that no longer holds one (construct)");
        key = o.key; id = o.id; live = o.live; magic = MAGIC; ++n_objs; ++n_moves;
        o.live = 0; o.key = -9999999;
    }
    E& operator=(E&& o) {
        chk(o, "move-assign from"); chk(*this, "move-assign to"); op(4);
        if (this == &o) { if (live && strict) fail("C03", "self move assignment"); ++n_moves; return *this; }
        if (!o.live && strict) fail("C03", "moves a value out of an element that no longer holds one (assign)");
        key = o.key; id = o.id; live = o.live; ++n_moves; o.live = 0; o.key = -9999999;
        return *this;
    }
    ~E() { chk(*this, "destroy"); magic = GONE; --n_objs; }
    E(const E&) = delete; E& operator=(const E&) = delete;
    static void chk(const E& e, const char* w) { if (e.magic != MAGIC) { fail("C03 C15 C01 C02 C16 C11 C17 C20", "%s: no element lives there", w); if (nfail > 100) _exit(1); } }
    friend void swap(E& a, E& b) {
        chk(a, "swap"); chk(b, "swap"); op(4);
        if (!a.live && !b.live && strict) fail("C03", "swap of two elements without value");
        std::swap(a.key, b.key); std::swap(a.id, b.id); std::swap(a.live, b.live); n_moves += 3; ++n_swaps;
    }
};
inline const int* klo = nullptr;
struct Proj { const int& operator()(const E& e) const { ++n_proj; op(2); E::chk(e, "projection"); if (!e.live && strict) fail("C03", "projection sees an element without value"); return e.key; } };
// adversary of McIlroy, "A Killer Adversary for Quicksort"
inline bool adversary = false; inline std::vector<int> adv_val; inline int adv_gas, adv_solid, adv_cand;
inline int rev = 0;                      // 1: descending, 2: ascending by key/2, 3: all equivalent
struct Cmp {
    bool operator()(const int& a, const int& b) const {
        ++n_cmp; op(1);
        if (adversary) {
            if (adv_val[a] == adv_gas && adv_val[b] == adv_gas) { if (a == adv_cand) adv_val[a] = adv_solid++; else adv_val[b] = adv_solid++; }
            if (adv_val[a] == adv_gas) adv_cand = a; else if (adv_val[b] == adv_gas) adv_cand = b;
            return adv_val[a] < adv_val[b];
        }
        switch (rev) { case 1: return b < a; case 2: return (a >> 1) < (b >> 1); case 3: return false; default: return a < b; }
    }
};
inline bool lt(int a, int b) { switch (rev) { case 1: return b < a; case 2: return (a >> 1) < (b >> 1); case 3: return false; default: return a < b; } }

// ---------------------------------------------------------------- inputs
using Keys = std::vector<int>;
struct Input { std::string name; Keys k; };
inline std::string show(const Keys& k, std::size_t lim = 48) {
    std::string s = "["; for (std::size_t i = 0; i < k.size() && i < lim; ++i) { if (i) s += ","; s += std::to_string(k[i]); }
    if (k.size() > lim) s += ",..."; return s + "] n=" + std::to_string(k.size());
}
// every weak order on n elements, as rank vectors
template<class F> void weak_orders(int n, F f) {
    Keys k(n);
    struct R { static void go(Keys& k, int i, int n, F& f) {
        if (i == n) { unsigned m = 0; int mx = -1; for (int x : k) { m |= 1u << x; mx = std::max(mx, x); }
            if (n == 0 || m == (2u << mx) - 1) f(k); return; }
        for (int v = 0; v < n; ++v) { k[i] = v; go(k, i+1, n, f); } } };
    R::go(k, 0, n, f);
}
template<class F> void permutations(int n, F f) { Keys k(n); for (int i = 0; i < n; ++i) k[i] = i; do f(k); while (std::next_permutation(k.begin(), k.end())); }
inline const int NPAT = 32;
inline Input pattern(int p, int n, unsigned sd) {
    std::mt19937 g(sd * 7919u + n * 104729u + p); Input r; Keys& k = r.k; k.resize(n); auto rnd = [&](int m) { return m > 0 ? int(g() % unsigned(m)) : 0; };
    auto iota = [&] { for (int i = 0; i < n; ++i) k[i] = i; };
    switch (p) {
    case 0: iota(); std::shuffle(k.begin(), k.end(), g); r.name = "shuffled"; break;
    case 1: iota(); r.name = "ascending"; break;
    case 2: for (int i = 0; i < n; ++i) k[i] = n - i; r.name = "descending"; break;
    case 3: for (auto& x : k) x = 5; r.name = "all-equal"; break;
    case 4: for (auto& x : k) x = rnd(2); r.name = "2-values"; break;
    case 5: for (auto& x : k) x = rnd(16); r.name = "16-values"; break;
    case 6: for (int i = 0; i < n; ++i) k[i] = i < n/2 ? i : n - i; r.name = "pipe-organ"; break;
    case 7: for (int i = 0; i < n; ++i) k[i] = i % std::max(1, n/7+1); r.name = "sawtooth"; break;
    case 8: for (int i = 0; i < n; ++i) k[i] = -(i % std::max(1, n/5+1)); r.name = "desc-sawtooth"; break;
    case 9: for (int i = 0; i < n; ++i) k[i] = i + 1; if (n) k[n-1] = 0; r.name = "push-front"; break;
    case 10: for (int i = 0; i < n; ++i) k[i] = i >= n/2 ? i+1 : i; if (n) k[n-1] = n/2; r.name = "push-middle"; break;
    case 11: for (int i = 0; i < n; ++i) k[i] = (i & 1) ? i : -i; r.name = "alternating"; break;
    case 12: iota(); for (int j = 0; j < 1 + n/20; ++j) if (n) std::swap(k[rnd(n)], k[rnd(n)]); r.name = "few-swaps"; break;
    case 13: iota(); for (int i = 0; i + 1 < n; i += 2) std::swap(k[i], k[i+1]); r.name = "adjacent-swaps"; break;
    case 14: { int i = 0; while (i < n) { int l = 1 + rnd(std::max(2, n/3)); int b = rnd(n), d = rnd(3) - 1; for (int j = 0; j < l && i < n; ++j, ++i) k[i] = b + d * j; } r.name = "runs"; } break;
    case 15: { int i = 0; while (i < n) { int l = 1 + rnd(20); int b = rnd(n), d = rnd(2); for (int j = 0; j < l && i < n; ++j, ++i) k[i] = b - d * j + (1-d) * j; } r.name = "short-runs"; } break;
    case 16: for (int i = 0; i < n; ++i) k[i] = (i * 7) % std::max(1, n/2+1); r.name = "modular"; break;
    case 17: { iota(); for (int i = 0; i < n/2; ++i) { if (i % 2 == 0) k[i] = i + 1; else k[i] = n/2 + i + (n/2 % 2 ? 0 : 1); } for (int i = n/2; i < n; ++i) k[i] = (i - n/2 + 1) * 2; r.name = "median-of-3-killer"; } break;
    case 18: for (auto& x : k) x = rnd(std::max(1, n/4 + 1)); r.name = "quarter-values"; break;
    case 19: for (int i = 0; i < n; ++i) k[i] = i / 3; std::reverse(k.begin(), k.end()); for (int j = 0; j < n/10; ++j) std::swap(k[rnd(n)], k[rnd(n)]); r.name = "desc-blocks"; break;
    case 20: for (int i = 0; i < n; ++i) k[i] = i < n/3 ? i : rnd(n); r.name = "sorted-prefix"; break;
    case 21: for (int i = 0; i < n; ++i) k[i] = i > 2*n/3 ? i : rnd(n); r.name = "sorted-suffix"; break;
    case 22: for (int i = 0; i < n; ++i) k[i] = (i % 2) ? i / 2 : n/2 + i / 2; r.name = "interleaved"; break;
    case 23: for (int i = 0; i < n; ++i) k[i] = i; if (n > 2) std::rotate(k.begin(), k.begin() + 1 + rnd(n-1), k.end()); r.name = "rotated"; break;
    case 24: for (int i = 0; i < n; ++i) k[i] = rnd(3) ? 1 : rnd(3); r.name = "mostly-equal"; break;
    case 25: for (int i = 0; i < n; ++i) k[i] = i + rnd(8) - 4; r.name = "nearly-sorted"; break;
    // runs of every kind of length, ascending, descending or flat, one below the other or anywhere
    case 26: case 27: case 28: {
        int lg = 1; while ((2 << lg) <= n) ++lg;
        const int lens[] = {1, 1, 2, 3, 4, 8, 9, 16, n/16, n/lg - 1, n/lg, n/lg + 1, n/lg + 2, n/8, n/5, n/4, n/3}; int i = 0, top = 4 * n;
        while (i < n) { int l = std::max(1, lens[rnd(17)]), d = rnd(5); d = d < 3 ? 1 : d - 4; l = std::min(l, n - i); int b;
            if (p == 26) { b = rnd(3) ? top - (d < 0 ? 0 : l) : rnd(4 * n); top = b - (d < 0 ? l : 0) - 1; } else b = rnd(2 * n);
            for (int j = 0; j < l; ++j, ++i) k[i] = p == 28 ? (b + d * j) / std::max(1, n/6) : b + d * j; }
        r.name = p == 26 ? "falling-runs" : p == 27 ? "mixed-runs" : "mixed-runs-with-ties"; } break;
    case 29: iota(); for (auto& x : k) if (!rnd(12)) x = rnd(n); r.name = "outliers"; break;
    case 30: { iota(); int b = 1 + rnd(std::max(1, n/6)); std::vector<int> o; for (int i = 0; i < (n + b - 1) / b; ++i) o.push_back(i); std::shuffle(o.begin(), o.end(), g); int j = 0; Keys q; for (int x : o) for (int i = x * b; i < std::min(n, (x + 1) * b); ++i) q.push_back(i); (void)j; k = q; r.name = "shuffled-blocks"; } break;
    default: { iota(); std::shuffle(k.begin(), k.end(), g); int c = rnd(n + 1); std::sort(k.begin(), k.begin() + c); if (rnd(2)) std::sort(k.begin() + c, k.end()); else std::sort(k.begin() + c, k.end(), std::greater<>()); r.name = "two-runs"; } break;
    }
    return r;
}
inline std::vector<int> sizes(bool quadratic) {
    std::vector<int> s; for (int i = 7; i <= 72; ++i) s.push_back(i);
    for (int i : {79,80,81,96,100,127,128,129,130,150,160,192,200,255,256,257,300,333,400,511,512,513,600}) s.push_back(i);
    if (!quadratic) for (int i : {700,1000,1023,1024,1025,1500,2048,3000}) s.push_back(i);
    if (thorough) { for (int i = 73; i < 300; i += 3) s.push_back(i); if (!quadratic) for (int i : {1800,2500,4096,5000,8191,10007,20000}) s.push_back(i); }
    return s;
}
template<class F> void all_inputs(bool quadratic, int maxn, F f) {
    int ex = thorough ? 7 : 6;
    for (int n = 0; n <= ex; ++n) weak_orders(n, [&](const Keys& k) { f("weak-order", k); });
    if (thorough) permutations(8, [&](const Keys& k) { f("permutation", k); });
    for (int n : sizes(quadratic)) if (n <= maxn) {
        int reps = thorough ? (n < 200 ? 40 : 6) : (n < 200 ? 3 : 1);
        for (int p = 0; p < NPAT; ++p) { bool det = (p >= 1 && p <= 3) || (p >= 6 && p <= 11) || p == 13 || p == 16 || p == 17 || p == 22;
            int rp = p >= 26 && !thorough ? (n < 128 ? 5 : n < 700 ? 6 : 2) : reps;
            for (int s = 0; s < (det ? 1 : rp); ++s) { auto in = pattern(p, n, unsigned(seed * 100 + s)); f(in.name.c_str(), in.k); } }
    }
}
}
// replaceable allocation functions: accounting and failure injection
#ifdef NT_NEW
namespace nt { struct alignas(16) hdr { std::size_t n; std::size_t pad; }; inline long live_bytes = 0;
inline void* nt_alloc(std::size_t n) noexcept {
    if (mem_limit >= 0 && long(n) > mem_limit) return nullptr;
    if (mem_total >= 0 && live_bytes + long(n) > mem_total) return nullptr;
    if (new_fail_at >= 0 && new_fail_at-- == 0) return nullptr;
    void* p = std::malloc(n + sizeof(hdr)); if (!p) return nullptr; static_cast<hdr*>(p)->n = n; live_bytes += n; ++blocks; ASAN_POISON_MEMORY_REGION(p, sizeof(hdr)); return static_cast<hdr*>(p) + 1; }
inline void nt_free(void* p) noexcept { if (!p) return; hdr* h = static_cast<hdr*>(p) - 1; ASAN_UNPOISON_MEMORY_REGION(h, sizeof(hdr)); live_bytes -= h->n; --blocks; std::free(h); } }
void* operator new(std::size_t n) { void* p = nt::nt_alloc(n); if (!p) { nt::bad_alloc_seen = true; throw std::bad_alloc(); } return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return nt::nt_alloc(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return nt::nt_alloc(n); }
void operator delete(void* p) noexcept { nt::nt_free(p); }
void operator delete[](void* p) noexcept { nt::nt_free(p); }
void operator delete(void* p, std::size_t) noexcept { nt::nt_free(p); }
void operator delete[](void* p, std::size_t) noexcept { nt::nt_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { nt::nt_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { nt::nt_free(p); }
#endif
