#pragma once
// type-specific sorters (C14)
#include "nt.h"
#include <array>
#include <cmath>
#include <limits>
#include <tuple>
#include <deque>
#include <string_view>
#include <cpp-sort/sorters/counting_sorter.h>
#include <cpp-sort/sorters/ska_sorter.h>
#include <cpp-sort/sorters/spread_sorter.h>
#include <cpp-sort/sorters/spread_sorter/integer_spread_sorter.h>
using namespace nt; using namespace cppsort;
static std::mt19937_64 G;
template<class T> std::string str(const T& t) { if constexpr (std::is_arithmetic<T>::value) return std::to_string(t); else if constexpr (std::is_same<T, std::string>::value) return "\"" + t.substr(0, 40) + "\""; else return "?"; }
template<class T> std::string showv(const std::vector<T>& v) { std::string s = "["; for (std::size_t i = 0; i < v.size() && i < 20; ++i) s += str(v[i]) + ","; return s + "] n=" + std::to_string(v.size()); }
template<class T> struct W { T key; int id; };
// sorts values directly and through a projection; compares with a comparison sort
template<class S, class T, class V> void values(const char* sn, const char* tn, const char* pat, const std::vector<V>& in, bool gt) {
    std::vector<T> v(in.begin(), in.end());
    snprintf(ctx, sizeof ctx, "%s on %s %s%s %s", sn, tn, pat, gt ? " descending" : "", showv(v).c_str()); tick(); if (v.size() > 1) ++nontriv; if (samples.size() < 6 && v.size() > 1 && v.size() < 8) samples.push_back(ctx);
    auto want = v; if (gt) std::stable_sort(want.begin(), want.end(), [](const T& a, const T& b) { return b < a; }); else std::stable_sort(want.begin(), want.end());
    auto a = v; S s{}; if constexpr (std::is_invocable<S&, std::vector<T>&, std::greater<>>::value) { if (gt) s(a, std::greater<>{}); else s(a); } else { if (gt) return; s(a); }
    if (a.size() != want.size()) { fail("C14", "size changed"); return; }
    for (std::size_t i = 0; i < a.size(); ++i) if (!(a[i] == want[i])) { fail("C14", "position %zu differs from a comparison sort: %s instead of %s", i, str(a[i]).c_str(), str(want[i]).c_str()); return; }
    if constexpr (std::is_floating_point<T>::value) { long nz = 0, nz2 = 0; for (auto x : v) nz += x == 0 && std::signbit(x); for (auto x : a) nz2 += x == 0 && std::signbit(x); if (nz != nz2) fail("C14", "not a permutation: negative zeros"); }
}
template<class S, class T, class V> void projected(const char* sn, const char* tn, const char* pat, const std::vector<V>& in) {
    std::vector<W<T>> v; int k = 0; for (auto& x : in) v.push_back({T(x), k++});
    snprintf(ctx, sizeof ctx, "%s on %s projected %s %s", sn, tn, pat, showv(std::vector<T>(in.begin(), in.end())).c_str()); tick(); if (v.size() > 1) ++nontriv;
    auto a = v; S{}(a, &W<T>::key); std::vector<char> seen(v.size());
    for (std::size_t i = 0; i < a.size(); ++i) { if (a[i].id < 0 || a[i].id >= int(v.size()) || seen[a[i].id] || !(a[i].key == v[a[i].id].key)) { fail("C14", "not a permutation at position %zu", i); return; } seen[a[i].id] = 1; if (i && a[i].key < a[i-1].key) { fail("C14", "not sorted at position %zu", i); return; } }
}
template<class T> struct Gen { // value families of an integer type
    static T any() { T r = 0; for (std::size_t i = 0; i < sizeof(T); i += 4) r = T((sizeof(T) > 4 ? r << (sizeof(T) > 4 ? 32 : 0) : r) ^ T(std::uint32_t(G()))); return r; } };
using i128 = __int128; using u128 = unsigned __int128;
template<class T> T tmin() { if constexpr (std::is_same<T, i128>::value) return T(u128(1) << 127); else if constexpr (std::is_same<T, u128>::value) return 0; else return std::numeric_limits<T>::min(); }
template<class T> T tmax() { if constexpr (std::is_same<T, i128>::value) return T(~(u128(1) << 127)); else if constexpr (std::is_same<T, u128>::value) return ~u128(0); else return std::numeric_limits<T>::max(); }
static std::vector<int> NS() { std::vector<int> r{0,1,2,3,4,5,7,8,9,15,16,17,31,33,64,100,127,128,129,200,255,256,257,300,500,999,1000,1001,1024,1100,1500,2000,3000,12000}; if (thorough) for (int x : {4096, 5000, 10000, 65537, 100000}) r.push_back(x); return r; }
template<class T> std::vector<T> family(int f, int n) { std::vector<T> v(n); const T mn = tmin<T>(), mx = tmax<T>();
    for (int i = 0; i < n; ++i) switch (f) {
      case 0: v[i] = Gen<T>::any(); break; case 1: v[i] = (G() & 1) ? mn : mx; break; case 2: v[i] = T(mn + T(G() % 5)); break; case 3: v[i] = T(mx - T(G() % 5)); break;
      case 4: v[i] = T(T(G() % 7) - T(3)); break; case 5: v[i] = T(i); break; case 6: v[i] = T(n - i); break; case 7: v[i] = T(1) ; break;
      case 8: v[i] = T(T(Gen<T>::any()) & T(T(1) << (G() % (8 * sizeof(T))))); break; case 9: { int c = G() % 6; v[i] = c == 0 ? mn : c == 1 ? mx : c == 2 ? T(0) : c == 3 ? T(-1) : c == 4 ? T(mn + 1) : T(mx - 1); } break;
      case 10: v[i] = T(T(T(G() % 300)) * T(T(mx / 2) / 211)); break; case 11: v[i] = i == n / 2 ? mn : T(G() % 100); break; default: v[i] = i == n / 3 ? mx : T(G() % 100); }
    return v; }
template<class S, class T> void ints(const char* sn, const char* tn) { for (int n : NS()) for (int f = 0; f < 13; ++f) { auto v = family<T>(f, n); values<S, T>(sn, tn, "integers", v, false); projected<S, T>(sn, tn, "integers", v); } }
template<class T> void counting(const char* tn) { for (int n : NS()) for (int f : {2, 3, 4, 5, 6, 7}) { if (f == 4 && std::is_unsigned<T>::value && sizeof(T) > 2) continue; auto v = family<T>(f, n); values<counting_sorter, T>("counting_sorter", tn, "narrow range", v, false); values<counting_sorter, T>("counting_sorter", tn, "narrow range", v, true);
        std::list<T> l(v.begin(), v.end()); counting_sorter{}(l); std::stable_sort(v.begin(), v.end()); if (!std::equal(v.begin(), v.end(), l.begin(), l.end())) fail("C14", "list differs"); std::forward_list<T> fl(v.begin(), v.end()); counting_sorter{}(fl, std::greater<>{}); std::reverse(v.begin(), v.end()); if (!std::equal(v.begin(), v.end(), fl.begin(), fl.end())) fail("C14", "forward_list differs"); }
    if (sizeof(T) <= 2) for (int n : NS()) for (int f : {0, 1, 9}) { auto v = family<T>(f, n); values<counting_sorter, T>("counting_sorter", tn, "full range", v, false); values<counting_sorter, T>("counting_sorter", tn, "full range", v, true); } }
template<class T> std::vector<T> ffam(int f, int n) { std::vector<T> v(n); const T inf = std::numeric_limits<T>::infinity(), mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min(), dn = std::numeric_limits<T>::denorm_min();
    for (int i = 0; i < n; ++i) { std::uint64_t r = G(); switch (f) { case 0: v[i] = T(std::int64_t(r)) ; break; case 1: { if constexpr (sizeof(T) == 4) { std::uint32_t b = std::uint32_t(r); std::memcpy(&v[i], &b, 4); } else std::memcpy(&v[i], &r, 8); if (v[i] != v[i]) v[i] = -inf; } break;
      case 2: { const T c[] = {inf, -inf, mx, -mx, mn, -mn, dn, -dn, T(0), -T(0), T(1), T(-1)}; v[i] = c[r % 12]; } break; case 3: v[i] = T(r % 1000) / 7; break; case 4: v[i] = -T(r % 1000) / 7; break; case 5: v[i] = T(std::int64_t(r % 2001) - 1000) * dn; break; case 6: v[i] = T(i) - n / 2; break; case 7: v[i] = (r & 1) ? T(0) : -T(0); break; case 8: v[i] = -(T(1) + T(r % 16) * std::numeric_limits<T>::epsilon()); break; case 9: v[i] = (r & 3) ? -T(r % 7) * dn : -T(0); break; case 10: v[i] = -T(1 << (r % 9)) - T((r >> 8) % 5); break; default: v[i] = T(1) + T(r % 3) * std::numeric_limits<T>::epsilon(); } }
    return v; }
template<class S, class T> void floats(const char* sn, const char* tn) { for (int n : NS()) for (int f = 0; f < 12; ++f) { auto v = ffam<T>(f, n); values<S, T>(sn, tn, "floating point", v, false); projected<S, T>(sn, tn, "floating point", v); } }
static std::vector<std::string> sfam(int f, int n) { std::vector<std::string> v(n); for (auto& s : v) { int l = f == 0 ? G() % 6 : f == 1 ? G() % 40 : f == 2 ? 20 + G() % 4 : f == 3 ? G() % 3 : G() % 12; if (f == 2) s = "common prefix of all "; if (f == 6) s = std::string(300, 'x');
    for (int i = 0; i < l; ++i) s += f == 4 ? char(G()) : f == 5 ? char(G() % 2 ? 0xff : 0) : f == 3 ? char('a' + G() % 2) : f == 7 ? char(0x7e + G() % 4) : char('a' + G() % 26); } return v; }
template<class S> void strings(const char* sn) { for (int n : NS()) for (int f = 0; f < 8; ++f) { auto v = sfam(f, n); values<S, std::string>(sn, "std::string", "strings", v, false); values<S, std::string>(sn, "std::string", "strings", v, true); projected<S, std::string>(sn, "std::string", "strings", v); } }
