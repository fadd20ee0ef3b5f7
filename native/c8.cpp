// order comparators (C08): special values of every floating-point type, integers
#include "nt.h"
#include <cmath>
#include <limits>
#include <cpp-sort/comparators/total_greater.h>
#include <cpp-sort/comparators/total_less.h>
#include <cpp-sort/comparators/weak_greater.h>
#include <cpp-sort/comparators/weak_less.h>
#include <cpp-sort/comparators/partial_greater.h>
#include <cpp-sort/comparators/partial_less.h>
using namespace nt;
static std::mt19937_64 G;
template<class T> int cls(T x) { return std::isnan(x) ? (std::signbit(x) ? -2 : 2) : std::isinf(x) ? (x < 0 ? -1 : 1) : 0; }
template<class T> bool ref_total(T a, T b) { if (cls(a) || cls(b)) return cls(a) < cls(b); if (a == 0 && b == 0) return std::signbit(a) && !std::signbit(b); return a < b; }
template<class T> bool ref_weak(T a, T b) { if (cls(a) || cls(b)) return cls(a) < cls(b); return a < b; }
template<class T> std::string hex(T x) { unsigned char b[sizeof(T)]; memcpy(b, &x, sizeof x); std::string s; char t[8]; for (int i = int(std::is_same<T, long double>::value ? 10 : sizeof(T)) - 1; i >= 0; --i) { snprintf(t, 8, "%02x", b[i]); s += t; } return std::to_string((double)x) + "=0x" + s; }
template<class T> void pair(const char* tn, T a, T b) { tick(); ++nontriv; snprintf(ctx, sizeof ctx, "%s a=%s b=%s", tn, hex(a).c_str(), hex(b).c_str());
    if (cppsort::total_less(a, b) != ref_total(a, b)) fail("C08", "total_less(a,b) is %d", !ref_total(a, b));
    if (cppsort::total_greater(a, b) != ref_total(b, a)) fail("C08", "total_greater(a,b) is %d", !ref_total(b, a));
    if (cppsort::weak_less(a, b) != ref_weak(a, b)) fail("C08", "weak_less(a,b) is %d", !ref_weak(a, b));
    if (cppsort::weak_greater(a, b) != ref_weak(b, a)) fail("C08", "weak_greater(a,b) is %d", !ref_weak(b, a));
    if (cppsort::partial_less(a, b) != (a < b)) fail("C08", "partial_less(a,b) is %d", !(a < b));
    if (cppsort::partial_greater(a, b) != (a > b)) fail("C08", "partial_greater(a,b) is %d", !(a > b)); }
template<class T> void fp(const char* tn) { using L = std::numeric_limits<T>; std::vector<T> v{T(0), -T(0), L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::max(), -L::max(), L::infinity(), -L::infinity(), L::quiet_NaN(), -L::quiet_NaN(), std::copysign(L::quiet_NaN(), T(-1)), std::copysign(L::quiet_NaN(), T(1)), T(1), T(-1), T(1) + L::epsilon(), T(0.5), T(-0.5), std::nextafter(L::max(), T(0)), T(3), T(-3)};
    for (int i = 0; i < (thorough ? 400 : 60); ++i) { T x = 0; if (sizeof(T) == 4) { std::uint32_t r = std::uint32_t(G()); if (i % 3 == 0) r |= 0x7f800000; memcpy(&x, &r, 4); } else if (sizeof(T) == 8) { std::uint64_t r = G(); if (i % 3 == 0) r |= 0x7ff0000000000000ull; memcpy(&x, &r, 8); } else { std::uint64_t r = G() | 0x8000000000000000ull; std::uint16_t e = std::uint16_t(G()); if (i % 3 == 0) e |= 0x7fff; memcpy(&x, &r, 8); memcpy((char*)&x + 8, &e, 2); } v.push_back(x); }
    for (T a : v) for (T b : v) pair<T>(tn, a, b); samples.push_back(ctx); }
template<class T> void in(const char* tn) { std::vector<T> v{std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), T(0), T(1), T(-1), T(2), T(std::numeric_limits<T>::max() - 1), T(std::numeric_limits<T>::min() + 1)}; for (int i = 0; i < 20; ++i) v.push_back(T(G()));
    for (T a : v) for (T b : v) { tick(); ++nontriv; snprintf(ctx, sizeof ctx, "%s a=%s b=%s", tn, std::to_string(a).c_str(), std::to_string(b).c_str());
        if (cppsort::total_less(a, b) != (a < b) || cppsort::weak_less(a, b) != (a < b) || cppsort::partial_less(a, b) != (a < b)) fail("C08", "a less variant disagrees with a < b");
        if (cppsort::total_greater(a, b) != (a > b) || cppsort::weak_greater(a, b) != (a > b) || cppsort::partial_greater(a, b) != (a > b)) fail("C08", "a greater variant disagrees with a > b"); } }
int main(int c, char** v) { init(c, v); G.seed(seed); fp<float>("float"); fp<double>("double"); fp<long double>("long double"); in<bool>("bool"); in<char>("char"); in<signed char>("signed char"); in<unsigned char>("unsigned char"); in<short>("short"); in<unsigned short>("unsigned short"); in<int>("int"); in<unsigned>("unsigned"); in<long>("long"); in<unsigned long>("unsigned long"); in<long long>("long long"); in<unsigned long long>("unsigned long long"); in<wchar_t>("wchar_t"); in<char16_t>("char16_t"); in<char32_t>("char32_t");
  { __int128 a = ((__int128)1) << 100, b = -a; snprintf(ctx, sizeof ctx, "__int128"); if (!cppsort::total_less(b, a) || cppsort::total_less(a, b) || !cppsort::weak_greater(a, b)) fail("C08", "__int128"); unsigned __int128 x = ((unsigned __int128)1) << 127, y = 1; if (!cppsort::total_less(y, x) || cppsort::total_less(x, y)) fail("C08", "unsigned __int128"); }
  return finish(); }
