// the compare-exchange on every value of the built-in arithmetic types (C04)
#include "vcs.h"
#include <functional>
#include <cstring>
#include <cpp-sort/detail/swap_if.h>
#include <cpp-sort/utility/functional.h>
using id = cppsort::utility::identity;
template<class T> struct bitsof { unsigned char b[sizeof(T)]; };
template<class T> static bool same(const T& a, const T& b) { return a == b; }
static bool same(const float& a, const float& b) { std::uint32_t x, y; std::memcpy(&x, &a, 4); std::memcpy(&y, &b, 4); return x == y; }
static bool same(const double& a, const double& b) { std::uint64_t x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); return x == y; }
static bool same(const long double& a, const long double& b) { std::uint64_t x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); std::uint16_t p, q; std::memcpy(&p, (const char*)&a + 8, 2); std::memcpy(&q, (const char*)&b + 8, 2); return x == y && p == q; }
template<class T, class C, class F> static void one(C c, F f) {
    T x = any<T>(), y = any<T>(); ASSUME(x == x && y == y); T a[2] = { x, y }; f(a, c);
    ASSERT((same(a[0], x) && same(a[1], y)) || (same(a[0], y) && same(a[1], x)), "both values are kept"); ASSERT(!c(a[1], a[0]), "the pair is in order"); }
struct Sw { template<class T, class C> void operator()(T* a, C c) const { cppsort::detail::swap_if(a[0], a[1], c, id{}); } };
struct It { template<class T, class C> void operator()(T* a, C c) const { cppsort::detail::iter_swap_if(a, a + 1, c, id{}); } };
#define U(T, n) VC(swap_if_##n) { one<T>(std::less<>{}, Sw{}); } VC(swap_if_greater_##n) { one<T>(std::greater<>{}, Sw{}); } VC(iter_swap_if_##n) { one<T>(std::less<>{}, It{}); } VC(iter_swap_if_less_t_##n) { one<T>(std::less<T>{}, It{}); }
U(bool, bool) U(char, char) U(signed char, schar) U(unsigned char, uchar) U(short, short) U(unsigned short, ushort) U(int, int) U(unsigned, unsigned) U(long, long) U(unsigned long, ulong) U(long long, llong) U(unsigned long long, ullong) U(wchar_t, wchar) U(char16_t, char16) U(char32_t, char32) U(float, float) U(double, double) U(long double, ldouble)
