// contracts of the integer helpers and the buffer size policies (C19)
#include "vcs.h"
#include <climits>
#include <cstddef>
#include <limits>
#include <type_traits>
#include <cpp-sort/detail/bitops.h>
#include <cpp-sort/utility/buffer.h>
#include <cpp-sort/utility/functional.h>
namespace D = cppsort::detail; namespace U = cppsort::utility;
template<class T> bool pow2le(T p, T n) { return (p != 0) & (p <= n) & ((p & (p - 1)) == 0); }
// value >> k without undefined shifts
template<class T> unsigned long shr(T x, unsigned long k) { return k > 63 ? 0 : (unsigned long)(x) >> k; }
template<class T> void ints() {
    T x = any<T>(); ASSUME(x >= 0);
    ASSERT(D::half(x) == T(x / 2), "half is the floor of the half"); ASSERT(U::half{}(x) == T(x / 2), "utility::half is the floor of the half");
    unsigned long u = (unsigned long)(x);
    ASSERT(D::has_single_bit(x) == ((u != 0) & ((u & (u - 1)) == 0)), "has_single_bit tells powers of two"); }
template<class T> void logs() {
    T x = any<T>(); ASSUME(x > 0); T l = D::log2(x); ASSERT((l >= 0) & ((unsigned long)(l) < sizeof(T) * 8), "log2 is in range"); ASSERT(shr(x, (unsigned long)l) == 1, "log2 is the floor of the binary logarithm"); }
template<class T> void clogs() {
    T x = any<T>(); ASSUME(x > 0); unsigned long u = (unsigned long)(x); T c = D::ceil_log2(x); ASSERT((c >= 0) & ((unsigned long)(c) <= sizeof(T) * 8), "ceil_log2 is in range");
    ASSERT(u == 1 ? c == 0 : shr(u - 1, (unsigned long)c - 1) == 1, "ceil_log2 is the ceiling of the binary logarithm"); }
template<class T> void uns() {
    T n = any<T>(); ASSUME(n > 0);
    T f = D::hyperfloor(n); ASSERT(pow2le(f, n) && T(n - f) < f, "hyperfloor is the greatest power of two not above");
    int s = any<int>(); ASSUME(s > 0 && s < std::numeric_limits<T>::digits); T r = D::rotl(n, s);
    int i = any<int>(); ASSUME(i >= 0 && i < std::numeric_limits<T>::digits);
    ASSERT(((r >> ((i + s) % std::numeric_limits<T>::digits)) & 1) == ((n >> i) & 1), "rotl moves bit i to bit (i+s) mod width");
    ASSUME(n <= T(T(1) << (std::numeric_limits<T>::digits - 1)));
    T c = D::hyperceil(n); ASSERT(c >= n && (c & T(c - 1)) == 0 && T(c / 2) < n, "hyperceil is the least power of two not below");
}
#define I(n, T) VC(int_##n) { ints<T>(); } VC(log2_##n) { logs<T>(); } VC(ceil_log2_##n) { clogs<T>(); }
#define S(n, T) VC(uns_##n) { uns<T>(); }
I(char, char) I(schar, signed char) I(uchar, unsigned char) I(short, short) I(ushort, unsigned short) I(int, int) I(uint, unsigned) I(long, long) I(ulong, unsigned long) I(llong, long long) I(ullong, unsigned long long)
S(uchar, unsigned char) S(ushort, unsigned short) S(uint, unsigned) S(ulong, unsigned long) S(ullong, unsigned long long)
VC(half_float) { float x = any<float>(); ASSUME(x == x); ASSERT(D::half(x) == x / 2 && U::half{}(x) == x / 2, "half of a floating point value"); }
VC(half_double) { double x = any<double>(); ASSUME(x == x); ASSERT(D::half(x) == x / 2 && U::half{}(x) == x / 2, "half of a floating point value"); }
// buffer policies
extern "C" std::size_t __vc_uf_policy(std::size_t);
struct uf_policy { std::size_t operator()(std::size_t n) const {
#ifdef VC_REPLAY
    return n % 1000003;
#else
    return __vc_uf_policy(n);
#endif
} };
template<class P, class F> void dyn(F want) {
    std::size_t n = any<std::size_t>(); ASSUME(n < (1ul << 40)); std::size_t w = want(n); ASSUME(w < (1ul << 40));
    typename U::dynamic_buffer<P>::template buffer<int> b(n); const auto& c = b;
    ASSERT(b.size() == w && c.size() == w, "the buffer has the size its policy names");
    ASSERT(std::size_t(b.end() - b.begin()) == w && std::size_t(c.end() - c.begin()) == w && std::size_t(b.cend() - b.cbegin()) == w, "the range of the buffer has that size");
    std::size_t i = any<std::size_t>(); ASSUME(i < w); ASSERT(&b[i] == b.begin() + i && &c[i] == c.begin() + i && b.begin() == c.begin() && b.cbegin() == c.begin(), "the elements are those of the range");
}
VC(dynamic_half) { dyn<U::half>([](std::size_t n) { return n / 2; }); }
VC(dynamic_identity) { dyn<U::identity>([](std::size_t n) { return n; }); }
VC(dynamic_any_policy) { dyn<uf_policy>(uf_policy{}); }
template<std::size_t N> void fix() { std::size_t n = any<std::size_t>(); typename U::fixed_buffer<N>::template buffer<int> b(n); const auto& c = b;
    ASSERT(b.size() == N && c.size() == N, "the buffer has its fixed size whatever is asked"); ASSERT(std::size_t(b.end() - b.begin()) == N && std::size_t(c.end() - c.begin()) == N && std::size_t(b.cend() - b.cbegin()) == N, "range");
    for (std::size_t i = 0; i < N; ++i) { b[i] = int(i); ASSERT(&b[i] == b.begin() + i && &c[i] == c.begin() + i, "elements"); } }
VC(fixed_0) { fix<0>(); } VC(fixed_1) { fix<1>(); } VC(fixed_7) { fix<7>(); } VC(fixed_512) { fix<512>(); }
