// contracts of the radix keys and of the bin arithmetic (C14)
#include "vcs.h"
#include <array>
#include <cstddef>
#include <functional>
#include <limits>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <cpp-sort/detail/ska_sort.h>
#include <cpp-sort/detail/counting_sort.h>
#include <cpp-sort/detail/spreadsort/detail/common.h>
#include <cpp-sort/detail/spreadsort/detail/integer_sort.h>
#include <cpp-sort/detail/spreadsort/detail/float_sort.h>
#include <cpp-sort/detail/spreadsort/detail/string_sort.h>
#include <cpp-sort/utility/functional.h>
namespace D = cppsort::detail; namespace SD = D::spreadsort::detail;
template<> inline __int128 any<__int128>() { unsigned __int128 h = any<unsigned long>(); return __int128(h << 64 | any<unsigned long>()); }
template<> inline unsigned __int128 any<unsigned __int128>() { return (unsigned __int128)any<__int128>(); }
// the order in which the radix passes look at the elements: bytes of each sub-key, most significant first
template<class Key, std::size_t N, std::size_t O> struct bytes { template<class T> static int cmp(const T& a, const T& b, void* d) {
    using S = D::UnsignedInplaceSorter<128, 1024, Key, N, O>; std::uint8_t x = S::current_byte(a, d), y = S::current_byte(b, d); return x < y ? -1 : y < x ? 1 : bytes<Key, N, O + 1>::cmp(a, b, d); } };
template<class Key, std::size_t N> struct bytes<Key, N, N> { template<class T> static int cmp(const T&, const T&, void*) { return 0; } };
template<class Key, class S> struct pass { template<class T> static int cmp(const T& a, const T& b, void* d) { return bytes<Key, sizeof(S), 0>::cmp(a, b, d); } };
template<class Key> struct pass<Key, bool> { template<class T> static int cmp(const T& a, const T& b, void* d) { bool x = Key::sub_key(a, d), y = Key::sub_key(b, d); return x == y ? 0 : x ? 1 : -1; } };
template<class Key> struct chain { template<class T> static int cmp(const T& a, const T& b) { int r = pass<Key, typename Key::sub_key_type>::cmp(a, b, nullptr); return r ? r : chain<typename Key::next>::cmp(a, b); } };
template<> struct chain<D::SubKey<void>> { template<class T> static int cmp(const T&, const T&) { return 0; } };
template<class T> static void agrees(const T& a, const T& b) { int r = chain<D::SubKey<T>>::cmp(a, b); ASSERT((r < 0) == (a < b), "the radix passes order the values by operator<"); ASSERT((r == 0) == (a == b), "the radix passes distinguish different values"); ASSERT((r > 0) == (b < a), "and conversely"); }
template<class T> static void key() { agrees<T>(any<T>(), any<T>()); }
#define K(n, ...) VC(key_##n) { key<__VA_ARGS__>(); }
K(bool, bool) K(char, char) K(schar, signed char) K(uchar, unsigned char) K(short, short) K(ushort, unsigned short) K(int, int) K(uint, unsigned) K(long, long) K(ulong, unsigned long) K(llong, long long) K(ullong, unsigned long long) K(wchar, wchar_t) K(char16, char16_t) K(char32, char32_t) K(int128, __int128) K(uint128, unsigned __int128)
template<class T> static void fkey() { T a = any<T>(), b = any<T>(); ASSUME(a == a && b == b); int r = chain<D::SubKey<T>>::cmp(a, b); ASSERT(!(a < b) || r < 0, "the radix passes keep the order of the numbers"); ASSERT(!(b < a) || r > 0, "and conversely"); ASSERT(r != 0 || a == b, "equal keys are equal numbers"); }
VC(key_float) { fkey<float>(); } VC(key_double) { fkey<double>(); }
template<class F, class S> static void pkey() { agrees<std::pair<F, S>>({any<F>(), any<S>()}, {any<F>(), any<S>()}); }
VC(key_pair_int_int) { pkey<int, int>(); } VC(key_pair_bool_schar) { pkey<bool, signed char>(); } VC(key_pair_short_bool) { pkey<short, bool>(); } VC(key_pair_ulong_char) { pkey<unsigned long, char>(); }
VC(key_pair_pair_short) { using P = std::pair<signed char, unsigned short>; agrees<std::pair<P, short>>({{any<signed char>(), any<unsigned short>()}, any<short>()}, {{any<signed char>(), any<unsigned short>()}, any<short>()}); }
VC(key_pair_short_pair) { using P = std::pair<short, bool>; agrees<std::pair<int, P>>({any<int>(), {any<short>(), any<bool>()}}, {any<int>(), {any<short>(), any<bool>()}}); }
template<class... A> static void tkey() { std::tuple<A...> a{any<A>()...}, b{any<A>()...}; agrees<std::tuple<A...>>(a, b); }
VC(key_tuple_int) { tkey<int>(); } VC(key_tuple_char_int) { tkey<char, int>(); } VC(key_tuple_bool_short_uchar) { tkey<bool, short, unsigned char>(); } VC(key_tuple_4) { tkey<signed char, unsigned short, bool, short>(); }
VC(key_tuple_pair) { using P = std::pair<short, unsigned char>; using T = std::tuple<P, signed char>; agrees<T>(T{P{any<short>(), any<unsigned char>()}, any<signed char>()}, T{P{any<short>(), any<unsigned char>()}, any<signed char>()}); }
VC(key_pair_tuple) { using T = std::tuple<short, bool>; using P = std::pair<T, char>; agrees<P>(P{T{any<short>(), any<bool>()}, any<char>()}, P{T{any<short>(), any<bool>()}, any<char>()}); }
template<class F, class S> static void pfkey() { F a = any<F>(), b = any<F>(); S x = any<S>(), y = any<S>(); ASSUME(a == a && b == b && x == x && y == y); ASSUME(a != b); std::pair<F, S> p{a, x}, q{b, y}; int r = chain<D::SubKey<std::pair<F, S>>>::cmp(p, q); ASSERT((p < q) == (r < 0), "pairs are ordered by their first members"); }
VC(key_pair_float_int) { pfkey<float, int>(); } VC(key_pair_double_float) { pfkey<double, float>(); }
VC(key_pointer) { int arr[64]; unsigned i = any<unsigned>(), j = any<unsigned>(); ASSUME(i < 64 && j < 64); ASSUME(reinterpret_cast<std::uintptr_t>(arr) < ~std::uintptr_t(0) - sizeof arr); int* p = arr + i; int* q = arr + j; int r = chain<D::SubKey<int*>>::cmp(p, q); ASSERT((r < 0) == (i < j) && (r == 0) == (i == j), "pointers into an array are ordered by their position"); }
// element keys of sequences: one position, chosen by current_index
template<class L, class E> static void lkey(const L& a, const L& b, E ea, E eb, unsigned at, bool lt) { using Key = D::ListElementSubKey<D::SubKey<L>, L>; D::BaseListSortData d; d.current_index = at; d.recursion_limit = 16; d.next_sort_data = nullptr;
    int r = pass<Key, typename Key::sub_key_type>::cmp(a, b, &d); ASSERT((r < 0) == lt, "the element at the current index decides"); ASSERT((r == 0) == (ea == eb), "only equal elements have equal keys"); }
template<class E> static void akey() { std::array<E, 4> a, b; for (int i = 0; i < 4; ++i) { a[i] = any<E>(); b[i] = any<E>(); } unsigned at = any<unsigned>(); ASSUME(at < 4); lkey(a, b, a[at], b[at], at, a[at] < b[at]); }
VC(key_array_schar) { akey<signed char>(); } VC(key_array_char) { akey<char>(); } VC(key_array_int) { akey<int>(); } VC(key_array_long) { akey<long>(); } VC(key_array_bool) { akey<bool>(); }
template<class C, class T> struct strlike { using traits_type = std::char_traits<C>; C d[4]; std::size_t size() const { return 4; } const C& operator[](std::size_t i) const { return d[i]; } };
template<class C> static void skey() { strlike<C, void> a, b; for (int i = 0; i < 4; ++i) { a.d[i] = any<C>(); b.d[i] = any<C>(); } unsigned at = any<unsigned>(); ASSUME(at < 4); C x = a.d[at], y = b.d[at]; bool lt = std::is_same<C, char>::value ? (unsigned char)x < (unsigned char)y : x < y; lkey(a, b, x, y, at, lt); }
VC(key_string_char) { skey<char>(); } VC(key_string_wchar) { skey<wchar_t>(); } VC(key_string_char16) { skey<char16_t>(); } VC(key_string_char32) { skey<char32_t>(); }
// ---- counting sort: distances
template<class I> static void dist() { I mn = any<I>(), x = any<I>(); ASSUME(mn <= x); long d = D::integer_distance<long>(mn, x); __int128 e = __int128(x) - __int128(mn); ASSUME(e < (__int128(1) << 62)); ASSERT(d == e, "the distance is the mathematical difference"); }
VC(distance_schar) { dist<signed char>(); } VC(distance_char) { dist<char>(); } VC(distance_uchar) { dist<unsigned char>(); } VC(distance_short) { dist<short>(); } VC(distance_ushort) { dist<unsigned short>(); } VC(distance_int) { dist<int>(); } VC(distance_uint) { dist<unsigned>(); } VC(distance_long) { dist<long>(); } VC(distance_ulong) { dist<unsigned long>(); } VC(distance_wchar) { dist<wchar_t>(); } VC(distance_char32) { dist<char32_t>(); }
// ---- spreadsort: bins
template<class U> static void rlog() { U x = any<U>(); unsigned r = SD::rough_log_2_size(x); ASSERT(r <= 8 * sizeof(U), "at most the number of bits"); ASSERT(r == 8 * sizeof(U) || (x >> r) == 0, "the value is below 2 to the result"); ASSERT(r == 0 || (x >> (r - 1)) != 0, "the result is the least such number"); }
VC(rough_log_32) { rlog<unsigned>(); } VC(rough_log_64) { rlog<unsigned long>(); }
template<unsigned M> static void ldiv_() { std::size_t n = any<std::size_t>(); ASSUME(n >= 4 && n < (1ul << 48)); int lr = any<int>(); ASSUME(lr >= 0 && lr <= 64); int d = SD::get_log_divisor<M>(n, lr); ASSERT(d >= 0, "the shift is not negative"); ASSERT(d <= lr, "the shift is at most the range"); ASSERT(lr - d <= SD::max_finishing_splits, "the bins fit in the bin table"); ASSERT(d < 64, "the shift is defined"); }
VC(log_divisor_int) { ldiv_<SD::int_log_mean_bin_size>(); } VC(log_divisor_float) { ldiv_<SD::float_log_mean_bin_size>(); }
VC(min_count_int) { unsigned r = any<unsigned>(); ASSUME(r <= 64); std::size_t c = SD::get_min_count<SD::int_log_mean_bin_size, SD::int_log_min_split_count, SD::int_log_finishing_count>(r); ASSERT(c >= 4 && (c & (c - 1)) == 0, "the threshold is a power of two, at least four"); }
VC(min_count_float) { unsigned r = any<unsigned>(); ASSUME(r <= 64); std::size_t c = SD::get_min_count<SD::float_log_mean_bin_size, SD::float_log_min_split_count, SD::float_log_finishing_count>(r); ASSERT(c >= 4 && (c & (c - 1)) == 0, "the threshold is a power of two, at least four"); }
// bin of a value: with the shift chosen from the extremes, bins are ordered as the values and there are at most 2^12
// (the shift is any number within the postcondition of get_log_divisor proved above)
template<class I, class U> static void bins() { I mn = any<I>(), mx = any<I>(), x = any<I>(), y = any<I>(); ASSUME(mn <= x && x <= y && y <= mx); U rg = U(mx) - U(mn); unsigned lr = any<unsigned>(); ASSUME(lr <= 8 * sizeof(U)); ASSUME(lr == 8 * sizeof(U) || (rg >> lr) == 0); unsigned d = any<unsigned>(); ASSUME(d < 8 * sizeof(U) && d <= lr && lr - d <= SD::max_finishing_splits);
    I dm = mn >> d, dx = mx >> d; ASSERT(U(dx) - U(dm) <= (1u << SD::max_finishing_splits), "the bins fit"); ASSERT((x >> d) - dm <= (y >> d) - dm && (x >> d) >= dm && (y >> d) <= dx, "bins are ordered as the values"); }
VC(bins_int) { bins<int, unsigned>(); } VC(bins_uint) { bins<unsigned, unsigned>(); } VC(bins_long) { bins<long, unsigned long>(); } VC(bins_ulong) { bins<unsigned long, unsigned long>(); }
// extremes of 4 elements
template<class T> static void ext() { T v[4]; for (auto& x : v) x = any<T>(); T *mx, *mn; bool s = SD::is_sorted_or_find_extremes(v, v + 4, mx, mn, cppsort::utility::identity{}); bool ok = true; for (int i = 0; i < 3; ++i) ok = ok && v[i] <= v[i + 1]; ASSERT(s == ok, "sortedness is detected"); if (!s) for (auto& x : v) ASSERT(*mn <= x && x <= *mx, "the extremes bound every element"); }
VC(extremes_int) { ext<int>(); } VC(extremes_ulong) { ext<unsigned long>(); }
template<class F, class I> static void fext() { F v[4]; for (auto& x : v) { x = any<F>(); ASSUME(x == x); } I mx = 0, mn = 0; bool s = SD::is_sorted_or_find_extremes<F*, I>(v, v + 4, mx, mn, cppsort::utility::identity{}); bool ok = true; for (int i = 0; i < 3; ++i) ok = ok && v[i] <= v[i + 1]; ASSERT(s == ok, "sortedness is detected"); if (!s) for (auto& x : v) { I c = D::memcpy_cast<I>(x); ASSERT(mn <= c && c <= mx, "the extremes bound every element"); } }
VC(extremes_float) { fext<float, std::int32_t>(); } VC(extremes_double) { fext<double, std::int64_t>(); }
// casts order positive numbers directly and negative ones in reverse
template<class F, class I> static void fcast() { F a = any<F>(), b = any<F>(); ASSUME(a < b); I x = D::memcpy_cast<I>(a), y = D::memcpy_cast<I>(b); ASSERT((x < 0) == (a < 0 || (a == 0 && x < 0)), "the sign is the sign of the cast"); if (x >= 0 && y >= 0) ASSERT(x < y, "positive numbers keep their order"); if (x < 0 && y < 0) ASSERT(x > y, "negative numbers are reversed"); ASSERT(!(x >= 0 && y < 0), "negative numbers come first"); unsigned d = any<unsigned>(); ASSUME(d < 8 * sizeof(I)); if (x >= 0 && y >= 0) ASSERT((x >> d) <= (y >> d), "bins keep the order"); if (x < 0 && y < 0) ASSERT((x >> d) >= (y >> d), "bins are reversed"); }
VC(cast_float) { fcast<float, std::int32_t>(); } VC(cast_double) { fcast<double, std::int64_t>(); }
// comparison of the tails of strings
template<class C> struct str { C d[3]; unsigned n; std::size_t size() const { return n; } const C& operator[](std::size_t i) const { return d[i]; } };
template<class C, class U> static void offs() { str<C> a, b; for (int i = 0; i < 3; ++i) { a.d[i] = any<C>(); b.d[i] = any<C>(); } a.n = any<unsigned>(); b.n = any<unsigned>(); ASSUME(a.n <= 3 && b.n <= 3); unsigned o = any<unsigned>(); ASSUME(o <= a.n && o <= b.n); bool pre = true; for (unsigned i = 0; i < 3; ++i) if (i < o) pre = pre && a.d[i] == b.d[i]; ASSUME(pre);
    int c = 0; for (unsigned i = 0; i < 3 && c == 0; ++i) { bool ea = i >= a.n, eb = i >= b.n; if (ea || eb) { c = ea && eb ? 0 : ea ? -1 : 1; if (ea && eb) break; } else c = U(a.d[i]) < U(b.d[i]) ? -1 : U(b.d[i]) < U(a.d[i]) ? 1 : 0; }
    SD::offset_less_than<cppsort::utility::identity, U> l(o, {}); SD::offset_greater_than<cppsort::utility::identity, U> g(o, {}); ASSERT(l(a, b) == (c < 0), "strings with a common prefix are compared from there"); ASSERT(g(a, b) == (c > 0), "and in reverse"); }
VC(offset_char) { offs<char, unsigned char>(); } VC(offset_wchar16) { offs<char16_t, std::uint16_t>(); }
