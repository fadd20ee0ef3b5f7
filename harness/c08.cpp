// contracts of the order comparators (C08): each equals the order of an integer key of the bit pattern
#include "vcs.h"
#include <cstring>
#include <type_traits>
#include <cpp-sort/comparators/total_greater.h>
#include <cpp-sort/comparators/total_less.h>
#include <cpp-sort/comparators/weak_greater.h>
#include <cpp-sort/comparators/weak_less.h>
#include <cpp-sort/comparators/partial_greater.h>
#include <cpp-sort/comparators/partial_less.h>
using namespace cppsort;
// key of a value: sign and magnitude; every NaN of one sign has the same key, beyond the infinity of that sign
struct key { bool neg; std::uint16_t hi; std::uint64_t lo; };
static key bits(float x) { std::uint32_t b; std::memcpy(&b, &x, 4); std::uint32_t m = b & 0x7fffffff; if (m > 0x7f800000) m = 0x7f800001; return {bool(b >> 31), 0, m}; }
static key bits(double x) { std::uint64_t b; std::memcpy(&b, &x, 8); std::uint64_t m = b & 0x7fffffffffffffff; if (m > 0x7ff0000000000000) m = 0x7ff0000000000001; return {bool(b >> 63), 0, m}; }
static key bits(long double x) { std::uint64_t b; std::uint16_t e; std::memcpy(&b, &x, 8); std::memcpy(&e, (char*)&x + 8, 2); std::uint16_t m = e & 0x7fff; if (m == 0x7fff && b > 0x8000000000000000) b = 0x8000000000000001; return {bool(e >> 15), m, b}; }
static bool mless(key a, key b) { return (a.hi < b.hi) | ((a.hi == b.hi) & (a.lo < b.lo)); }
static bool zero(key a) { return (a.hi == 0) & (a.lo == 0); }
static bool tkey(key a, key b) { return a.neg != b.neg ? a.neg : a.neg ? mless(b, a) : mless(a, b); }   // -0 before +0
static bool wkey(key a, key b) { return (!(zero(a) & zero(b))) & tkey(a, b); }                            // -0 and +0 equivalent
template<class T> void fp() { T a = any<T>(), b = any<T>(); key ka = bits(a), kb = bits(b);
    ASSERT(total_less(a, b) == tkey(ka, kb), "total_less orders by sign, magnitude, NaNs outermost");
    ASSERT(total_greater(a, b) == tkey(kb, ka), "total_greater is total_less with its arguments exchanged"); }
template<class T> void fw() { T a = any<T>(), b = any<T>(); key ka = bits(a), kb = bits(b);
    ASSERT(weak_less(a, b) == wkey(ka, kb), "weak_less orders by sign, magnitude, zeros equivalent, NaNs outermost");
    ASSERT(weak_greater(a, b) == wkey(kb, ka), "weak_greater is weak_less with its arguments exchanged"); }
template<class T> void fpart() { T a = any<T>(), b = any<T>(); ASSERT(partial_less(a, b) == (a < b), "partial_less is <"); ASSERT(partial_greater(a, b) == (a > b), "partial_greater is >"); }
template<class T> void fnat() { T a = any<T>(), b = any<T>(); ASSUME(a < b); ASSERT(total_less(a, b) & weak_less(a, b) & !total_less(b, a) & !weak_less(b, a), "the natural order is refined"); }
VC(total_float) { fp<float>(); } VC(total_double) { fp<double>(); } VC(total_long_double) { fp<long double>(); }
VC(weak_float) { fw<float>(); } VC(weak_double) { fw<double>(); } VC(weak_long_double) { fw<long double>(); }
VC(partial_float) { fpart<float>(); } VC(partial_double) { fpart<double>(); } VC(partial_long_double) { fpart<long double>(); }
VC(natural_float) { fnat<float>(); } VC(natural_double) { fnat<double>(); } VC(natural_long_double) { fnat<long double>(); }
template<class T> void in() { T a = any<T>(), b = any<T>();
    ASSERT(total_less(a, b) == (a < b), "total_less is < on integers"); ASSERT(weak_less(a, b) == (a < b), "weak_less is < on integers"); ASSERT(partial_less(a, b) == (a < b), "partial_less is < on integers");
    ASSERT(total_greater(a, b) == (a > b), "total_greater is > on integers"); ASSERT(weak_greater(a, b) == (a > b), "weak_greater is > on integers"); ASSERT(partial_greater(a, b) == (a > b), "partial_greater is > on integers"); }
#define I(n, T) VC(int_##n) { in<T>(); }
I(bool, bool) I(char, char) I(schar, signed char) I(uchar, unsigned char) I(short, short) I(ushort, unsigned short) I(int, int) I(uint, unsigned) I(long, long) I(ulong, unsigned long) I(llong, long long) I(ullong, unsigned long long) I(wchar, wchar_t) I(char16, char16_t) I(char32, char32_t)
// lemma: the keys are strict weak orders (over all keys)
static key anykey() { return {any<bool>(), any<unsigned short>(), any<unsigned long>()}; }
VC(lemma_keys) { key a = anykey(), b = anykey(), c = anykey();
    ASSERT(!tkey(a, a), "irreflexive"); ASSERT(!(tkey(a, b) & tkey(b, c)) | tkey(a, c), "transitive"); ASSERT(tkey(a, b) | tkey(b, a) | ((a.neg == b.neg) & (a.hi == b.hi) & (a.lo == b.lo)), "equivalence is equality of the keys");
    ASSERT(!wkey(a, a), "weak: irreflexive"); ASSERT(!(wkey(a, b) & wkey(b, c)) | wkey(a, c), "weak: transitive"); ASSERT(wkey(a, b) | wkey(b, a) | wkey(b, c) | wkey(c, b) | (!wkey(a, c) & !wkey(c, a)), "weak: equivalence is transitive"); }
