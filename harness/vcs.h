// Contract harness interface for vc/scalar.py. With -DVC_REPLAY the same functions run natively on a
// counterexample given on the command line (one hexadecimal bit pattern per input).
#pragma once
#include <cstdint>
#include <initializer_list>
extern "C" {
bool __vc_any_bool(); std::uint8_t __vc_any_u8(); std::uint16_t __vc_any_u16(); std::uint32_t __vc_any_u32(); std::uint64_t __vc_any_u64();
std::int8_t __vc_any_i8(); std::int16_t __vc_any_i16(); std::int32_t __vc_any_i32(); std::int64_t __vc_any_i64();
float __vc_any_f32(); double __vc_any_f64(); long double __vc_any_f80();
void __vc_assume(bool); void __vc_assert(bool, const char*); void __vc_log(int, int);
}
template<class T> T any();
#define VC_ANY(T, s) template<> inline T any<T>() { return static_cast<T>(__vc_any_##s()); }
VC_ANY(bool, bool) VC_ANY(char, i8) VC_ANY(signed char, i8) VC_ANY(unsigned char, u8) VC_ANY(short, i16) VC_ANY(unsigned short, u16) VC_ANY(int, i32) VC_ANY(unsigned, u32) VC_ANY(long, i64) VC_ANY(unsigned long, u64) VC_ANY(long long, i64) VC_ANY(unsigned long long, u64)
VC_ANY(wchar_t, i32) VC_ANY(char16_t, u16) VC_ANY(char32_t, u32) VC_ANY(float, f32) VC_ANY(double, f64) VC_ANY(long double, f80)
#define ASSUME(c) __vc_assume(c)
#define ASSERT(c, n) __vc_assert(c, n)
#define VC(name) extern "C" void vc_##name()
#ifdef VC_REPLAY
#include <cstdio>
#include <cstdlib>
#include <cstring>
static char** vc_in; static unsigned __int128 vc_next() { if (!*vc_in) { puts("REPLAY out of inputs"); exit(3); } unsigned __int128 r = 0; const char* s = *vc_in++; for (; *s; ++s) r = r * 16 + (*s <= '9' ? *s - '0' : *s - 'a' + 10); return r; }
template<class T> T vc_bits() { unsigned __int128 x = vc_next(); T t; memset((void*)&t, 0, sizeof t); memcpy((void*)&t, &x, sizeof(T) > 10 ? 10 : sizeof(T)); return t; }
extern "C" { bool __vc_any_bool() { return vc_next() & 1; } std::uint8_t __vc_any_u8() { return vc_bits<std::uint8_t>(); } std::uint16_t __vc_any_u16() { return vc_bits<std::uint16_t>(); } std::uint32_t __vc_any_u32() { return vc_bits<std::uint32_t>(); } std::uint64_t __vc_any_u64() { return vc_bits<std::uint64_t>(); }
std::int8_t __vc_any_i8() { return vc_bits<std::int8_t>(); } std::int16_t __vc_any_i16() { return vc_bits<std::int16_t>(); } std::int32_t __vc_any_i32() { return vc_bits<std::int32_t>(); } std::int64_t __vc_any_i64() { return vc_bits<std::int64_t>(); }
float __vc_any_f32() { return vc_bits<float>(); } double __vc_any_f64() { return vc_bits<double>(); } long double __vc_any_f80() { return vc_bits<long double>(); }
void __vc_assume(bool b) { if (!b) { puts("REPLAY precondition does not hold"); exit(3); } } void __vc_assert(bool b, const char* n) { if (!b) { printf("REPLAY FAILED: %s\n", n); exit(1); } } void __vc_log(int, int) {} void VC_FN(); }
int main(int, char** v) { vc_in = v + 1; VC_FN(); puts("REPLAY the assertions hold"); return 0; }
#endif
// uninterpreted functions: arbitrary user comparisons and projections (a fixed hash when replaying)
#ifdef VC_REPLAY
inline unsigned vc_hash(std::initializer_list<int> l) { unsigned h = 2166136261u; for (int x : l) for (int k = 0; k < 32; k += 8) h = (h ^ ((unsigned(x) >> k) & 255)) * 16777619u; return h ^ h >> 15; }
template<class... A> bool vc_ufb(A... a) { return vc_hash({int(a)...}) & 1; }
template<class... A> int vc_ufi(A... a) { return int(vc_hash({77, int(a)...})); }
#else
extern "C" { bool __vc_uf_b6(int, int, int, int, int, int); int __vc_uf_i4(int, int, int, int); }
inline bool vc_ufb(int a, int b, int c, int d, int e, int f) { return __vc_uf_b6(a, b, c, d, e, f); }
inline int vc_ufi(int a, int b, int c, int d) { return __vc_uf_i4(a, b, c, d); }
#endif
