// elements with an abstract order for vc/order.py; with -DVC_REPLAY the keys are the inputs
#pragma once
#include <utility>
#include <cstddef>
#ifdef VC_REPLAY
#include <cstdio>
#include <cstdlib>
static char** vc_in; typedef long vc_id; static long vc_key[256]; static int vc_n = 0;
static vc_id __vc_new() { vc_key[vc_n] = *vc_in ? strtol(*vc_in++, 0, 16) : 0; return vc_n++; } static vc_id __vc_dead() { return -1; } static void __vc_uncount() {}
static void __vc_move(vc_id i) { if (i < 0) { puts("REPLAY FAILED: move of a moved-from element"); exit(1); } }
static bool __vc_lt(vc_id a, vc_id b) { if (a < 0 || b < 0) { puts("REPLAY FAILED: comparison of a moved-from element"); exit(1); } return vc_key[a] < vc_key[b]; }
static void __vc_sorted(void* p, int n, const char* nm) { vc_id* a = (vc_id*)p; bool s[256] = {}; for (int i = 0; i < n; ++i) { if (a[i] < 0 || s[a[i]]) { printf("REPLAY FAILED: %s: an element is lost\n", nm); exit(1); } s[a[i]] = true; if (i && vc_key[a[i]] < vc_key[a[i - 1]]) { printf("REPLAY FAILED: %s: not sorted at position %d\n", nm, i); exit(1); } } }
extern "C" void VC_FN(); int main(int, char** v) { vc_in = v + 1; VC_FN(); puts("REPLAY the assertions hold"); return 0; }
#else
typedef long vc_id; extern "C" { vc_id __vc_new(); vc_id __vc_dead(); void __vc_uncount(); void __vc_move(vc_id); bool __vc_lt(vc_id, vc_id); void __vc_sorted(void*, int, const char*); }
#endif
struct E { vc_id id; E() : id(__vc_new()) {} E(E&& o) noexcept : id(o.id) { __vc_move(id); o.id = __vc_dead(); } E& operator=(E&& o) noexcept { __vc_move(o.id); id = o.id; o.id = __vc_dead(); return *this; } };
struct Lt { bool operator()(const E& a, const E& b) const { return __vc_lt(a.id, b.id); } };
