#include "c18.h"
#define BEG S = any<int>(); int x = any<int>(); (void)x
#define FOR(nm, s) \
VC(nm##_none) { BEG; forms(s, LT, ID); } \
VC(nm##_less) { BEG; forms(s, LT, ID, std::less<>{}); forms(s, LT, ID, std::less<W>{}); } \
VC(nm##_greater) { BEG; forms(s, std::greater<>{}, ID, std::greater<>{}); forms(s, std::greater<>{}, ID, std::greater<W>{}); } \
VC(nm##_cmp_fn) { BEG; forms(s, &fcmp, ID, &fcmp); } \
VC(nm##_cmp_obj) { BEG; Cw c{x}; forms(s, c, ID, c); } \
VC(nm##_cmp_lambda) { BEG; auto c = LAMC; forms(s, c, ID, c); } \
VC(nm##_cmp_member) { BEG; forms(s, &W::before, ID, &W::before); } \
VC(nm##_identity) { BEG; forms(s, LT, ID, U::identity{}); } \
VC(nm##_proj_data) { BEG; forms(s, LT, &W::k, &W::k); } \
VC(nm##_proj_member) { BEG; forms(s, LT, &W::proj, &W::proj); } \
VC(nm##_proj_fn) { BEG; forms(s, LT, &fproj, &fproj); } \
VC(nm##_proj_obj) { BEG; Pw p{x}; forms(s, LT, p, p); } \
VC(nm##_proj_lambda) { BEG; auto p = LAMP; forms(s, LT, p, p); } \
VC(nm##_less_identity) { BEG; forms(s, LT, ID, std::less<>{}, U::identity{}); forms(s, LT, ID, std::less<W>{}, U::identity{}); } \
VC(nm##_greater_identity) { BEG; forms(s, std::greater<>{}, ID, std::greater<>{}, U::identity{}); } \
VC(nm##_cmp_identity) { BEG; Cw c{x}; forms(s, c, ID, c, U::identity{}); } \
VC(nm##_greater_data) { BEG; forms(s, std::greater<>{}, &W::k, std::greater<>{}, &W::k); } \
VC(nm##_less_proj) { BEG; forms(s, LT, &W::proj, std::less<>{}, &W::proj); } \
VC(nm##_lessint_proj) { BEG; Pw p{x}; forms(s, LT, p, std::less<int>{}, p); } \
VC(nm##_obj_obj) { BEG; Ci c{x}; Pw p{any<int>()}; forms(s, c, p, c, p); } \
VC(nm##_fn_fn) { BEG; forms(s, &icmp, &fproj, &icmp, &fproj); } \
VC(nm##_obj_lambda) { BEG; Ci c{x}; auto p = LAMP; forms(s, c, p, c, p); }
FOR(full, full_sorter{})
FOR(coll, coll_sorter{})
FOR(cmp, cmp_sorter{})
VC(projonly) { BEG; proj_sorter s; Pw p{x}; forms(s, LT, ID); forms(s, LT, ID, U::identity{}); forms(s, LT, p, p); forms(s, LT, &W::k, &W::k); forms(s, LT, &fproj, &fproj); }
VC(projonly_less) { BEG; proj_sorter s; Pw p{x}; forms(s, LT, ID, std::less<>{}); forms(s, LT, p, std::less<>{}, p); forms(s, LT, ID, std::less<>{}, U::identity{}); }
// function pointers
template<class Sr> static void fptr() { using A = W[N]; BEG; Cw c{x}; Pw p{x}; Ci d{x};
    { W a[N]; reset(a); int (*f)(A&) = Sr{}; int r = f(a); want(r, a, LT, ID, ""); }
    { W a[N]; reset(a); int (*f)(W*, W*) = Sr{}; int r = f(a, a + N); want(r, a, LT, ID, ""); }
    { W a[N]; reset(a); int (*f)(Span<W>&&) = Sr{}; int r = f(Span<W>{a, a + N}); want(r, a, LT, ID, ""); }
    { W a[N]; reset(a); int (*f)(A&, Cw) = Sr{}; int r = f(a, c); want(r, a, c, ID, ""); }
    { W a[N]; reset(a); int (*f)(W*, W*, Cw) = Sr{}; int r = f(a, a + N, c); want(r, a, c, ID, ""); }
    { W a[N]; reset(a); int (*f)(A&, Pw) = Sr{}; int r = f(a, p); want(r, a, LT, p, ""); }
    { W a[N]; reset(a); int (*f)(W*, W*, Pw) = Sr{}; int r = f(a, a + N, p); want(r, a, LT, p, ""); }
    { W a[N]; reset(a); int (*f)(A&, Ci, Pw) = Sr{}; int r = f(a, d, p); want(r, a, d, p, ""); }
    { W a[N]; reset(a); int (*f)(W*, W*, Ci, Pw) = Sr{}; int r = f(a, a + N, d, p); want(r, a, d, p, ""); }
    { W a[N]; reset(a); int (*f)(Span<W>&&, Ci, Pw) = Sr{}; int r = f(Span<W>{a, a + N}, d, p); want(r, a, d, p, ""); } }
VC(pointer_full) { fptr<full_sorter>(); }
VC(pointer_coll) { fptr<coll_sorter>(); }
VC(pointer_cmp) { fptr<cmp_sorter>(); }
// the generic sorting functions, on two elements: the order given is the one which decides
template<class C, class P, class F> static void two(C c, P p, F f) { auto&& cc = U::as_function(c); auto&& pp = U::as_function(p); W a[2] = {{any<int>()}, {any<int>()}}; int x = a[0].k, y = a[1].k;
    bool ab = cc(pp(a[0]), pp(a[1])), ba = cc(pp(a[1]), pp(a[0])); ASSUME(!(ab && ba)); ASSUME(!cc(pp(a[0]), pp(a[0])) && !cc(pp(a[1]), pp(a[1]))); f(a);
    if (ba) ASSERT(a[0].k == y && a[1].k == x, "out of order: exchanged"); else if (ab) ASSERT(a[0].k == x && a[1].k == y, "in order: kept"); else ASSERT((a[0].k == x && a[1].k == y) || (a[0].k == y && a[1].k == x), "both kept"); }
template<class C, class P, class F> static void twos(C c, P p, F f) { auto&& cc = U::as_function(c); auto&& pp = U::as_function(p); W a[2] = {{any<int>()}, {any<int>()}}; int x = a[0].k, y = a[1].k;
    bool ab = cc(pp(a[0]), pp(a[1])), ba = cc(pp(a[1]), pp(a[0])); ASSUME(!(ab && ba)); ASSUME(!cc(pp(a[0]), pp(a[0])) && !cc(pp(a[1]), pp(a[1]))); f(a);
    if (ba) ASSERT(a[0].k == y && a[1].k == x, "out of order: exchanged"); else ASSERT(a[0].k == x && a[1].k == y, "equivalent or in order: kept"); }
template<class C, class P, class... A> static void gen(C c, P p, A... args) {
    two(c, p, [&](auto& a) { cppsort::sort(a, args...); }); two(c, p, [&](auto& a) { cppsort::sort(a, a + 2, args...); }); two(c, p, [&](auto& a) { cppsort::sort(Span<W>{a, a + 2}, args...); });
    twos(c, p, [&](auto& a) { cppsort::stable_sort(a, args...); }); twos(c, p, [&](auto& a) { cppsort::stable_sort(a, a + 2, args...); }); }
VC(generic_none) { BEG; gen(LT, ID); } VC(generic_less) { BEG; gen(LT, ID, std::less<>{}); } VC(generic_greater) { BEG; gen(std::greater<>{}, ID, std::greater<>{}); } VC(generic_cmp) { BEG; Cw c{x}; gen(c, ID, c); } VC(generic_fn) { BEG; gen(&fcmp, ID, &fcmp); } VC(generic_member) { BEG; gen(&W::before, ID, &W::before); }
VC(generic_proj) { BEG; Pw p{x}; gen(LT, p, p); } VC(generic_data) { BEG; gen(LT, &W::k, &W::k); } VC(generic_both) { BEG; Ci c{x}; Pw p{any<int>()}; gen(c, p, c, p); } VC(generic_less_proj) { BEG; gen(LT, &W::proj, std::less<>{}, &W::proj); } VC(generic_identity) { BEG; Cw c{x}; gen(c, ID, c, U::identity{}); }
