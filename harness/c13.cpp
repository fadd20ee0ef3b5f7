// contracts of the counting wrappers and of the metric adapters (C13)
#include "vcs.h"
#include <functional>
#include <type_traits>
#include <utility>
#include <cpp-sort/adapters/counting_adapter.h>
#include <cpp-sort/metrics/comparisons.h>
#include <cpp-sort/metrics/moves.h>
#include <cpp-sort/metrics/projections.h>
#include <cpp-sort/detail/comparison_counter.h>
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/utility/as_function.h>
#include <cpp-sort/utility/functional.h>
using namespace cppsort; namespace U = cppsort::utility; namespace M = cppsort::metrics;
static int S = 0;
struct V { int k; };
template<class T> constexpr int cat() { return (std::is_lvalue_reference<T>::value ? 0 : 2) + (std::is_const<std::remove_reference_t<T>>::value ? 1 : 0); }
// the user's functions: uninterpreted, they see the value category of their arguments; NC and NP count their calls
static int NC = 0, NP = 0;
struct F { int s; template<class A, class B> bool operator()(A&& a, B&& b) const { ++NC; return vc_ufb(S, s, cat<A&&>(), a.k, cat<B&&>(), b.k); } };
struct P : U::projection_base { int s; explicit P(int s) : s(s) {} template<class A> V operator()(A&& a) const { ++NP; return {vc_ufi(S, s, cat<A&&>(), a.k)}; } };
// ---- the wrappers: one call, from any count
template<class C> static void one_call() { S = any<int>(); C n0 = any<C>(), n = n0; ASSUME(n0 >= 0 && n0 < 100); int s = any<int>(); detail::comparison_counter<F, C> w(F{s}, n); ASSERT(n == n0, "making the wrapper counts nothing");
    auto cp = w; auto mv = std::move(cp); int sel = any<int>(); V a{any<int>()}, b{any<int>()}; const V& ca = a; ASSERT(n == n0, "copying the wrapper counts nothing");
    bool r, e; if (sel == 0) { r = w(a, b); e = vc_ufb(S, s, 0, a.k, 0, b.k); } else if (sel == 1) { r = mv(ca, std::move(b)); e = vc_ufb(S, s, 1, a.k, 2, b.k); } else { r = mv(V{a.k}, ca); e = vc_ufb(S, s, 2, a.k, 1, a.k); }
    ASSERT(r == e, "the call is forwarded with the same arguments and result"); ASSERT(NC == 1, "the user's function is called once"); ASSERT(n == n0 + 1, "one call through any copy counts one"); ASSERT(w.compare.s == s, "the wrapped function is the given one"); }
VC(comparison_counter_size) { one_call<unsigned long>(); } VC(comparison_counter_int) { one_call<int>(); } VC(comparison_counter_ll) { one_call<long long>(); } VC(comparison_counter_uchar) { one_call<unsigned char>(); }
template<class C> static void one_proj() { S = any<int>(); C n0 = any<C>(), n = n0; ASSUME(n0 >= 0 && n0 < 100); int s = any<int>(); M::detail::projection_counter<P, C> w(P{s}, n);
    auto cp = w; auto mv = std::move(cp); int sel = any<int>(); V a{any<int>()}; const V& ca = a; ASSERT(n == n0, "copying the wrapper counts nothing");
    int r, e; if (sel == 0) { r = w(a).k; e = vc_ufi(S, s, 0, a.k); } else if (sel == 1) { r = mv(ca).k; e = vc_ufi(S, s, 1, a.k); } else { r = mv(V{a.k}).k; e = vc_ufi(S, s, 2, a.k); }
    ASSERT(r == e, "the call is forwarded with the same arguments and result"); ASSERT(NP == 1, "the user's function is called once"); ASSERT(n == n0 + 1, "one call through any copy counts one"); }
VC(projection_counter_size) { one_proj<unsigned long>(); } VC(projection_counter_int) { one_proj<int>(); }
struct X { int k; X(int k) : k(k) {} X(X&& o) : k(o.k) { o.k = -1; } X& operator=(X&& o) { k = o.k; o.k = -1; return *this; } };
template<class C> static void one_move() { C n0 = any<C>(), n = n0; ASSUME(n0 >= 0 && n0 < 100); int x = any<int>(), y = any<int>(); using Wr = M::detail::move_counting_wrapper<X, C>; Wr a(X(x), n), b(X(y), n); ASSERT(n == n0, "wrapping counts nothing");
    Wr c(std::move(a)); ASSERT(n == n0 + 1 && c.value.k == x, "a move construction counts one and moves the value"); a = std::move(b); ASSERT(n == n0 + 2 && a.value.k == y, "a move assignment counts one and moves the value"); b = std::move(c); ASSERT(n == n0 + 3 && b.value.k == x, "again");
    using std::swap; swap(a, b); ASSERT(n == n0 + 6 && a.value.k == x && b.value.k == y, "a swap counts three"); }
VC(move_counter_size) { one_move<unsigned long>(); } VC(move_counter_int) { one_move<int>(); }
// ---- the adapters around an arbitrary sorter: three arbitrary operations, observed by their results
enum { N = 3, K = 3 };
static int ops[K]; static int lg[2 * K]; static int nm;
struct Base { using iterator_category = std::forward_iterator_tag; using is_always_stable = std::false_type; };
struct act_impl : Base { template<class It, class C = std::less<>, class Pr = U::identity> auto operator()(It f, It l, C c = {}, Pr p = {}) const -> std::enable_if_t<is_projection_iterator_v<Pr, It, C>> {
    int n = 0; for (It i = f; i != l; ++i) ++n; ASSERT(n == N, "the sorter gets the whole collection"); It m = f; ++m; It z = m; ++z; auto&& cc = U::as_function(c); auto&& pp = U::as_function(p);
    for (int k = 0; k < K; ++k) { if (ops[k] == 0) lg[k] = 2 + cc(pp(*f), pp(*m)); else if (ops[k] == 1) { auto c2 = c; auto p2 = p; auto&& c3 = U::as_function(c2); auto&& p3 = U::as_function(p2); lg[k] = 4 + c3(p3(*z), p3(*f)); }
        else if (ops[k] == 2) { auto t = std::move(*f); *f = std::move(*z); *z = std::move(t); nm += 3; lg[k] = 6; } else if (ops[k] == 3) { (void)pp(*m); lg[k] = 7; } else lg[k] = 8; } } };
struct act : sorter_facade<act_impl> {};
struct El { int k; El(int k = 0) : k(k) {} El(El&& o) : k(o.k) {} El& operator=(El&& o) { k = o.k; return *this; } bool operator<(const El& o) const { return vc_ufb(S, 99, k, o.k, 0, 0); } };
enum { FULL, CMP, NONE };
template<class Sr, class R, class G> static void same(R (*val)(Sr), G) {}
// run(args...) is the measured call
template<int What, class Run> static void measured(Run run) {   // What: 0 comparisons, 1 projections, 2 moves
    S = any<int>(); int s = any<int>(), t = any<int>(); int v[N]; for (int k = 0; k < K; ++k) { ops[k] = any<int>(); ASSUME(ops[k] >= 0 && ops[k] <= 4); } for (int k = 0; k < N; ++k) v[k] = any<int>();
    El a[N] = {{v[0]}, {v[1]}, {v[2]}}, b[N] = {{v[0]}, {v[1]}, {v[2]}}; NC = NP = nm = 0; act{}(a, a + N, F{s}, P{t}); int c0 = NC, p0 = NP, m0 = nm; int l0[K]; for (int k = 0; k < K; ++k) { l0[k] = lg[k]; lg[k] = 0; }
    NC = NP = nm = 0; long r = run(b, F{s}, P{t});
    ASSERT(r == (What == 0 ? c0 : What == 1 ? p0 : m0), "the metric is the number of operations performed"); ASSERT(NC == c0 && NP == p0, "every call reaches the user's function once");
    bool eq = true; for (int k = 0; k < K; ++k) eq = eq && lg[k] == l0[k]; ASSERT(eq, "the sorter sees the results of the user's functions"); bool arr = true; for (int k = 0; k < N; ++k) arr = arr && a[k].k == b[k].k; ASSERT(arr, "the collection ends as with the sorter itself"); }
template<class T> static long chk(T r) { return long(r.value()); }
VC(comparisons) { measured<0>([](El (&a)[N], F f, P p) { return chk(M::comparisons<act>{}(a, f, p)); }); }
VC(comparisons_iterators) { measured<0>([](El (&a)[N], F f, P p) { return chk(M::comparisons<act, int>{}(a, a + N, f, p)); }); }
VC(comparisons_stored) { measured<0>([](El (&a)[N], F f, P p) { M::comparisons<act, long> m{act{}}; return chk(m(a, a + N, f, p)); }); }
VC(counting_adapter) { measured<0>([](El (&a)[N], F f, P p) { return long(counting_adapter<act>{}(a, f, p)); }); }
VC(counting_adapter_iterators) { measured<0>([](El (&a)[N], F f, P p) { return long(counting_adapter<act, unsigned>{act{}}(a, a + N, f, p)); }); }
VC(projections) { measured<1>([](El (&a)[N], F f, P p) { return chk(M::projections<act>{}(a, f, p)); }); }
VC(projections_iterators) { measured<1>([](El (&a)[N], F f, P p) { return chk(M::projections<act, int>{act{}}(a, a + N, f, p)); }); }
VC(moves) { measured<2>([](El (&a)[N], F f, P p) { return chk(M::moves<act>{}(a, f, p)); }); }
VC(moves_iterators) { measured<2>([](El (&a)[N], F f, P p) { return chk(M::moves<act, int>{act{}}(a, a + N, f, p)); }); }
VC(nested_comparisons_projections) { measured<0>([](El (&a)[N], F f, P p) { return chk(M::comparisons<M::projections<act>>{}(a, f, p)); }); }
// without projection / comparison
struct FE { int s; bool operator()(const El& a, const El& b) const { ++NC; return vc_ufb(S, s, 50, a.k, b.k, 0); } };
template<class Run> static void cmponly(Run run) { S = any<int>(); int s = any<int>(); int v[N]; for (int k = 0; k < K; ++k) { ops[k] = any<int>(); ASSUME(ops[k] >= 0 && ops[k] <= 4); } for (int k = 0; k < N; ++k) v[k] = any<int>();
    El a[N] = {{v[0]}, {v[1]}, {v[2]}}, b[N] = {{v[0]}, {v[1]}, {v[2]}}; NC = 0; act{}(a, a + N, FE{s}); int c0 = NC; int l0[K]; for (int k = 0; k < K; ++k) l0[k] = lg[k]; NC = 0; long r = run(b, FE{s}); ASSERT(r == c0 && NC == c0, "the metric is the number of comparisons");
    bool eq = true; for (int k = 0; k < K; ++k) eq = eq && lg[k] == l0[k] && a[k].k == b[k].k; ASSERT(eq, "same results and collection"); }
VC(comparisons_cmp) { cmponly([](El (&a)[N], FE f) { return chk(M::comparisons<act>{}(a, f)); }); }
VC(comparisons_cmp_iterators) { cmponly([](El (&a)[N], FE f) { return chk(M::comparisons<act>{}(a, a + N, f)); }); }
VC(counting_cmp) { cmponly([](El (&a)[N], FE f) { return long(counting_adapter<act>{}(a, f)); }); }
VC(counting_cmp_iterators) { cmponly([](El (&a)[N], FE f) { return long(counting_adapter<act>{}(a, a + N, f)); }); }
static int ncmp_ops() { int c = 0; for (int k = 0; k < K; ++k) c += ops[k] == 0 || ops[k] == 1; return c; } static int nproj_ops() { int c = 0; for (int k = 0; k < K; ++k) c += ops[k] == 3 ? 1 : ops[k] <= 1 ? 2 : 0; return c; }
template<class Run> static void bare(Run run, bool proj, bool mv) { S = any<int>(); for (int k = 0; k < K; ++k) { ops[k] = any<int>(); ASSUME(ops[k] >= 0 && ops[k] <= 4); } El a[N] = {{any<int>()}, {any<int>()}, {any<int>()}}; nm = 0; long r = run(a); ASSERT(r == (mv ? nm : proj ? nproj_ops() : ncmp_ops()), "the metric is the number of operations"); }
struct PE : U::projection_base { El& operator()(El& e) const { return e; } const El& operator()(const El& e) const { return e; } };
VC(comparisons_bare) { bare([](El (&a)[N]) { return chk(M::comparisons<act>{}(a)); }, false, false); }
VC(comparisons_bare_iterators) { bare([](El (&a)[N]) { return chk(M::comparisons<act>{}(a, a + N)); }, false, false); }
VC(counting_bare) { bare([](El (&a)[N]) { return long(counting_adapter<act>{}(a)); }, false, false); }
VC(projections_bare) { bare([](El (&a)[N]) { return chk(M::projections<act>{}(a)); }, true, false); }
VC(projections_only) { bare([](El (&a)[N]) { return chk(M::projections<act>{}(a, PE{})); }, true, false); }
VC(projections_only_iterators) { bare([](El (&a)[N]) { return chk(M::projections<act>{}(a, a + N, PE{})); }, true, false); }
VC(moves_bare) { bare([](El (&a)[N]) { return chk(M::moves<act>{}(a)); }, false, true); }
VC(moves_proj) { bare([](El (&a)[N]) { return chk(M::moves<act>{}(a, a + N, PE{})); }, false, true); }
