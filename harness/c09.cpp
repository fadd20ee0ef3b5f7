// entry points of the text comparators: every way of building them compares the same sequences with the facet
// of the given locale (C09).  The order itself is proved for every length by vc/specs/text.py.
#include "vcs.h"
#include <array>
#include <functional>
#include <locale>
#include <utility>
struct MC { int c; friend bool operator<(MC a, MC b) { return a.c < b.c; } };
template<> class std::ctype<MC> { public: long id; MC tolower(MC c) const { return MC{vc_ufi(5, int(id), c.c, 0)}; } };
static std::ctype<MC> the_facet;
template<> inline const std::ctype<MC>& std::use_facet<std::ctype<MC>>(const std::locale& l) { the_facet.id = reinterpret_cast<const long&>(l); return the_facet; }
#include <cpp-sort/comparators/case_insensitive_less.h>
#include <cpp-sort/comparators/natural_less.h>
#include <cpp-sort/utility/functional.h>
#include <cpp-sort/refined.h>
using namespace cppsort;
struct Seq { MC d[2]; unsigned n; const MC* begin() const { return d; } const MC* end() const { return d + n; } };
static Seq seq() { Seq s; s.d[0].c = any<int>(); s.d[1].c = any<int>(); s.n = any<unsigned>(); ASSUME(s.n <= 2); return s; }
static bool spec(const Seq& a, const Seq& b, long id) { for (unsigned i = 0; i < 2; ++i) { if (i >= a.n || i >= b.n) return i >= a.n && i < b.n; int x = vc_ufi(5, int(id), a.d[i].c, 0), y = vc_ufi(5, int(id), b.d[i].c, 0); if (x != y) return x < y; } return false; }
struct Loc { long id; const std::locale& get() const { return reinterpret_cast<const std::locale&>(id); } };
#define CASE(name, expr) VC(name) { Seq a = seq(), b = seq(); Loc g{any<int>()}; const std::locale& loc = g.get(); (void)loc; bool r = (expr); ASSERT(r == spec(a, b, ID), "the lower-cased forms are compared"); }
#define ID 0
CASE(default_locale, case_insensitive_less(a, b))
CASE(default_refined, refined<Seq>(case_insensitive_less)(a, b))
CASE(default_refine_member, case_insensitive_less_t{}.refine<Seq>()(a, b))
CASE(default_refine_copy, ([&] { auto c = case_insensitive_less_t{}.refine<Seq>(); auto d = c; return d(a, b); }()))
#undef ID
#define ID g.id
CASE(given_locale, case_insensitive_less(loc)(a, b))
CASE(given_refined, refined<Seq>(case_insensitive_less(loc))(a, b))
CASE(given_refine_member, case_insensitive_less(loc).refine<Seq>()(a, b))
CASE(given_refine_copy, ([&] { auto c = case_insensitive_less(loc); auto d = c; return d.refine<Seq>()(a, b); }()))
CASE(function_with_locale, detail::case_insensitive_less(a, b, loc))
#undef ID
// a type with its own overloads keeps them
namespace own { struct T { Seq s; auto begin() const { return s.begin(); } auto end() const { return s.end(); } }; inline bool case_insensitive_less(const T& a, const T& b) { return vc_ufb(7, a.s.d[0].c, b.s.d[0].c, 0, 0, 0); } inline bool case_insensitive_less(const T& a, const T& b, const std::locale& l) { return vc_ufb(8, a.s.d[0].c, b.s.d[0].c, int(reinterpret_cast<const long&>(l)), 0, 0); }
    struct L { Seq s; auto begin() const { return s.begin(); } auto end() const { return s.end(); } }; inline bool case_insensitive_less(const L& a, const L& b, const std::locale& l) { return vc_ufb(9, a.s.d[0].c, b.s.d[0].c, int(reinterpret_cast<const long&>(l)), 0, 0); } }
template<class T> static T otype() { return T{seq()}; }
VC(customized) { using own::T; T a = otype<T>(), b = otype<T>(); Loc g{any<int>()}; int x = a.s.d[0].c, y = b.s.d[0].c; bool e = vc_ufb(7, x, y, 0, 0, 0), f = vc_ufb(8, x, y, int(g.id), 0, 0); ASSERT(cppsort::case_insensitive_less(a, b) == e, "the customization is used"); ASSERT(refined<T>(cppsort::case_insensitive_less)(a, b) == e, "the refined comparator uses it"); ASSERT(cppsort::case_insensitive_less(g.get())(a, b) == f, "also with a locale"); ASSERT(refined<T>(cppsort::case_insensitive_less(g.get()))(a, b) == f, "also when refined"); }
VC(customized_locale_only) { using own::L; L a = otype<L>(), b = otype<L>(); Loc g{any<int>()}; int x = a.s.d[0].c, y = b.s.d[0].c; ASSERT(cppsort::case_insensitive_less(g.get())(a, b) == vc_ufb(9, x, y, int(g.id), 0, 0), "the customization with a locale is used"); ASSERT(refined<L>(cppsort::case_insensitive_less(g.get()))(a, b) == vc_ufb(9, x, y, int(g.id), 0, 0), "also when refined"); }
// natural_less on containers
struct CS { char d[2]; unsigned n; const char* begin() const { return d; } const char* end() const { return d + n; } };
static CS cs() { CS s; s.d[0] = any<char>(); s.d[1] = any<char>(); s.n = any<unsigned>(); ASSUME(s.n <= 2); return s; }
static bool dg(char c) { return c >= '0' && c <= '9'; }
static int val(const CS& s) { return s.n == 1 ? s.d[0] - '0' : (s.d[0] - '0') * 10 + (s.d[1] - '0'); }
static bool num(const CS& s) { return s.n && dg(s.d[0]) && (s.n == 1 || dg(s.d[1])); }
VC(natural_container) { CS a = cs(), b = cs(); bool r = natural_less(a, b); if (num(a) && num(b)) ASSERT(r == (val(a) < val(b)), "numbers are compared by value"); else if (a.n && b.n && !dg(a.d[0]) && a.d[0] != b.d[0]) ASSERT(r == (a.d[0] < b.d[0]), "other characters are compared by code"); else if (!a.n || !b.n) ASSERT(r == (a.n < b.n), "the empty sequence comes first");
    ASSERT(!(r && natural_less(b, a)), "asymmetric"); ASSERT(!natural_less(a, a), "irreflexive"); }
static void trans(unsigned i, unsigned j, unsigned k) { CS a = cs(), b = cs(), c = cs(); ASSUME(a.n == i && b.n == j && c.n == k); bool ab = natural_less(a, b), bc = natural_less(b, c), ac = natural_less(a, c), ba = natural_less(b, a), cb = natural_less(c, b), ca = natural_less(c, a); ASSERT(!(ab && bc) || ac, "transitive"); ASSERT(ab || ba || bc || cb || (!ac && !ca), "equivalence is transitive"); }
VC(natural_transitive_121) { trans(1, 2, 1); } VC(natural_transitive_112) { trans(1, 1, 2); } VC(natural_transitive_211) { trans(2, 1, 1); }
VC(natural_digits) { char x = any<char>(); ASSERT((detail::natural_less_impl(&x, &x + 1, &x, &x + 1)) == false, "irreflexive on every character"); }
