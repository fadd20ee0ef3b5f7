// Sorter adapters around any conforming sorter (C11, C15, C20).
#include "common.h"
#include "anysort.h"
#include <cpp-sort/detail/split_sort.h>
#include <cpp-sort/adapters/out_of_place_adapter.h>
#include <cpp-sort/adapters/indirect_adapter.h>
using namespace cppsort::detail;
using Any = AnySorter;
void h_oop(Elem* a, Elem* b, Any const& s, Comp c, Proj p) { sort_out_of_place(a, b, b - a, s, c, p); }
void h_oopc(Elem* a, Elem* b, cppsort::out_of_place_adapter<Any> const& s, Comp c, Proj p) { s(a, b, c, p); }
void h_ind(Elem* a, Elem* b, Any const& s, Comp c, Proj p) { sort_indirectly(std::random_access_iterator_tag{}, s, a, b, b - a, c, p); }
void h_indF(Elem* a, Elem* b, Any const& s, Comp c, Proj p) { sort_indirectly(std::forward_iterator_tag{}, s, a, b, b - a, c, p); }
void h_split(Elem* a, Elem* b, Any const& s, Comp c, Proj p) { split_sort(a, b, c, p, s); }
#include <cpp-sort/adapters/split_adapter.h>
void h_indc(Elem* a, Elem* b, indirect_adapter_impl<Any> const& s, Comp c, Proj p) { s(a, b, c, p); }
void h_splitc(Elem* a, Elem* b, split_adapter_impl<Any> const& s, Comp c, Proj p) { s(a, b, c, p); }
#include <cpp-sort/adapters/schwartz_adapter.h>
#include <cpp-sort/adapters/stable_adapter.h>
void h_schwartz(Elem* a, Elem* b, Any const& s, CompV c, ProjV p) { sort_with_schwartz(a, b - a, c, p, s); }
void h_schwartzF(Fwd a, long n, Any const& s, CompV c, ProjV p) { sort_with_schwartz(a, n, c, p, s); }
void h_schwartzc(Elem* a, Elem* b, schwartz_adapter_impl<Any> const& s, CompV c, ProjV p) { s(a, b, c, p); }
void h_stable(Elem* a, Elem* b, Any const& s, Comp c, Proj p) { make_stable_and_sort(a, b - a, c, p, s); }
void h_stableF(Fwd a, long n, Any const& s, Comp c, Proj p) { make_stable_and_sort(a, n, c, p, s); }
void h_stablec(Elem* a, Elem* b, make_stable_impl<Any> const& s, Comp c, Proj p) { s(a, b, c, p); }
// what sorters do with associations; the associated value is an element as well so that it is moved rather than copied
using Asc = association<Elem*, Elem>;
using Asv = associated_value<Elem, Elem>;
using AsIt = associate_iterator<Asc*>;
void h_asc_swap(Asc& a, Asc& b) { swap(a, b); }
void h_asc_move(Asc& a, Asc& b) { a = std::move(b); }
void h_asc_from(Asc& a, Asv& b) { a = std::move(b); }
void h_asv_move(Asv& a, Asv& b) { a = std::move(b); }
void h_asv_init(void* p, Asv& b) { new (p) Asv(std::move(b)); }
void h_asc_take(void* p, AsIt it) { using cppsort::utility::iter_move; new (p) Asv(iter_move(it)); }
void h_asc_iswap(AsIt a, AsIt b) { using cppsort::utility::iter_swap; iter_swap(a, b); }
#include <cpp-sort/adapters/drop_merge_adapter.h>
void h_drop(Elem* a, Elem* b, Any const& s, Comp c, Proj p) { drop_merge_sort(a, b, c, p, s); }
void h_dropB(Bidir a, Bidir b, Any const& s, Comp c, Proj p) { drop_merge_sort(a, b, c, p, s); }
void h_dropc(Elem* a, Elem* b, drop_merge_adapter_impl<Any> const& s, Comp c, Proj p) { s(a, b, c, p); }
