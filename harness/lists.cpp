// linked lists: the container-aware algorithms (C17)
#include <list>
#include <forward_list>
#include "common.h"
#include <cpp-sort/adapters/container_aware_adapter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/selection_sorter.h>
using namespace cppsort::detail;
using List = std::list<Elem>; using FList = std::forward_list<Elem>;
void h_li(List& l, Comp c, Proj p){ list_insertion_sort(l,c,p); }
void h_ls(List& l, Comp c, Proj p){ list_selection_sort(l,c,p); }
void h_lm(List& l, Comp c, Proj p){ list_merge_sort(l,c,p); }
void h_fi(FList& l, Comp c, Proj p){ flist_insertion_sort(l,c,p); }
void h_fs(FList& l, Comp c, Proj p){ flist_selection_sort(l,c,p); }
void h_fm(FList& l, long n, Comp c, Proj p){ flist_merge_sort(l,n,c,p); }
// the public entry points: every way to pass a comparison and a projection
struct CompE { bool operator()(Elem const&, Elem const&) const NX; };
bool operator<(Elem const&, Elem const&) NX;
bool operator<(Key const&, Key const&) NX;
template<class S, class L> void pub_full(L& collection){ cppsort::container_aware_adapter<S>{}(collection, Comp{}, Proj{}); }
template<class S, class L> void pub_comp(L& collection){ cppsort::container_aware_adapter<S>{}(collection, CompE{}); }
template<class S, class L> void pub_proj(L& collection){ cppsort::container_aware_adapter<S>{}(collection, Proj{}); }
template<class S, class L> void pub_none(L& collection){ cppsort::container_aware_adapter<S>{}(collection); }
template<class S, class L> void pub(L& l){ pub_full<S>(l); pub_comp<S>(l); pub_proj<S>(l); pub_none<S>(l); }
template<class L> void pubs(L& l){ pub<cppsort::insertion_sorter>(l); pub<cppsort::merge_sorter>(l); pub<cppsort::selection_sorter>(l); }
void pub_all(List& a, FList& b){ pubs(a); pubs(b); }
