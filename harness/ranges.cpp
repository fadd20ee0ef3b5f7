#include "common.h"
#include <cpp-sort/detail/lower_bound.h>
#include <cpp-sort/detail/upper_bound.h>
#include <cpp-sort/detail/equal_range.h>
#include <cpp-sort/detail/is_sorted_until.h>
#include <cpp-sort/detail/reverse.h>
#include <cpp-sort/detail/swap_ranges.h>
#include <cpp-sort/detail/partition.h>
#include <cpp-sort/detail/rotate.h>
#include <cpp-sort/detail/move.h>
#include <cpp-sort/detail/minmax_element.h>
#include <cpp-sort/detail/minmax_element_and_is_sorted.h>
#include <cpp-sort/detail/is_p_sorted.h>
#include <cpp-sort/detail/any_all.h>
#include <cpp-sort/detail/front_insert.h>
using namespace cppsort::detail;
Elem* h_lb(Elem*f,Elem*l,Key const&v,Comp c,Proj p){ return cppsort::detail::lower_bound(f,l,v,c,p);}
Elem* h_lbm(Elem*f,Elem*l,Key const&v,Comp c,Proj p){ return cppsort::detail::lower_monobound_n(f,l-f,v,c,p);}
Elem* h_ub(Elem*f,Elem*l,Key const&v,Comp c,Proj p){ return cppsort::detail::upper_bound(f,l,v,c,p);}
Elem* h_ubn(Elem*f,Elem*l,Key const&v,Comp c,Proj p){ return cppsort::detail::upper_bound_n(f,l-f,v,c,p);}
std::pair<Elem*,Elem*> h_er(Elem*f,Elem*l,Key const&v,Comp c,Proj p){ return cppsort::detail::equal_range(f,l,v,c,p);}
Elem* h_isu(Elem*f,Elem*l,Comp c,Proj p){ return cppsort::detail::is_sorted_until(f,l,c,p);}
bool h_is(Elem*f,Elem*l,Comp c,Proj p){ return cppsort::detail::is_sorted(f,l,c,p);}
void h_rev(Elem*f,Elem*l){ cppsort::detail::reverse(f,l);}
void h_rev2(Elem*f,Elem*l){ cppsort::detail::reverse_impl(f,l,std::bidirectional_iterator_tag{});}
Elem* h_sro(Elem*f,Elem*l,Elem*g){ return cppsort::detail::swap_ranges_overlap(f,l,g);}
Elem* h_sri(Elem*f,Elem*l,Elem*g){ return cppsort::detail::swap_ranges_inner(f,l,g);}
Elem* h_part(Elem*f,Elem*l,Pred p){ return cppsort::detail::partition(f,l,p);}
Elem* h_partf(Elem*f,Elem*l,Pred p){ return cppsort::detail::partition_impl<Pred&>(f,l,p,std::forward_iterator_tag{});}
Elem* h_mv(Elem*f,Elem*l,Elem*g){ return cppsort::detail::move(f,l,g);}
Elem* h_mvb(Elem*f,Elem*l,Elem*g){ return cppsort::detail::move_backward(f,l,g);}
Elem* h_rotf(Elem*f,Elem*m,Elem*l){ return cppsort::detail::rotate_impl(f,m,l,std::forward_iterator_tag{});}
Elem* h_rotb(Elem*f,Elem*m,Elem*l){ return cppsort::detail::rotate_impl(f,m,l,std::bidirectional_iterator_tag{});}
Elem* h_rotr(Elem*f,Elem*m,Elem*l){ return cppsort::detail::rotate_impl(f,m,l,std::random_access_iterator_tag{});}
Elem* h_rot(Elem*f,Elem*m,Elem*l){ return cppsort::detail::rotate(f,m,l);}
auto h_mme(Elem*f,Elem*l,Comp c,Proj p){ return cppsort::detail::minmax_element(f,l,c,p);}
auto h_mmes(Elem*f,Elem*l,Comp c,Proj p){ return cppsort::detail::minmax_element_and_is_sorted(f,l,c,p);}
