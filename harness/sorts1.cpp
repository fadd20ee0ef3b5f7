#include "common.h"
#include <cpp-sort/detail/insertion_sort.h>
#include <cpp-sort/detail/selection_sort.h>
#include <cpp-sort/detail/bubble_sort.h>
#include <cpp-sort/detail/min_element.h>
#include <cpp-sort/detail/iter_sort3.h>
#include <cpp-sort/detail/heapsort.h>
#include <cpp-sort/detail/d_ary_heapsort.h>
using namespace cppsort::detail;
void h_insertion(Elem*f,Elem*l,Comp c,Proj p){ insertion_sort(f,l,c,p);}
void h_selection(Elem*f,Elem*l,Comp c,Proj p){ selection_sort(f,l,c,p);}
void h_bubble(Elem*f,Elem*l,Comp c,Proj p){ bubble_sort(f,l-f,c,p);}
Elem* h_min(Elem*f,Elem*l,Comp c,Proj p){ return cppsort::detail::min_element(f,l,c,p);}
Elem* h_sort3(Elem*f,Elem*m,Elem*l,Comp c,Proj p){ return iter_sort3(f,m,l,c,p);}
void h_heap(Elem*f,Elem*l,Comp c,Proj p){ heapsort(f,l,c,p);}
void h_dary2(Elem*f,Elem*l,Comp c,Proj p){ d_ary_heapsort<2>(f,l,c,p);}
void h_dary3(Elem*f,Elem*l,Comp c,Proj p){ d_ary_heapsort<3>(f,l,c,p);}
void h_dary4(Elem*f,Elem*l,Comp c,Proj p){ d_ary_heapsort<4>(f,l,c,p);}
