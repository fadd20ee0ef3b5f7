#include "common.h"
#include <cpp-sort/detail/pdqsort.h>
#include <cpp-sort/detail/quicksort.h>
#include <cpp-sort/detail/nth_element.h>
#include <cpp-sort/detail/quick_merge_sort.h>
using namespace cppsort::detail;
void h_pdq(Elem*f,Elem*l,Comp c,Proj p){ pdqsort(f,l,c,p);}
void h_quick(Elem*f,Elem*l,Comp c,Proj p){ quicksort(f,l,l-f,c,p);}
Elem* h_select(Elem*f,Elem*l,long n,Comp c,Proj p){ return introselect(f,l,n,l-f,c,p);}
void h_quick_f(Fwd f,Fwd l,long n,Comp c,Proj p){ quicksort(f,l,n,c,p);}
void h_quick_b(Bidir f,Bidir l,long n,Comp c,Proj p){ quicksort(f,l,n,c,p);}
void h_qm(Elem*f,Elem*l,Comp c,Proj p){ quick_merge_sort(f,l,l-f,c,p);}
void h_qm_f(Fwd f,Fwd l,long n,Comp c,Proj p){ quick_merge_sort(f,l,n,c,p);}
void h_qm_b(Bidir f,Bidir l,long n,Comp c,Proj p){ quick_merge_sort(f,l,n,c,p);}
