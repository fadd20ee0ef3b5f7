// Merging with whatever buffer there is (C01, C02, C03, C15, C16).
#include "common.h"
#include <cpp-sort/detail/merge_move.h>
#include <cpp-sort/detail/move.h>
#include <cpp-sort/detail/buffered_inplace_merge.h>
#include <cpp-sort/detail/recmerge_bidirectional.h>
#include <cpp-sort/detail/recmerge_forward.h>
#include <cpp-sort/detail/symmerge.h>
#include <cpp-sort/detail/inplace_merge.h>
#include <cpp-sort/detail/merge_sort.h>
#include <cpp-sort/detail/stable_partition.h>
using namespace cppsort::detail;
Elem* h_mm(Elem* a, Elem* b, Elem* c, Elem* d, Elem* r, Comp cmp, Proj p) { return merge_move(a, b, c, d, r, cmp, p, p); }
void h_bim(Elem* f, Elem* m, Elem* l, Comp c, Proj p, Elem* b) { buffered_inplace_merge(f, m, l, c, p, m - f, l - m, b); }
void h_rmb(Elem* f, Elem* m, Elem* l, Comp c, Proj p, Elem* b, std::ptrdiff_t n) { recmerge(f, m, l, c, p, m - f, l - m, b, n, std::bidirectional_iterator_tag{}); }
void h_rmf(Elem* f, std::ptrdiff_t n0, Elem* m, std::ptrdiff_t n1, Comp c, Proj p, Elem* b, std::ptrdiff_t n) { recmerge(f, n0, m, n1, b, n, c, p, std::forward_iterator_tag{}); }
void h_sym(Elem* f, Elem* m, Elem* l, Comp c, Proj p, Elem* b, std::ptrdiff_t n) { symmerge(f, std::ptrdiff_t(0), m - f, l - f, c, p, m - f, l - m, b, n); }

using Buffer = temporary_buffer<Elem>;
void h_gtb(std::ptrdiff_t n) { Buffer b(n); b.try_grow(2*n); }
void h_msb(Elem* f, Elem* l, Buffer&& b, Comp c, Proj p) { merge_sort_impl(f, l, l - f, std::move(b), c, p, std::bidirectional_iterator_tag{}); }
void h_msf(Elem* f, std::ptrdiff_t n, Buffer&& b, Comp c, Proj p) { merge_sort_impl(f, n, std::move(b), c, p, std::forward_iterator_tag{}); }
void h_ms(Elem* f, Elem* l, Comp c, Proj p) { merge_sort(f, l, l - f, c, p); }
void h_msF(Elem* f, Elem* l, Comp c, Proj p) { merge_sort(f, l, l - f, c, p, std::forward_iterator_tag{}); }
void h_im(Elem* f, Elem* m, Elem* l, Comp c, Proj p) { inplace_merge(f, m, l, c, p); inplace_merge(f, m, l, c, p, m - f, l - m); }
void h_imb(Elem* f, Elem* m, Elem* l, Comp c, Proj p, Elem* b, std::ptrdiff_t n) { inplace_merge(f, m, l, c, p, m - f, l - m, b, n); }
void h_imbB(Elem* f, Elem* m, Elem* l, Comp c, Proj p, Elem* b, std::ptrdiff_t n) { inplace_merge(f, m, l, c, p, m - f, l - m, b, n, std::bidirectional_iterator_tag{}); }
Elem* h_sp(Elem* f, Elem* l, Pred p) { return stable_partition(f, l, l - f, p); }
