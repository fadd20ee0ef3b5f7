// the small fixed-size sorters on N elements of abstract order (C05)
#include "vco.h"
#include <cpp-sort/fixed/low_comparisons_sorter.h>
#include <cpp-sort/fixed/low_moves_sorter.h>
#define LC(n) extern "C" void vc_low_comparisons_##n() { E a[n ? n : 1]; cppsort::low_comparisons_sorter<n>{}(a, a + n, Lt{}); __vc_sorted(a, n, "low_comparisons_sorter"); }
#define LM(n) extern "C" void vc_low_moves_##n() { E a[n ? n : 1]; cppsort::low_moves_sorter<n>{}(a, a + n, Lt{}); __vc_sorted(a, n, "low_moves_sorter"); }
LC(2) LC(3) LC(4) LC(5) LC(6) LC(7) LC(8) LC(9) LC(10) LC(11) LC(12) LC(13)
LM(2) LM(3) LM(4) LM(5) LM(6) LM(7) LM(8) LM(9) LM(10) LM(11) LM(12) LM(13) LM(14) LM(15) LM(16) LM(17) LM(18) LM(19) LM(20) LM(21) LM(22) LM(23) LM(24) LM(25) LM(26) LM(27) LM(28) LM(29) LM(30) LM(31) LM(32)
