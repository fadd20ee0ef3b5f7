#include "c04.h"
// the compare-exchange itself on elements of any order
extern "C" void vc_ce_swap_if() { E a[2]; cppsort::detail::swap_if(a[0], a[1], Lt{}, cppsort::utility::identity{}); __vc_sorted(a, 2, "swap_if"); }
extern "C" void vc_ce_iter_swap_if() { E a[2]; cppsort::detail::iter_swap_if(a, a + 1, Lt{}, cppsort::utility::identity{}); __vc_sorted(a, 2, "iter_swap_if"); }
SN(2) SN(3) SN(4) SN(5) SN(6) SN(7) SN(8) SN(9) SN(10) SN(11) SN(12) SN(13) SN(14) SN(15) SN(16) SN(17) SN(18) SN(19) SN(20) SN(21) SN(22) SN(23) SN(24) SN(25) SN(26) SN(27) SN(28) SN(29) SN(30) SN(31) SN(32) SN(33) SN(34) SN(35) SN(36) SN(37) SN(38) SN(39) SN(40)
