#include "sorters.h"
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/d_ary_heap_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/smooth_sorter.h>
#include <cpp-sort/sorters/poplar_sorter.h>
int main(int c, char** v) { init(c, v); modes();
  run<cppsort::heap_sorter>({"heap_sorter", false, 3000, true, true, true, -1, 3.0});
  run<cppsort::d_ary_heap_sorter<2>>({"d_ary_heap_sorter<2>", false, 3000, true, true});
  run<cppsort::d_ary_heap_sorter<3>>({"d_ary_heap_sorter<3>", false, 3000, true, true});
  run<cppsort::d_ary_heap_sorter<4>>({"d_ary_heap_sorter<4>", false, 3000, true, true});
  run<cppsort::d_ary_heap_sorter<7>>({"d_ary_heap_sorter<7>", false, 3000, true, true});
  run<cppsort::pdq_sorter>({"pdq_sorter", false, 3000, true, false, true, -1, 4.0, true});
  run<cppsort::smooth_sorter>({"smooth_sorter", false, 3000, true, true, true, -1, 6.0, true});
  run<cppsort::poplar_sorter>({"poplar_sorter", false, 3000, false, true, true, -1, 6.0});
  return finish(); }
