#include "sorters.h"
#include <cpp-sort/sorters/tim_sorter.h>
#include <cpp-sort/sorters/adaptive_shivers_sorter.h>
#include <cpp-sort/sorters/spin_sorter.h>
#include <cpp-sort/sorters/splay_sorter.h>
#include <cpp-sort/sorters/cartesian_tree_sorter.h>
int main(int c, char** v) { init(c, v); modes();
  run<cppsort::tim_sorter>({"tim_sorter", false, 3000, false, false, true, -1, 2.0, true});
  run<cppsort::adaptive_shivers_sorter>({"adaptive_shivers_sorter", false, 3000, false, false, true, -1, 3.0, true});
  run<cppsort::spin_sorter>({"spin_sorter"});
  run<cppsort::splay_sorter>({"splay_sorter"});
  run<cppsort::cartesian_tree_sorter>({"cartesian_tree_sorter"});
  return finish(); }
