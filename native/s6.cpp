#include "sorters.h"
#include <cpp-sort/sorters/drop_merge_sorter.h>
#include <cpp-sort/sorters/split_sorter.h>
#include <cpp-sort/sorters/verge_sorter.h>
#include <cpp-sort/sorters/std_sorter.h>
#include <cpp-sort/sorters/default_sorter.h>
int main(int c, char** v) { init(c, v); modes();
  run<cppsort::drop_merge_sorter>({"drop_merge_sorter"});
  run<cppsort::split_sorter>({"split_sorter", false, 3000, true});
  run<cppsort::verge_sorter>({"verge_sorter"});
  run<cppsort::std_sorter>({"std_sorter"});
  run<cppsort::default_sorter>({"default_sorter"});
  return finish(); }
