#include "sorters.h"
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/selection_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/quick_sorter.h>
int main(int c, char** v) { init(c, v); modes();
  run<cppsort::insertion_sorter>({"insertion_sorter", true, 600, true});
  run<cppsort::selection_sorter>({"selection_sorter", true, 600, true});
  run<cppsort::merge_sorter>({"merge_sorter", false, 3000, true});
  run<cppsort::quick_sorter>({"quick_sorter", false, 3000, true, false, true, -1, 12.0});
  return finish(); }
