#include "sorters.h"
#include <cpp-sort/sorters/mel_sorter.h>
#include <cpp-sort/sorters/slab_sorter.h>
#include <cpp-sort/sorters/merge_insertion_sorter.h>
#include <cpp-sort/sorters/quick_merge_sorter.h>
int main(int c, char** v) { init(c, v); modes();
  run<cppsort::mel_sorter>({"mel_sorter", true, 600});
  run<cppsort::slab_sorter>({"slab_sorter", true, 600});
  run<cppsort::merge_insertion_sorter>({"merge_insertion_sorter", true, 600});
  run<cppsort::quick_merge_sorter>({"quick_merge_sorter", false, 3000, true, false, true, -1, 4.0});
  return finish(); }
