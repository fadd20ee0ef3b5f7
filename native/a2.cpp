#include "conforming.h"
#include <cpp-sort/adapters/stable_adapter.h>
#include <cpp-sort/adapters/hybrid_adapter.h>
#include <cpp-sort/adapters/verge_adapter.h>
#include <cpp-sort/adapters/self_sort_adapter.h>
#include <cpp-sort/sorters/quick_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/std_sorter.h>
#include <cpp-sort/sorters/default_sorter.h>
#include <cpp-sort/sorters/verge_sorter.h>
#include <cpp-sort/sorters/selection_sorter.h>
#include <cpp-sort/sorters/smooth_sorter.h>
int main(int c, char** v) { init(c, v); modes(); using namespace cppsort;
  auto O = [](const char* n, int m = 400) { Opt o{}; o.name = n; o.maxn = m; return o; };
  run<make_stable<quick_sorter>>(O("make_stable<quick_sorter>"));
  run<make_stable<heap_sorter>>(O("make_stable<heap_sorter>"));
  run<make_stable<anti_sorter<fw>>>(O("make_stable<conforming>", 130));
  run<stable_adapter<quick_sorter>>(O("stable_adapter<quick_sorter>"));
  run<stable_t<anti_sorter<bi>>>(O("stable_t<conforming>", 130));
  run<stable_adapter<merge_sorter>>(O("stable_adapter<merge_sorter>"));
  run<stable_adapter<default_sorter>>(O("stable_adapter<default_sorter>"));
  run<stable_adapter<std_sorter>>(O("stable_adapter<std_sorter>"));
  run<stable_adapter<verge_sorter>>(O("stable_adapter<verge_sorter>", 600));
  run<stable_adapter<verge_adapter<heap_sorter>>>(O("stable_adapter<verge_adapter<heap_sorter>>", 600));
  run<stable_adapter<verge_adapter<anti_sorter<ra>>>>(O("stable_adapter<verge_adapter<conforming>>", 300));
  run<stable_t<hybrid_adapter<selection_sorter, quick_sorter>>>(O("stable_t<hybrid_adapter<selection_sorter,quick_sorter>>", 200));
  run<stable_adapter<hybrid_adapter<insertion_sorter, heap_sorter>>>(O("stable_adapter<hybrid_adapter<insertion_sorter,heap_sorter>>", 200));
  run<stable_adapter<hybrid_adapter<anti_sorter<fw>, anti_sorter<ra>>>>(O("stable_adapter<hybrid_adapter<conforming,conforming>>", 100));
  run<stable_adapter<self_sort_adapter<heap_sorter>>>(O("stable_adapter<self_sort_adapter<heap_sorter>>", 200));
  run<stable_adapter<stable_adapter<smooth_sorter>>>(O("stable_adapter<stable_adapter<smooth_sorter>>", 200));
  return finish(); }
