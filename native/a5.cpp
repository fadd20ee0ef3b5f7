#include "conforming.h"
#include <cpp-sort/adapters/stable_adapter.h>
#include <cpp-sort/sorters/grail_sorter.h>
#include <cpp-sort/sorters/wiki_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/smooth_sorter.h>
#include <cpp-sort/sorters/poplar_sorter.h>
#include <cpp-sort/sorters/spin_sorter.h>
#include <cpp-sort/sorters/tim_sorter.h>
#include <cpp-sort/sorters/adaptive_shivers_sorter.h>
#include <cpp-sort/sorters/verge_sorter.h>
#include <cpp-sort/sorters/split_sorter.h>
#include <cpp-sort/sorters/drop_merge_sorter.h>
#include <cpp-sort/sorters/merge_insertion_sorter.h>
#include <cpp-sort/sorters/slab_sorter.h>
#include <cpp-sort/sorters/mel_sorter.h>
#include <cpp-sort/sorters/splay_sorter.h>
#include <cpp-sort/sorters/cartesian_tree_sorter.h>
#include <cpp-sort/sorters/d_ary_heap_sorter.h>
#include <cpp-sort/sorters/quick_merge_sorter.h>
#include <cpp-sort/sorters/selection_sorter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/quick_sorter.h>
#include <cpp-sort/sorters/heap_sorter.h>
int main(int c, char** v) { init(c, v); modes(); using namespace cppsort; using namespace cppsort::utility;
  { Opt o{}; o.name = "make_stable<grail_sorter<>>"; o.maxn = 200; run<make_stable<grail_sorter<>>>(o); }
  { Opt o{}; o.name = "make_stable<wiki_sorter<fixed_buffer<0>>>"; o.maxn = 200; run<make_stable<wiki_sorter<fixed_buffer<0>>>>(o); }
  { Opt o{}; o.name = "make_stable<pdq_sorter>"; o.maxn = 200; run<make_stable<pdq_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<smooth_sorter>"; o.maxn = 200; run<make_stable<smooth_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<poplar_sorter>"; o.maxn = 200; run<make_stable<poplar_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<spin_sorter>"; o.maxn = 200; run<make_stable<spin_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<tim_sorter>"; o.maxn = 200; run<make_stable<tim_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<adaptive_shivers_sorter>"; o.maxn = 200; run<make_stable<adaptive_shivers_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<verge_sorter>"; o.maxn = 360; run<make_stable<verge_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<split_sorter>"; o.maxn = 200; run<make_stable<split_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<drop_merge_sorter>"; o.maxn = 200; run<make_stable<drop_merge_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<merge_insertion_sorter>"; o.maxn = 200; run<make_stable<merge_insertion_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<slab_sorter>"; o.maxn = 200; run<make_stable<slab_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<mel_sorter>"; o.maxn = 200; run<make_stable<mel_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<splay_sorter>"; o.maxn = 200; run<make_stable<splay_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<cartesian_tree_sorter>"; o.maxn = 200; run<make_stable<cartesian_tree_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<d_ary_heap_sorter<3>>"; o.maxn = 200; run<make_stable<d_ary_heap_sorter<3>>>(o); }
  { Opt o{}; o.name = "make_stable<quick_merge_sorter>"; o.maxn = 200; run<make_stable<quick_merge_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<selection_sorter>"; o.maxn = 200; run<make_stable<selection_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<insertion_sorter>"; o.maxn = 200; run<make_stable<insertion_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<merge_sorter>"; o.maxn = 200; run<make_stable<merge_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<quick_sorter>"; o.maxn = 200; run<make_stable<quick_sorter>>(o); }
  { Opt o{}; o.name = "make_stable<heap_sorter>"; o.maxn = 200; run<make_stable<heap_sorter>>(o); }
  return finish(); }
