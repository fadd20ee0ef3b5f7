#include "conforming.h"
#include <cpp-sort/adapters/schwartz_adapter.h>
#include <cpp-sort/sorters/grail_sorter.h>
#include <cpp-sort/sorters/wiki_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/smooth_sorter.h>
#include <cpp-sort/sorters/poplar_sorter.h>
#include <cpp-sort/sorters/spin_sorter.h>
#include <cpp-sort/sorters/tim_sorter.h>
#include <cpp-sort/sorters/adaptive_shivers_sorter.h>
#include <cpp-sort/sorters/verge_sorter.h>
#include <cpp-sort/sorters/split_sorter.h>
#include <cpp-sort/sorters/drop_merge_sorter.h>
#include <cpp-sort/sorters/merge_insertion_sorter.h>
#include <cpp-sort/sorters/slab_sorter.h>
#include <cpp-sort/sorters/mel_sorter.h>
#include <cpp-sort/sorters/splay_sorter.h>
#include <cpp-sort/sorters/cartesian_tree_sorter.h>
#include <cpp-sort/sorters/d_ary_heap_sorter.h>
#include <cpp-sort/sorters/quick_merge_sorter.h>
#include <cpp-sort/sorters/selection_sorter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/quick_sorter.h>
#include <cpp-sort/sorters/heap_sorter.h>
int main(int c, char** v) { init(c, v); modes(); using namespace cppsort; using namespace cppsort::utility;
  { Opt o{}; o.name = "schwartz_adapter<grail_sorter<>>"; o.maxn = 200; run<schwartz_adapter<grail_sorter<>>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<wiki_sorter<fixed_buffer<0>>>"; o.maxn = 200; run<schwartz_adapter<wiki_sorter<fixed_buffer<0>>>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<pdq_sorter>"; o.maxn = 200; run<schwartz_adapter<pdq_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<smooth_sorter>"; o.maxn = 200; run<schwartz_adapter<smooth_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<poplar_sorter>"; o.maxn = 200; run<schwartz_adapter<poplar_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<spin_sorter>"; o.maxn = 200; run<schwartz_adapter<spin_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<tim_sorter>"; o.maxn = 200; run<schwartz_adapter<tim_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<adaptive_shivers_sorter>"; o.maxn = 200; run<schwartz_adapter<adaptive_shivers_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<verge_sorter>"; o.maxn = 360; run<schwartz_adapter<verge_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<split_sorter>"; o.maxn = 200; run<schwartz_adapter<split_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<drop_merge_sorter>"; o.maxn = 200; run<schwartz_adapter<drop_merge_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<merge_insertion_sorter>"; o.maxn = 200; run<schwartz_adapter<merge_insertion_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<slab_sorter>"; o.maxn = 200; run<schwartz_adapter<slab_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<mel_sorter>"; o.maxn = 200; run<schwartz_adapter<mel_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<splay_sorter>"; o.maxn = 200; run<schwartz_adapter<splay_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<cartesian_tree_sorter>"; o.maxn = 200; run<schwartz_adapter<cartesian_tree_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<d_ary_heap_sorter<3>>"; o.maxn = 200; run<schwartz_adapter<d_ary_heap_sorter<3>>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<quick_merge_sorter>"; o.maxn = 200; run<schwartz_adapter<quick_merge_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<selection_sorter>"; o.maxn = 200; run<schwartz_adapter<selection_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<insertion_sorter>"; o.maxn = 200; run<schwartz_adapter<insertion_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<merge_sorter>"; o.maxn = 200; run<schwartz_adapter<merge_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<quick_sorter>"; o.maxn = 200; run<schwartz_adapter<quick_sorter>>(o); }
  { Opt o{}; o.name = "schwartz_adapter<heap_sorter>"; o.maxn = 200; run<schwartz_adapter<heap_sorter>>(o); }
  return finish(); }
