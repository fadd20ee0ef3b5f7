#include "conforming.h"
#include <cpp-sort/adapters/hybrid_adapter.h>
#include <cpp-sort/adapters/verge_adapter.h>
#include <cpp-sort/adapters/drop_merge_adapter.h>
#include <cpp-sort/adapters/split_adapter.h>
#include <cpp-sort/adapters/counting_adapter.h>
#include <cpp-sort/adapters/self_sort_adapter.h>
#include <cpp-sort/adapters/container_aware_adapter.h>
#include <cpp-sort/sorters/quick_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/selection_sorter.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/mel_sorter.h>
int main(int c, char** v) { init(c, v); modes(); using namespace cppsort;
  auto O = [](const char* n, int m = 400) { Opt o{}; o.name = n; o.maxn = m; return o; };
  run<verge_adapter<quick_sorter>>(O("verge_adapter<quick_sorter>", 1100));
  run<verge_adapter<heap_sorter>>(O("verge_adapter<heap_sorter>", 600));
  run<verge_adapter<anti_sorter<ra>>>(O("verge_adapter<conforming>", 400));
  run<drop_merge_adapter<quick_sorter>>(O("drop_merge_adapter<quick_sorter>", 600));
  run<drop_merge_adapter<anti_sorter<ra>>>(O("drop_merge_adapter<conforming>", 200));
  run<split_adapter<heap_sorter>>(O("split_adapter<heap_sorter>", 600));
  run<split_adapter<anti_sorter<ra>>>(O("split_adapter<conforming>", 200));
  run<counting_adapter<heap_sorter>>(O("counting_adapter<heap_sorter>", 200));
  run<hybrid_adapter<selection_sorter, insertion_sorter, heap_sorter>>(O("hybrid_adapter<selection,insertion,heap>", 200));
  run<hybrid_adapter<anti_sorter<ra>, hybrid_adapter<anti_sorter<fw>, anti_sorter<bi>>>>(O("hybrid_adapter<conforming,hybrid_adapter<conforming,conforming>>", 100));
  run<self_sort_adapter<heap_sorter>>(O("self_sort_adapter<heap_sorter>", 200));
  run<self_sort_adapter<merge_sorter>>(O("self_sort_adapter<merge_sorter>", 200));
  if (m_sort) { // dispatch: the best matching category, the first of equals; results forwarded; state kept
    snprintf(ctx, sizeof ctx, "hybrid_adapter dispatch");
    std::vector<int> a{3,1,2}; std::list<int> b{3,1,2}; std::forward_list<int> d{3,1,2}; tick(); ++nontriv;
    auto chk = [&](const char* w, long got, long want) { tick(); snprintf(ctx, sizeof ctx, "%s returns %ld, expected %ld", w, got, want); if (got != want) fail("C11 C18", "wrong dispatch or result"); };
    using H = hybrid_adapter<anti_sorter<fw,1>, anti_sorter<bi,2>, anti_sorter<ra,3>>; using G = hybrid_adapter<anti_sorter<ra,3>, anti_sorter<bi,2>, anti_sorter<fw,1>>;
    using I = hybrid_adapter<anti_sorter<bi,4>, anti_sorter<fw,1>, anti_sorter<bi,2>>; using J = hybrid_adapter<anti_sorter<fw,7>, hybrid_adapter<anti_sorter<ra,8>, anti_sorter<bi,9>>, anti_sorter<ra,6>>;
    chk("H(vector)", H{}(a), 3); chk("H(list)", H{}(b), 2); chk("H(forward_list)", H{}(d), 1); chk("G(vector)", G{}(a), 3); chk("G(list)", G{}(b), 2); chk("G(forward_list)", G{}(d), 1);
    chk("I(vector)", I{}(a), 4); chk("I(list)", I{}(b), 4); chk("I(forward_list)", I{}(d), 1); chk("J(vector)", J{}(a), 8); chk("J(list)", J{}(b), 9); chk("J(forward_list)", J{}(d), 7);
    chk("H(vector iterators)", H{}(a.begin(), a.end()), 3); chk("H(list, greater)", H{}(b, std::greater<>{}), 2); chk("J(vector, proj)", J{}(a, [](int x) { return -x; }), 8);
    chk("H(vector, greater, proj)", H{}(a, std::greater<>{}, [](int x) { return -x; }), 3);
    state_sorter s7(7); 
    chk("verge_adapter result unaffected", (verge_adapter<heap_sorter>{}(a), 0), 0);
    chk("hybrid(state)", hybrid_adapter<anti_sorter<bi>, state_sorter>(anti_sorter<bi>{}, s7)(a), 7);
    chk("self_sort(state)", self_sort_adapter<state_sorter>(s7)(a), 7);
    chk("container_aware(state)", container_aware_adapter<state_sorter>(s7)(a), 7);
    chk("counting result", long(counting_adapter<insertion_sorter>{}(a)) , long(a.size()) - 1);
  }
  return finish(); }
