#include "sorters.h"
#include <cpp-sort/sorters/grail_sorter.h>
#include <cpp-sort/sorters/wiki_sorter.h>
#include <cpp-sort/utility/buffer.h>
int main(int c, char** v) { init(c, v); modes();
  using namespace cppsort::utility;
  run<cppsort::grail_sorter<>>({"grail_sorter<>", false, 3000, true, true});
  run<cppsort::grail_sorter<fixed_buffer<512>>>({"grail_sorter<fixed_buffer<512>>", false, 3000, true, true});
  run<cppsort::grail_sorter<dynamic_buffer<cppsort::utility::sqrt>>>({"grail_sorter<dynamic_buffer<sqrt>>"});
  run<cppsort::wiki_sorter<>>({"wiki_sorter<>", false, 3000, true});
  run<cppsort::wiki_sorter<fixed_buffer<0>>>({"wiki_sorter<fixed_buffer<0>>", false, 3000, true});
  run<cppsort::wiki_sorter<dynamic_buffer<cppsort::utility::half>>>({"wiki_sorter<dynamic_buffer<half>>"});
  run<cppsort::wiki_sorter<dynamic_buffer<cppsort::utility::sqrt>>>({"wiki_sorter<dynamic_buffer<sqrt>>"});
  return finish(); }
