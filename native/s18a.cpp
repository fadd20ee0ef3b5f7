// every way of calling a sorter (C18): the facade over sorters with each kind of native interface
#include "s18.h"
int main(int c, char** v) { init(c, v); auto in = inputs();
  for (auto& k : in) { all("full facade", full_sorter{}, k); all("collection facade", coll_sorter{}, k); all("stateful facade", stateful_sorter{9}, k);
    sn = "comparison-only sorter"; forms(cmp_sorter{}, "no argument", k, LT, ID); cmps(cmp_sorter{}, k); projs(cmp_sorter{}, k); both(cmp_sorter{}, k);
    sn = "projection-only sorter"; forms(proj_sorter{}, "no argument", k, LT, ID); projs(proj_sorter{}, k); forms(proj_sorter{}, "default comparison", k, LT, ID, std::less<>{}); forms(proj_sorter{}, "default comparison and projection", k, LT, &W::neg, std::less<>{}, &W::neg);
  }
  return finish(); }
