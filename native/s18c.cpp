// C18: library sorters
#define FEW
#include "s18.h"
int main(int c, char** v) { init(c, v); auto in = inputs();
  for (auto& k : in) { all("default_sorter", default_sorter{}, k); all("quick_sorter", quick_sorter{}, k); all("merge_sorter", merge_sorter{}, k); all("std_sorter", std_sorter{}, k); all("heap_sorter", heap_sorter{}, k);
  }
  return finish(); }
