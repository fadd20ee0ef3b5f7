// C18: library adapters, sorters of integers
#define FEW
#include "s18.h"
int main(int c, char** v) { init(c, v); auto in = inputs();
  for (auto& k : in) { all("block_sorter", block_sorter<>{}, k); all("stable_adapter<heap>", stable_adapter<heap_sorter>{}, k); all("indirect<quick>", indirect_adapter<quick_sorter>{}, k); all("schwartz<quick>", schwartz_adapter<quick_sorter>{}, k); all("hybrid", hybrid_adapter<merge_sorter, pdq_sorter>{}, k);
    ints("ska_sorter", ska_sorter{}, k); ints("spread_sorter", spread_sorter{}, k); ints("hybrid<ska,merge>", hybrid_adapter<ska_sorter, merge_sorter>{}, k);
    { sn = "hybrid<ska,merge>"; both(hybrid_adapter<ska_sorter, merge_sorter>{}, k); }
  }
  return finish(); }
