#include "t14.h"
int main(int c, char** v) { init(c, v); G.seed(seed);
  ints<ska_sorter, int>("ska_sorter", "int");
  ints<ska_sorter, unsigned>("ska_sorter", "unsigned");
  ints<ska_sorter, long>("ska_sorter", "long");
  ints<ska_sorter, unsigned long>("ska_sorter", "unsigned long");
  ints<ska_sorter, long long>("ska_sorter", "long long");
  ints<ska_sorter, unsigned long long>("ska_sorter", "unsigned long long");
  ints<ska_sorter, i128>("ska_sorter", "__int128"); ints<ska_sorter, u128>("ska_sorter", "unsigned __int128");
  return finish(); }
