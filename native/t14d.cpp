#include "t14.h"
int main(int c, char** v) { init(c, v); G.seed(seed);
  ints<integer_spread_sorter, int>("integer_spread_sorter", "int");
  ints<integer_spread_sorter, unsigned>("integer_spread_sorter", "unsigned");
  ints<integer_spread_sorter, long>("integer_spread_sorter", "long");
  ints<integer_spread_sorter, unsigned long>("integer_spread_sorter", "unsigned long");
  ints<integer_spread_sorter, long long>("integer_spread_sorter", "long long");
  ints<integer_spread_sorter, unsigned long long>("integer_spread_sorter", "unsigned long long");
  ints<integer_spread_sorter, signed char>("integer_spread_sorter", "signed char");
  ints<integer_spread_sorter, unsigned char>("integer_spread_sorter", "unsigned char");
  ints<integer_spread_sorter, char>("integer_spread_sorter", "char");
  ints<integer_spread_sorter, short>("integer_spread_sorter", "short");
  ints<integer_spread_sorter, unsigned short>("integer_spread_sorter", "unsigned short");
  return finish(); }
