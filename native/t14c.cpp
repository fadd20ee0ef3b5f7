#include "t14.h"
int main(int c, char** v) { init(c, v); G.seed(seed);
  ints<spread_sorter, signed char>("spread_sorter", "signed char");
  ints<spread_sorter, unsigned char>("spread_sorter", "unsigned char");
  ints<spread_sorter, char>("spread_sorter", "char");
  ints<spread_sorter, short>("spread_sorter", "short");
  ints<spread_sorter, unsigned short>("spread_sorter", "unsigned short");
  ints<spread_sorter, int>("spread_sorter", "int");
  ints<spread_sorter, unsigned>("spread_sorter", "unsigned");
  ints<spread_sorter, long>("spread_sorter", "long");
  ints<spread_sorter, unsigned long>("spread_sorter", "unsigned long");
  ints<spread_sorter, long long>("spread_sorter", "long long");
  ints<spread_sorter, unsigned long long>("spread_sorter", "unsigned long long");
  return finish(); }
