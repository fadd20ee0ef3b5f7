#include "t14.h"
int main(int c, char** v) { init(c, v); G.seed(seed);
  ints<ska_sorter, signed char>("ska_sorter", "signed char");
  ints<ska_sorter, unsigned char>("ska_sorter", "unsigned char");
  ints<ska_sorter, char>("ska_sorter", "char");
  ints<ska_sorter, short>("ska_sorter", "short");
  ints<ska_sorter, unsigned short>("ska_sorter", "unsigned short");
  ints<ska_sorter, wchar_t>("ska_sorter", "wchar_t");
  return finish(); }
