#include "t14.h"
int main(int c, char** v) { init(c, v); G.seed(seed);
  counting<signed char>("signed char"); counting<unsigned char>("unsigned char"); counting<char>("char"); counting<short>("short"); counting<unsigned short>("unsigned short"); counting<int>("int"); counting<unsigned>("unsigned"); counting<long>("long"); counting<unsigned long>("unsigned long"); counting<long long>("long long"); counting<unsigned long long>("unsigned long long");
  return finish(); }
