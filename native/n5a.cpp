#include "n5.h"
template<int... I> void all(std::integer_sequence<int, I...>) { ((cmp_all<I>(), mov_all<I>()), ...); }
int main(int c, char** v) { init(c, v); all(std::make_integer_sequence<int, 11>()); weak<1>(); weak<2>(); weak<3>(); weak<4>(); weak<5>(); weak<6>(); weak<7>(); weak<8>(); samples.push_back("every permutation of sizes 0..10, every weak order of sizes 1..8"); return finish(); }
