#include "n5.h"
int main(int c, char** v) { init(c, v); cmp_all<12>(); samples.push_back("every permutation of size 12 (comparisons)"); return finish(); }
