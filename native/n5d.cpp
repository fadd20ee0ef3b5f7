#include "n5.h"
int main(int c, char** v) { init(c, v); mov_all<12>(); samples.push_back("every permutation of size 12 (moves)"); return finish(); }
