#include "common.h"
#include <cpp-sort/utility/apply_permutation.h>
void h_ap(Elem* a, Elem* b, long* c, long* d) { cppsort::utility::apply_permutation(a, b, c, d); }
