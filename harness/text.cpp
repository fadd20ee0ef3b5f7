#include "common.h"
#include <locale>
#include <cpp-sort/comparators/case_insensitive_less.h>
#include <cpp-sort/comparators/natural_less.h>
bool h_nat(const char* a, const char* b, const char* c, const char* d) { return cppsort::detail::natural_less_impl(a, b, c, d); }
bool h_ci(const char* a, const char* b, const char* c, const char* d, const std::ctype<char>& ct) { return std::lexicographical_compare(a, b, c, d, cppsort::detail::char_less<char>(ct)); }
