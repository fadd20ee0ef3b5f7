#include "t14.h"
int main(int c, char** v) { init(c, v); G.seed(seed);
  floats<ska_sorter, float>("ska_sorter", "float");
  floats<ska_sorter, double>("ska_sorter", "double");
  floats<spread_sorter, float>("spread_sorter", "float");
  floats<spread_sorter, double>("spread_sorter", "double");
  floats<float_spread_sorter, float>("float_spread_sorter", "float");
  floats<float_spread_sorter, double>("float_spread_sorter", "double");
  return finish(); }
