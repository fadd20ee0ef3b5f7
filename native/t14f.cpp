#include "t14.h"
int main(int c, char** v) { init(c, v); G.seed(seed);
  strings<ska_sorter>("ska_sorter");
  strings<spread_sorter>("spread_sorter");
  strings<string_spread_sorter>("string_spread_sorter");
  for (int n : NS()) for (int f = 0; f < 8; ++f) { auto s = sfam(f, n); std::vector<std::string_view> w(s.begin(), s.end()); values<spread_sorter, std::string_view>("spread_sorter", "std::string_view", "views", w, false); values<string_spread_sorter, std::string_view>("string_spread_sorter", "std::string_view", "views", w, true); }
  for (int n : NS()) for (int f = 0; f < 8; ++f) { auto s = sfam(f, n); std::vector<std::wstring> w; std::vector<std::u16string> u; for (auto& x : s) { w.emplace_back(x.begin(), x.end()); u.emplace_back(x.begin(), x.end()); } values<ska_sorter, std::wstring>("ska_sorter", "std::wstring", "wide", w, false); values<ska_sorter, std::u16string>("ska_sorter", "std::u16string", "utf16", u, false); }
  return finish(); }
