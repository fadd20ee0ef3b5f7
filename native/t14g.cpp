#include "t14.h"
int main(int c, char** v) { init(c, v); G.seed(seed);
  for (int n : NS()) { for (int f = 0; f < 6; ++f) {
    { std::vector<bool> b(n); for (int i = 0; i < n; ++i) b[i] = G() & 1; std::vector<bool> w = b; long t = std::count(b.begin(), b.end(), true); std::vector<char> bb(n); snprintf(ctx, sizeof ctx, "ska_sorter on bool n=%d", n); tick(); std::deque<bool> d(b.begin(), b.end()); ska_sorter{}(d); if (!std::is_sorted(d.begin(), d.end()) || std::count(d.begin(), d.end(), true) != t) fail("C14", "bools"); }
    auto a = family<int>(f == 0 ? 0 : f == 1 ? 9 : 4, n); auto l = family<long long>(f == 2 ? 0 : f == 3 ? 9 : 4, n); auto s = sfam(f % 4, n); auto d = ffam<double>(2, n);
    std::vector<std::pair<int, std::string>> p; std::vector<std::tuple<short, long long, double>> t; std::vector<std::array<short, 3>> ar; std::vector<std::vector<int>> vv; std::vector<std::pair<bool, unsigned char>> pb; std::vector<std::tuple<int>> t1; std::vector<std::deque<unsigned short>> dq;
    for (int i = 0; i < n; ++i) { p.push_back({a[i], s[i]}); t.push_back(std::make_tuple(short(a[i]), l[i], d[i])); ar.push_back({short(a[i]), short(l[i]), short(G() % 3 - 1)}); vv.push_back(std::vector<int>(a.begin() + i, a.begin() + std::min<std::size_t>(n, i + G() % 4))); pb.push_back({bool(G() & 1), (unsigned char)G()}); t1.push_back(a[i]); dq.push_back(std::deque<unsigned short>(G() % 3, (unsigned short)G())); }
    values<ska_sorter, std::pair<int, std::string>>("ska_sorter", "pair<int,string>", "pairs", p, false); values<ska_sorter, std::tuple<short, long long, double>>("ska_sorter", "tuple<short,long long,double>", "tuples", t, false); values<ska_sorter, std::array<short, 3>>("ska_sorter", "array<short,3>", "arrays", ar, false); values<ska_sorter, std::vector<int>>("ska_sorter", "vector<int>", "vectors", vv, false); values<ska_sorter, std::pair<bool, unsigned char>>("ska_sorter", "pair<bool,unsigned char>", "pairs", pb, false); values<ska_sorter, std::tuple<int>>("ska_sorter", "tuple<int>", "tuples", t1, false); values<ska_sorter, std::deque<unsigned short>>("ska_sorter", "deque<unsigned short>", "deques", dq, false); } }
  return finish(); }
