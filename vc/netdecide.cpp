// decides by the 0-1 principle whether a compare-exchange network sorts every input (complete: the set of all
// reachable 0-1 vectors is computed, per connected component of what ran so far).
// input: n m, then m pairs (a b): afterwards slot a holds the smaller value. output: "sorts" | "fails <0-1 output>" | "unknown"
#include <algorithm>
#include <bitset>
#include <cstdio>
#include <vector>
typedef std::bitset<128> V0;
struct V { unsigned long long w[2]; bool operator<(const V& o) const { return w[1] != o.w[1] ? w[1] < o.w[1] : w[0] < o.w[0]; } bool operator==(const V& o) const { return w[0] == o.w[0] && w[1] == o.w[1]; } };
int main() {
    int n, m; if (scanf("%d %d", &n, &m) != 2 || n > 128) return 2; std::vector<std::pair<int,int>> nw(m); for (auto& p : nw) if (scanf("%d %d", &p.first, &p.second) != 2) return 2;
    std::vector<std::vector<V>> cs(n); std::vector<int> of(n), since(n, 0);
    for (int i = 0; i < n; ++i) { V z{{0, 0}}, o{{0, 0}}; o.w[i >> 6] |= 1ull << (i & 63); cs[i] = {z, o}; of[i] = i; }
    std::vector<std::vector<int>> q(n); for (int i = 0; i < m; ++i) { q[nw[i].first].push_back(i); q[nw[i].second].push_back(i); }
    std::vector<std::size_t> h(n, 0); int done = 0;
    auto uniq = [](std::vector<V>& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); };
    auto ready = [&](int s, int& e, int& o) { if (h[s] >= q[s].size()) return false; e = q[s][h[s]]; o = nw[e].first == s ? nw[e].second : nw[e].first; return h[o] < q[o].size() && q[o][h[o]] == e; };
    while (done < m) {
        std::vector<char> dirty(n, 0);
        for (bool again = true; again;) { again = false;
            for (int s = 0; s < n; ++s) { int e, o; while (ready(s, e, o) && of[s] == of[o]) { int a = nw[e].first, b = nw[e].second, A = a >> 6, B = b >> 6, ka = a & 63, kb = b & 63; auto& v = cs[of[a]];
                for (auto& x : v) { unsigned long long f = (x.w[A] >> ka) & ~(x.w[B] >> kb) & 1; x.w[A] ^= f << ka; x.w[B] ^= f << kb; }
                dirty[of[a]] = 1; ++h[a]; ++h[b]; ++done; again = true; if (v.size() > 4096 && ++since[of[a]] % 16 == 0) uniq(v); } } }
        for (int i = 0; i < n; ++i) if (dirty[i]) uniq(cs[i]);
        if (done == m) break;
        int best = -1; double bs = 1e300;
        for (int s = 0; s < n; ++s) { int e, o; if (!ready(s, e, o)) continue; double z = double(cs[of[s]].size()) * cs[of[o]].size(); if (z < bs) { bs = z; best = e; } }
        if (best < 0) return 2;
        if (bs > 2e8) { puts("unknown"); return 0; }
        int a = of[nw[best].first], b = of[nw[best].second]; std::vector<V> v; v.reserve(std::size_t(bs)); for (auto& x : cs[a]) for (auto& y : cs[b]) v.push_back(V{{x.w[0] | y.w[0], x.w[1] | y.w[1]}});
        for (int i = 0; i < n; ++i) if (of[i] == b) of[i] = a; cs[a].swap(v); std::vector<V>().swap(cs[b]); }
    // components never joined: any combination is reachable
    for (int i = 1; i < n; ++i) if (of[i] != of[0]) { std::vector<int> out(n, -1); // a one in the component of slot 0.. and a zero after it
        for (int k = 1; k < n; ++k) if (of[k] != of[k - 1]) { printf("fails "); for (int j = 0; j < n; ++j) putchar(of[j] == of[k - 1] ? '1' : '0'); puts(""); return 0; } }
    for (auto& x : cs[of[0]]) { bool one = false, bad = false; for (int i = 0; i < n; ++i) { bool t = (x.w[i >> 6] >> (i & 63)) & 1; if (one && !t) bad = true; one |= t; } if (bad) { printf("fails "); for (int i = 0; i < n; ++i) putchar('0' + ((x.w[i >> 6] >> (i & 63)) & 1)); puts(""); return 0; } }
    puts("sorts"); return 0; }
