#include "n5.h"
template<int N> void rnd() { std::mt19937 g(seed); for (int t = 0; t < 20000; ++t) { int a[N], in[N]; M b[N]; for (int i = 0; i < N; ++i) { a[i] = t % 3 ? int(g() % N) : int(g() % 3); b[i].k = (signed char)a[i]; in[i] = a[i]; } cppsort::low_comparisons_sorter<N>{}(a, a + N); cppsort::low_moves_sorter<N>{}(b, b + N, ML{}); ++evals; ++nontriv; std::sort(in, in + N); for (int i = 0; i < N; ++i) if (a[i] != in[i] || b[i].k != in[i]) { snprintf(ctx, sizeof ctx, "fixed sorter of size %d on the values %s shuffled", N, sh(in, N).c_str()); fail("C05", "position %d", i); break; } } }
int main(int c, char** v) { init(c, v); cmp_all<11>(); mov_all<11>(); cmp_insert<10, 9, 1>(); cmp_insert<13, 11, 1>(); cmp_insert<12, 10, 1>(); rnd<9>(); rnd<10>(); rnd<11>(); rnd<12>(); rnd<13>(); samples.push_back("every permutation of size 11"); return finish(); }
