"""Contracts: application of a permutation of indices (C12)."""
from spec import *
@contract
class ApplyPermutation(Contract):
    fns = ('cppsort::utility::apply_permutation',); props = ('C12', 'C03')
    def matches(self, fn, eng): return len(fn.params) == 4
    def setup(self, V, fn):
        A = V.elems('A', 0, z3.Int('n')); I = V.ints('I', 0, z3.Int('n'))
        return {0: V.ptr(A, 0), 1: V.ptr(A, A.hi), 2: V.ptr(I, 0), 3: V.ptr(I, I.hi)}
    def inv(self): return z3.Function('inverse', Int, Int)
    def steps(self): return z3.Function('steps_to', Int, Int, Int)
    def I0(self, c): return c.pre_mem[c.p(2).obj.id][0]
    def pre(self, c):
        n = zi(c.p(1).idx); I = self.I0(c); A = c.A(c.p(0)); J = self.inv()
        yield 'valid', 'mem', z3.And(n >= 0, n <= MAXN)
        yield 'live', 'own', live(A, 0, n)
        yield 'indices', FA(1, lambda k: (z3.Implies(inr(0, k, n), inr(0, sel(I, k), n)), [pt(I, k)]))
        # a permutation has an inverse; along a cycle the start is reached after a finite number of steps
        yield 'permutation', z3.And(FA(1, lambda k: (z3.Implies(inr(0, k, n), J(sel(I, k)) == k), [pt(I, k)])), FA(1, lambda m: (z3.Implies(inr(0, m, n), z3.And(inr(0, J(m), n), sel(I, J(m)) == m)), [J(m)])))
        S = self.steps()
        yield 'finite-cycles', FA(2, lambda s, k: (z3.Implies(z3.And(inr(0, s, n), inr(0, k, n)), z3.And(S(s, k) >= 0, z3.Implies(z3.And(S(s, k) > 0, sel(I, k) != s), S(s, sel(I, k)) == S(s, k) - 1), z3.Implies(k == s, S(s, k) > 0), z3.Implies(z3.And(S(s, k) > 0, sel(I, k) != s), S(s, k) > 1))), [S(s, k)]))
    def frame(self, c): return [('perm', c.p(0), zi(0), zi(c.p(1).idx)), ('any', c.p(2), zi(0), zi(c.p(1).idx))]
    def post(self, c, ret):
        n = zi(c.p(1).idx); A, O = c.A(c.p(0)), c.A_old(c.p(0)); I0 = self.I0(c)
        yield 'live', 'own', live(A, 0, n)
        yield 'permuted', FA(1, lambda k: (z3.Implies(inr(0, k, n), sel(A, k) == sel(O, sel(I0, k))), [pt(A, k), pt(I0, k)]))
    def env(L):
        c = L.ctx; self = REGC(ApplyPermutation); n = zi(c.p(1).idx); return self, n, L.A(c.p(0)), c.A_old(c.p(0)), L.A(c.p(2)), self.I0(c), self.inv()
    def states(L, but=None):
        self, n, A, O, I, I0, J = ApplyPermutation.env(L)
        def f(k):
            g = inr(0, k, n)
            if but is not None: g = z3.And(g, k != but)
            return z3.Implies(g, z3.Or(z3.And(sel(I, k) == k, sel(A, k) == sel(O, sel(I0, k))), z3.And(sel(I, k) == sel(I0, k), sel(A, k) == sel(O, k)))), [pt(I, k), pt(A, k)]
        return FA(1, f)
    def injective(L):
        self, n, A, O, I, I0, J = ApplyPermutation.env(L)
        return FA(2, lambda i, j: (z3.Implies(z3.And(inr(0, i, n), inr(0, j, n), sel(I, i) == sel(I, j)), i == j), [(pt(I, i), pt(I, j))]))
    def outer(L):
        self, n, A, O, I, I0, J = ApplyPermutation.env(L); x = L.i('idx')
        yield 'range', z3.And(0 <= x, z3.Or(x <= n, n < 0))
        yield 'entries', ApplyPermutation.states(L)
        yield 'done', FA(1, lambda k: (z3.Implies(inr(0, k, x), sel(I, k) == k), [pt(I, k)]))
        yield 'indices', FA(1, lambda k: (z3.Implies(inr(0, k, n), inr(0, sel(I, k), n)), [pt(I, k)]))
        yield 'still-a-permutation', ApplyPermutation.injective(L)
    def cycle(L):
        self, n, A, O, I, I0, J = ApplyPermutation.env(L); s = L.i('idx'); c = L.i('current_idx'); Ie = L.entry.A(L.ctx.p(2)); S = self.steps()
        P = lambda m: z3.And(sel(Ie, m) != m, sel(I, m) == m)
        yield 'range', z3.And(0 <= s, s < n, 0 <= c, c < n)
        yield 'hole', z3.And(sel(A, c) == MOVED, sel(I, c) == sel(I0, c), sel(I, c) != c, sel(I, c) != s, sel(Ie, c) == sel(I0, c))
        yield 'saved', zi(L.e('tmp')) == sel(O, s)
        yield 'entries', ApplyPermutation.states(L, c)
        yield 'others', FA(1, lambda k: (z3.Implies(inr(0, k, n), z3.Or(sel(I, k) == sel(Ie, k), z3.And(sel(I, k) == k, sel(Ie, k) == sel(I0, k)))), [pt(I, k)]))
        yield 'predecessors-done', FA(1, lambda m: (z3.Implies(z3.And(inr(0, m, n), P(m), m != s), P(J(m))), [pt(I, m)]))
        yield 'here-by-predecessor', z3.Or(c == s, z3.And(P(J(c)), P(s)))
        yield 'steps', S(s, c) > 0
    loops = {0: Loop(outer, lambda L: zi(L.ctx.p(1).idx) - L.i('idx')), 1: Loop(cycle, lambda L: REGC(ApplyPermutation).steps()(L.i('idx'), L.i('current_idx')))}
