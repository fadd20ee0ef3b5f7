"""Contracts: text comparators (C09)."""
from spec import *
@model('isdigit', 'std::isdigit')
def _(eng, fr, st, fn, av, loc, ins):
    x = eng.num(av[0]); eng.oblige(st, 'isdigit:argument-is-an-unsigned-char', 'arith', z3.And(zi(x) >= -1, zi(x) <= 255), loc)
    return [(st, z3.If(z3.And(zi(x) >= 48, zi(x) <= 57), z3.IntVal(1), z3.IntVal(0)))]
lower = z3.Function('lower', Int, Int)      # the facet's tolower, arbitrary
@model('std::ctype<char>::tolower(char) const')
def _(eng, fr, st, fn, av, loc, ins): return [(st, lower(zi(eng.num(av[1]))))]
def dig(x): return z3.And(x >= 48, x <= 57)
AI = z3.ArraySort(Int, Int)
DE = z3.Function('digits_end', AI, Int, Int, Int)       # end of the maximal group of digits starting here
ZE = z3.Function('zeros_end', AI, Int, Int, Int)        # end of the zeros at the start of it
LT3 = z3.Function('digits_cmp', AI, AI, Int, Int, Int, Int)   # lexicographic comparison of the digits up to an end
NAT = z3.Function('natural', AI, AI, Int, Int, Int, Int, z3.BoolSort())
def ax_group(X, i, n):
    d, z = DE(X, i, n), ZE(X, i, n)
    return z3.Implies(i <= n, z3.And(i <= d, d <= n, FA(1, lambda k: (z3.Implies(z3.And(i <= k, k < d), dig(sel(X, k))), [pt(X, k)])), z3.Implies(d < n, z3.Not(dig(sel(X, d)))),
        i <= z, z <= d, FA(1, lambda k: (z3.Implies(z3.And(i <= k, k < z), sel(X, k) == 48), [pt(X, k)])), z3.Implies(z < d, sel(X, z) != 48)))
def ax_lt3(X, Y, i, j, e):
    return LT3(X, Y, i, j, e) == z3.If(i >= e, 0, z3.If(sel(X, i) != sel(Y, j), z3.If(sel(X, i) < sel(Y, j), -1, 1), LT3(X, Y, i + 1, j + 1, e)))
def ax_nat(X, Y, i, j, n, m):
    """the documented order, one step: groups of digits by value, other characters by code"""
    d, e, z, y = DE(X, i, n), DE(Y, j, m), ZE(X, i, n), ZE(Y, j, m); c = LT3(X, Y, z, y, d)
    num = z3.If(d - z != e - y, d - z < e - y, z3.If(c != 0, c < 0, NAT(X, Y, d, e, n, m)))
    chars = z3.If(sel(X, i) != sel(Y, j), sel(X, i) < sel(Y, j), NAT(X, Y, i + 1, j + 1, n, m))
    return NAT(X, Y, i, j, n, m) == z3.If(z3.Or(i >= n, j >= m), z3.And(i >= n, j < m), z3.If(z3.And(dig(sel(X, i)), dig(sel(Y, j))), num, chars))
def two(V, a, b, c, d):
    A = V.ints('A', z3.Int('A_lo'), z3.Int('A_hi'), ('int', 8)); B = V.ints('B', z3.Int('B_lo'), z3.Int('B_hi'), ('int', 8))
    for o in (A, B): V.eng.assume(V.st, z3.And(o.lo >= 0, o.lo <= o.hi, o.hi <= MAXN))
    return {a: V.ptr(A, A.lo), b: V.ptr(A, A.hi), c: V.ptr(B, B.lo), d: V.ptr(B, B.hi)}
class Text(Contract):
    props = ('C09',)
    def setup(self, V, fn): return two(V, 0, 1, 2, 3)
    def geo(self, c):
        g = c.ctx if hasattr(c, 'ctx') else c
        return c.eng.arr(c.st, g.p(0).obj), c.eng.arr(c.st, g.p(2).obj), zi(g.p(0).idx), zi(g.p(1).idx), zi(g.p(2).idx), zi(g.p(3).idx)
    def pre(self, c):
        X, Y, f1, l1, f2, l2 = self.geo(c); yield 'valid-ranges', 'mem', z3.And(f1 <= l1, f2 <= l2, zi(c.p(0).obj.lo) <= f1, l1 <= zi(c.p(0).obj.hi), zi(c.p(2).obj.lo) <= f2, l2 <= zi(c.p(2).obj.hi))
    def result(self, c): return c.eng.fresh('less', z3.BoolSort())
@contract
class NaturalLess(Text):
    fns = ('cppsort::detail::natural_less_impl',)
    def post(self, c, ret):
        X, Y, f1, l1, f2, l2 = self.geo(c); yield 'documented-order', zb(c.eng.asbool(ret)) == NAT(X, Y, f1, f2, l1, l2)
    def G(L): return REGC(NaturalLess).geo(L)
    def outer(L):
        X, Y, f1, l1, f2, l2 = NaturalLess.G(L); i, j = L.i('begin1'), L.i('begin2')
        for a in (ax_group(X, i, l1), ax_group(Y, j, l2), ax_nat(X, Y, i, j, l1, l2), ax_nat(X, Y, DE(X, i, l1), DE(Y, j, l2), l1, l2), ax_group(X, DE(X, i, l1), l1), ax_group(Y, DE(Y, j, l2), l2)): L.eng.assume(L.st, a)
        yield 'range', z3.And(f1 <= i, i <= l1, f2 <= j, j <= l2)
        yield 'same-answer', NAT(X, Y, f1, f2, l1, l2) == NAT(X, Y, i, j, l1, l2)
    def reg(L, b):
        X, Y, f1, l1, f2, l2 = NaturalLess.G(L); return (X, l1) if b == 'begin1' else (Y, l2)
    def digits(b, l):
        def f(L):
            Z, n = NaturalLess.reg(L, b); i, k = L.i(b), L.i(l)
            yield 'range', z3.And(i <= k, k < n)
            yield 'digits', FA(1, lambda q: (z3.Implies(z3.And(i <= q, q < k), dig(sel(Z, q))), [pt(Z, q)]))
        return Loop(f, lambda L: NaturalLess.reg(L, b)[1] - L.i(l))
    def zeros(b, l):
        def f(L):
            Z, n = NaturalLess.reg(L, b); i, k, s = L.i(b), L.i(l), L.entry.i(b)
            yield 'range', z3.And(s <= i, i < k, k <= n)
            yield 'zeros', FA(1, lambda q: (z3.Implies(z3.And(s <= q, q < i), sel(Z, q) == 48), [pt(Z, q)]))
        return Loop(f, lambda L: L.i(l) - L.i(b))
    def same(L):
        X, Y, f1, l1, f2, l2 = NaturalLess.G(L); i, j, e = L.i('begin1'), L.i('begin2'), L.i('last1'); a, b = L.entry.i('begin1'), L.entry.i('begin2')
        for q in (ax_lt3(X, Y, i, j, e),): L.eng.assume(L.st, q)
        yield 'range', z3.And(a <= i, i <= e, j - b == i - a)
        yield 'same-comparison', LT3(X, Y, a, b, e) == LT3(X, Y, i, j, e)
    loops = {0: Loop(outer, lambda L: NaturalLess.G(L)[3] - L.i('begin1')), 1: digits('begin1', 'last1'), 2: digits('begin2', 'last2'), 3: zeros('begin1', 'last1'), 4: zeros('begin2', 'last2'), 5: Loop(same, lambda L: L.i('last1') - L.i('begin1'))}

LEX = z3.Function('lex', AI, AI, Int, Int, Int, Int, z3.BoolSort())
def ax_lex(X, Y, i, j, n, m):
    a, b = lower(sel(X, i)), lower(sel(Y, j))
    return LEX(X, Y, i, j, n, m) == z3.If(z3.Or(i >= n, j >= m), z3.And(i >= n, j < m), z3.If(a != b, a < b, LEX(X, Y, i + 1, j + 1, n, m)))
@contract
class LowerLex(Text):
    fns = ('std::lexicographical_compare', 'std::__lexicographical_compare_impl')
    def matches(self, fn, eng): return 'char_less<char>' in fn.demangled
    def post(self, c, ret):
        X, Y, f1, l1, f2, l2 = self.geo(c); yield 'order-of-the-lower-cased-forms', zb(c.eng.asbool(ret)) == LEX(X, Y, f1, f2, l1, l2)
    def lp(L):
        X, Y, f1, l1, f2, l2 = REGC(LowerLex).geo(L); i, j = L.i('__first1'), L.i('__first2'); L.eng.assume(L.st, ax_lex(X, Y, i, j, l1, l2))
        e = L.i('__last1'); yield 'range', z3.And(f1 <= i, i <= e, j - f2 == i - f1, e <= l1, e - f1 <= l2 - f2, z3.Or(e == l1, e - f1 == l2 - f2))
        yield 'same-answer', LEX(X, Y, f1, f2, l1, l2) == LEX(X, Y, i, j, l1, l2)
    loops = {0: Loop(lp, lambda L: L.i('__last1') - L.i('__first1'))}
