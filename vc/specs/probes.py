"""Contracts: measures of presortedness (C06: the value of the definition, C07: read-only, zero on sorted input, bounded)."""
from spec import *
from basic import range_setup, valid_range
AS = z3.ArraySort(Int, Int)
# ghost functions, given by recursion over the length of the prefix; facts about them are instances of these equations
DESC = z3.Function('number-of-descents', AS, Int, Int, Int)        # (A, first, k): descents (i-1,i) with first < i < k
MONO = z3.Function('finished-runs', AS, Int, Int, Int)              # monotone runs finished before position k
MODE = z3.Function('current-run', AS, Int, Int, Int)                # 0 undecided, 1 ascending, 2 descending, after pair (k-1,k)
def b2i(b): return z3.If(b, z3.IntVal(1), z3.IntVal(0))
def desc_ax(c, A, f, k):
    """DESC(A,f,k) for k <= f+1 and the step from k to k+1 (pair k-1,k)"""
    return z3.And(DESC(A, f, f + 1) == 0, DESC(A, f, f) == 0, z3.Implies(k > f, DESC(A, f, k + 1) == DESC(A, f, k) + b2i(c.lt(sel(A, k), sel(A, k - 1)))))
def mono_ax(c, A, f, k):
    up = c.lt(sel(A, k - 1), sel(A, k)); dn = c.lt(sel(A, k), sel(A, k - 1)); q = MODE(A, f, k - 1)
    brk = z3.Or(z3.And(q == 1, dn), z3.And(q == 2, up))
    return z3.And(MODE(A, f, f) == 0, MONO(A, f, f) == 0,
        z3.Implies(k > f, z3.And(
            MODE(A, f, k) == z3.If(q == 0, z3.If(up, 1, z3.If(dn, 2, 0)), z3.If(brk, 0, q)),
            MONO(A, f, k) == MONO(A, f, k - 1) + b2i(brk))))
class Probe(Contract):
    props = ('C06', 'C07')
    first, last = 'first', 'last'
    def setup(self, V, fn): return range_setup(V)[1]
    def pre(self, c):
        yield 'valid-range', 'mem', valid_range(c)
        yield 'live', 'own', live(c.A(c.p('first')), c.i('first'), c.i('last'))
    def result(self, c): return c.eng.fresh('measure')
    def srt(self, c, f, l):
        A = c.A(c.p('first') if hasattr(c, 'p') else c.arg('first')); return FA(2, lambda i, j: (z3.Implies(z3.And(f <= i, i <= j, j < l), z3.Not(c.lt(sel(A, j), sel(A, i)))), [(pt(A, i), pt(A, j))]))
@contract
class IsPSorted(Probe):
    """true iff no two elements more than p positions apart are in the wrong order"""
    fns = ('cppsort::detail::is_p_sorted',)
    def setup(self, V, fn):
        A, g = range_setup(V); g['pth'] = V.ptr(A, z3.Int('pth')); return g
    def pre(self, c):
        for x in Probe.pre(self, c): yield x
        yield 'pth-in-range', 'mem', z3.And(c.i('first') <= c.i('pth'), c.i('pth') < c.i('last'))
    def result(self, c): return c.eng.fresh('psorted', z3.BoolSort())
    def post(self, c, ret):
        f, l, p = c.i('first'), c.i('last'), c.i('pth'); A = c.A(c.p('first')); b = zb(c.eng.asbool(ret))
        d = p - f
        g = FA(2, lambda i, j: (z3.Implies(z3.And(f <= i, i + d < j, j < l), z3.Not(c.lt(sel(A, j), sel(A, i)))), [(pt(A, i), pt(A, j))]))
        yield 'true-iff-p-sorted', z3.And(z3.Implies(b, g), z3.Implies(z3.Not(b), z3.Not(g)))
    def lp(L):
        A = L.A(L.arg('first')); f0, l, p = L.ai('first'), L.ai('last'), L.ai('pth'); f, i1, m = L.i('first'), L.i('it1'), L.i('max_it'); d = p - f0
        yield 'positions', z3.And(f0 <= f, i1 == f + d + 1, i1 <= l, f0 <= m, m <= f, z3.Implies(f == f0, m == f0), z3.Implies(f > f0, m < f))
        yield 'max-of-prefix', FA(1, lambda i: (z3.Implies(inr(f0, i, f), z3.Not(L.lt(sel(A, m), sel(A, i)))), [pt(A, i)]))
        yield 'p-sorted-prefix', FA(2, lambda i, j: (z3.Implies(z3.And(f0 <= i, i + d < j, j < i1), z3.Not(L.lt(sel(A, j), sel(A, i)))), [(pt(A, i), pt(A, j))]))
    loops = {0: Loop(lp, lambda L: L.ai('last') - L.i('it1'))}
@contract
class InplaceDis(Probe):
    """the largest distance between two elements in the wrong order"""
    fns = ('cppsort::probe::detail::inplace_dis_probe_algo',)
    def setup(self, V, fn):
        A, g = range_setup(V); g['size'] = A.hi - A.lo; return g
    def pre(self, c):
        for x in Probe.pre(self, c): yield x
        yield 'size', 'mem', c.i('size') == c.i('last') - c.i('first')
    def within(self, c, A, f, l, d): return FA(2, lambda i, j: (z3.Implies(z3.And(f <= i, i + d < j, j < l), z3.Not(c.lt(sel(A, j), sel(A, i)))), [(pt(A, i), pt(A, j))]))
    def post(self, c, ret):
        f, l = c.i('first'), c.i('last'); A = c.A(c.p('first')); r = zi(c.eng.num(ret))
        yield 'no-inversion-is-longer', self.within(c, A, f, l, r)
        yield 'some-inversion-has-that-length', z3.And(r >= 0, z3.Or(r == 0, z3.Not(self.within(c, A, f, l, r - 1))))
        yield 'zero-when-sorted', z3.Implies(self.srt(c, f, l), r == 0)
        yield 'within-the-documented-maximum', z3.If(f == l, r == 0, r <= l - f - 1)
    def lp(L):
        A = L.A(L.arg('first')); f, l = L.ai('first'), L.ai('last'); r, n = L.i('res'), L.i('size'); self = REGC(InplaceDis)
        yield 'range', z3.And(0 <= r, 0 <= n, L.i('res_it') == f + r, f + r + n <= l)
        yield 'longer-inversion-left', z3.Or(r == 0, z3.Not(self.within(L, A, f, l, r - 1)))
        yield 'no-inversion-above', self.within(L, A, f, l, r + n)
    loops = {0: Loop(lp, lambda L: L.i('size'))}
@contract
class Runs(Probe):
    """the number of descents"""
    fns = ('cppsort::probe::detail::runs_impl::operator#call',)
    def post(self, c, ret):
        f, l = c.i('first'), c.i('last'); A = c.A(c.p('first')); r = zi(c.eng.num(ret))
        c.eng.assume(c.st, desc_ax(c, A, f, f))
        yield 'number-of-descents', r == DESC(A, f, l)
        yield 'zero-when-sorted', z3.Implies(self.srt(c, f, l), r == 0)
        yield 'within-the-documented-maximum', z3.If(f == l, r == 0, z3.And(0 <= r, r <= l - f - 1))
    def inv(L, inner):
        A = L.A(L.arg('first')); f, l = L.ai('first'), L.ai('last'); c, n, k = L.i('current'), L.i('next'), L.i('count'); self = REGC(Runs)
        L.eng.assume(L.st, desc_ax(L, A, f, n)); L.eng.assume(L.st, desc_ax(L, A, f, n - 1))
        yield 'positions', z3.And(f < n, n == c + 1, n <= l, n >= L.entry.i('next') if inner else True)
        yield 'count', z3.And(k == DESC(A, f, n), 0 <= k, k <= c - f)
        yield 'sorted-means-none', z3.Implies(self.srt(L, f, l), k == 0)
    loops = {0: Loop(lambda L: Runs.inv(L, 0), lambda L: L.ai('last') - L.i('next')), 1: Loop(lambda L: Runs.inv(L, 1), lambda L: L.ai('last') - L.i('next'))}
@contract
class Mono(Probe):
    """the number of monotone runs of the greedy decomposition, minus one"""
    fns = ('cppsort::probe::detail::mono_impl::operator#call',)
    def post(self, c, ret):
        f, l = c.i('first'), c.i('last'); A = c.A(c.p('first')); r = zi(c.eng.num(ret))
        c.eng.assume(c.st, mono_ax(c, A, f, f)); c.eng.assume(c.st, mono_ax(c, A, f, l - 1))
        yield 'finished-monotone-runs', r == z3.If(f == l, 0, MONO(A, f, l - 1))
        yield 'zero-when-sorted', z3.Implies(self.srt(c, f, l), r == 0)
        yield 'within-the-documented-maximum', z3.And(0 <= r, z3.Implies(f < l, 2*r <= l - f - 1))
    def inv(L, q):
        A = L.A(L.arg('first')); f, l = L.ai('first'), L.ai('last'); c, n, k = L.i('current'), L.i('next'), L.i('count'); self = REGC(Mono)
        for x in (n, n - 1, n + 1): L.eng.assume(L.st, mono_ax(L, A, f, x))
        if q == 0:
            # `current` starts a run (the collection may be exhausted)
            yield 'positions', z3.And(f <= c, n == c + 1, n <= l)
            yield 'state', z3.And(MODE(A, f, c) == 0, k == MONO(A, f, c), 0 <= k, 2*k <= c - f)
        else:
            # top of the do-while body: the pair (current,next) belongs to the run
            yield 'positions', z3.And(f <= c, n == c + 1, n < l, n >= L.entry.i('next'))
            yield 'state', z3.And(MODE(A, f, n) == q, k == MONO(A, f, n), 0 <= k, 2*k <= c - f)
        yield 'sorted-means-none', z3.Implies(self.srt(L, f, l), z3.And(k == 0, q != 2))
    loops = {0: Loop(lambda L: Mono.inv(L, 0), lambda L: L.ai('last') - L.i('next')), 1: Loop(lambda L: Mono.inv(L, 1), lambda L: L.ai('last') - L.i('next')), 2: Loop(lambda L: Mono.inv(L, 2), lambda L: L.ai('last') - L.i('next'))}
@contract
class WithinMax(Probe):
    """the harness functions comparing a measure with its documented maximum return true"""
    props = ('C07',)
    fns = ('within_runs', 'within_mono', 'within_dis')
    def setup(self, V, fn):
        A = V.elems('A'); return {0: V.ptr(A, A.lo), 1: V.ptr(A, A.hi)}
    def pre(self, c):
        f, l = c.p(0), c.p(1)
        yield 'valid-range', 'mem', z3.And(zi(f.idx) <= zi(l.idx))
        yield 'live', 'own', live(c.A(f), zi(f.idx), zi(l.idx))
    def result(self, c): return c.eng.fresh('ok', z3.BoolSort())
    def post(self, c, ret): yield 'within-the-documented-maximum', zb(c.eng.asbool(ret))
CROSS = z3.Function('pairs-crossing', AS, Int, Int, Int, Int)        # (A, first, i, k): adjacent pairs (m-1,m), first < m < k, strictly around element i
OSC = z3.Function('oscillation-of-prefix', AS, Int, Int, Int, Int)   # (A, first, last, i): sum of CROSS over the elements before i
def cross_ax(c, A, f, i, k):
    a, b, v = sel(A, k - 1), sel(A, k), sel(A, i)
    inside = z3.Or(z3.And(c.lt(a, v), c.lt(v, b)), z3.And(c.lt(b, v), c.lt(v, a)))
    return z3.And(CROSS(A, f, i, f + 1) == 0, z3.Implies(k > f, CROSS(A, f, i, k + 1) == CROSS(A, f, i, k) + b2i(inside)))
@contract
class InplaceOsc(Probe):
    """for every element, the number of adjacent pairs strictly around it, summed"""
    fns = ('cppsort::probe::detail::inplace_osc_algo',)
    def setup(self, V, fn):
        A, g = range_setup(V); g['size'] = A.hi - A.lo
        V.eng.assume(V.st, A.hi - A.lo < 2**31)      # the exact value of larger collections need not be representable
        return g
    def pre(self, c):
        for x in Probe.pre(self, c): yield x
        yield 'size', 'mem', c.i('size') == c.i('last') - c.i('first')
    def post(self, c, ret):
        f, l = c.i('first'), c.i('last'); A = c.A(c.p('first')); r = zi(c.eng.num(ret))
        yield 'sum-over-elements-of-the-pairs-around-them', r == z3.If(l - f < 2, 0, OSC(A, f, l, l))
        yield 'zero-when-sorted', z3.Implies(self.srt(c, f, l), r == 0)
    def outer(L):
        A = L.A(L.arg('first')); f, l = L.ai('first'), L.ai('last'); i, k = L.i('it'), L.i('count'); self = REGC(InplaceOsc)
        L.eng.assume(L.st, OSC(A, f, l, f) == 0)
        L.eng.assume(L.st, OSC(A, f, l, i) == OSC(A, f, l, i - 1) + CROSS(A, f, i - 1, l))
        yield 'positions', z3.And(f <= i, i <= l, f + 2 <= l)
        yield 'count', z3.And(k == OSC(A, f, l, i), 0 <= k, k <= (i - f)*(l - f))
        yield 'sorted-means-none', z3.Implies(self.srt(L, f, l), k == 0)
    def inner(L):
        A = L.A(L.arg('first')); f, l = L.ai('first'), L.ai('last'); i, k, n = L.i('it'), L.i('count'), L.i('next'); self = REGC(InplaceOsc)
        for x in (n, n - 1): L.eng.assume(L.st, cross_ax(L, A, f, i, x))
        yield 'positions', z3.And(f < n, n <= l, L.i('current') == n - 1, f <= i, i < l)
        yield 'count', z3.And(k == OSC(A, f, l, i) + CROSS(A, f, i, n), 0 <= OSC(A, f, l, i), OSC(A, f, l, i) <= (i - f)*(l - f), 0 <= CROSS(A, f, i, n), CROSS(A, f, i, n) <= n - f)
        yield 'sorted-means-none', z3.Implies(self.srt(L, f, l), k == 0)
    loops = {0: Loop(outer, lambda L: L.ai('last') - L.i('it')), 1: Loop(inner, lambda L: L.ai('last') - L.i('next'))}
