"""Contracts: pdqsort and its parts."""
from spec import *
import basic as B
PQ = 'cppsort::detail::pdqsort_detail::'
def lower(A, f, l):
    """the element before f comes before every element of [f,l)"""
    return FA(1, lambda i: (z3.Implies(inr(f, i, l), R(sel(A, f - 1)) <= R(sel(A, i))), [pt(A, i)]))
def guard(c, o, f): return And(cmpop('lt', o.lo, f))

@contract
class UnguardedInsertionSort(B.RangeSort):
    fns = (PQ + 'unguarded_insertion_sort',); first, last = 'begin', 'end'
    def setup(self, V, fn):
        A = V.elems('A'); f = z3.Int('begin_i'); return {'begin': V.ptr(A, f), 'end': V.ptr(A, A.hi)}
    def pre(self, c):
        yield from super().pre(c)
        o = c.p('begin').obj; f = c.i('begin'); A = c.A(o)
        yield 'element-before', 'mem', guard(c, o, f)
        yield 'element-before-is-smallest', z3.And(sel(A, f - 1) >= 0, lower(A, f, c.i('end')))
    def outer(L):
        A = L.A(L.obj('cur')); f, c, l = L.ai('begin'), L.i('cur'), L.ai('end')
        yield 'cur-range', z3.And(f < c, c <= l)
        yield 'live', 'own', z3.And(live(A, f, l), sel(A, f - 1) >= 0)
        yield 'lower', lower(A, f, l)
        yield 'prefix-sorted', sorted_('plain', A, f, c)
    def inner(L):
        A = L.A(L.obj('cur')); f, c, l, s = L.ai('begin'), L.i('cur'), L.ai('end'), L.i('sift')
        t = zi(L.e('tmp')); H = Hole(A, (s, t))
        yield 'sift-range', z3.And(f < s, s <= c, L.i('sift_1') == s - 1)
        yield 'hole', 'own', z3.And(sel(A, s) == MOVED, t >= 0)
        yield 'live', 'own', z3.And(live(H, f, l), sel(A, f - 1) >= 0)
        yield 'lower', z3.And(lower(H, f, l), R(sel(A, f - 1)) <= R(t))
        yield 'tmp-goes-left', R(t) < R(sel(A, s - 1))
        yield 'sorted-but-hole', FA(2, lambda i, j: (z3.Implies(z3.And(f <= i, i < j, j <= c, j != s), R(sel(H, i)) <= R(sel(H, j))), [(pt(A, i), pt(A, j))]))
    loops = {0: Loop(outer, lambda L: L.ai('end') - L.i('cur')), 1: Loop(inner, lambda L: L.i('sift'))}

@contract
class PartialInsertionSort(B.RangeSort):
    fns = (PQ + 'partial_insertion_sort',); first, last = 'begin', 'end'
    def result(self, c): return c.eng.fresh('done', z3.BoolSort())
    def post(self, c, ret):
        A = c.A(c.p('begin')); lo, hi = c.i('begin'), c.i('end')
        yield 'elements-live', 'own', live(A, lo, hi)
        yield 'sorted-when-true', z3.Implies(zb(c.eng.asbool(ret)), sorted_('plain', A, lo, hi))
    def outer(L):
        A = L.A(L.obj('cur')); f, c, l = L.ai('begin'), L.i('cur'), L.ai('end')
        yield 'cur-range', z3.And(f < c, c <= l, L.i('limit') >= 0, L.i('limit') <= 8)
        yield 'live', 'own', live(A, f, l)
        yield 'prefix-sorted', sorted_('plain', A, f, c)
    def inner(L):
        A = L.A(L.obj('cur')); f, c, l, s = L.ai('begin'), L.i('cur'), L.ai('end'), L.i('sift')
        t = zi(L.e('tmp')); H = Hole(A, (s, t))
        yield 'sift-range', z3.And(f < s, s <= c, L.i('sift_1') == s - 1, L.i('limit') >= 0, L.i('limit') <= 8)
        yield 'hole', 'own', z3.And(sel(A, s) == MOVED, t >= 0)
        yield 'live', 'own', live(H, f, l)
        yield 'tmp-goes-left', R(t) < R(sel(A, s - 1))
        yield 'sorted-but-hole', FA(2, lambda i, j: (z3.Implies(z3.And(f <= i, i < j, j <= c, j != s), R(sel(H, i)) <= R(sel(H, j))), [(pt(A, i), pt(A, j))]))
    loops = {0: Loop(outer, lambda L: L.ai('end') - L.i('cur')), 1: Loop(inner, lambda L: L.i('sift'))}

def mk(lp, v, n): return {k: Loop(lp(k), v(k)) for k in range(n)}
class PdqPartition(Contract):
    props = ('C01', 'C03'); right = True
    def setup(self, V, fn): return B.range_setup(V, 'begin', 'end')[1]
    def pre(self, c):
        A = c.A(c.p('begin')); f, l = c.i('begin'), c.i('end')
        yield 'valid-range', 'mem', B.valid_range(c, 'begin', 'end')
        yield 'elements-live', 'own', live(A, f, l)
        i = z3.Int('snt%d' % next(c.eng.fresh_n))
        k = R(sel(A, f)) <= R(sel(A, i)) if self.right else R(sel(A, i)) <= R(sel(A, f))
        ex = z3.Not(z3.ForAll([i], z3.Not(z3.And(f < i, i < l, k)), patterns=[pt(A, i)]))
        if not c.verifying:      # witnesses are tried first: the positions from which the pivot was chosen
            h = f + (l - f) / 2; N = c.eng.fresh('A', z3.ArraySort(Int, Int)); c.eng.assume(c.st, N == A)
            ex = z3.Or(*[z3.And(f < w, w < l, z3.substitute(k, (i, w))) for w in (l - 1, h, h + 1, h - 1)], ex)
        yield 'sentinel', 'mem', z3.And(f < l, ex)
    def frame(self, c): return [('perm', c.p('begin'), c.i('begin'), c.i('end'))]
    def post(self, c, ret):
        p = ret[0] if isinstance(ret, (list, tuple)) else ret
        f, l, A, O = c.i('begin'), c.i('end'), c.A(c.p('begin')), c.A_old(c.p('begin')); r = zi(p.idx); pv = sel(O, f)
        yield 'live', 'own', live(A, f, l)
        yield 'result-in-range', z3.And(f <= r, r < l)
        yield 'pivot', sel(A, r) == pv
        if self.right:
            yield 'left', FA(1, lambda i: (z3.Implies(inr(f, i, r), R(sel(A, i)) < R(pv)), [pt(A, i)]))
            yield 'right', FA(1, lambda i: (z3.Implies(inr(r, i, l), R(sel(A, i)) >= R(pv)), [pt(A, i)]))
        else:
            yield 'left', FA(1, lambda i: (z3.Implies(z3.And(f <= i, i <= r), R(sel(A, i)) <= R(pv)), [pt(A, i)]))
            yield 'right', FA(1, lambda i: (z3.Implies(z3.And(r < i, i < l), R(sel(A, i)) > R(pv)), [pt(A, i)]))
@contract
class PartitionRight(PdqPartition):
    fns = (PQ + 'partition_right',)
    def result(self, c): return [Ptr(c.p('begin').obj, c.eng.fresh('pp')), c.eng.fresh('already', z3.BoolSort())]
    def lp(k):
        def inv(L):
            A = L.A(L.arg('begin')); b, e, f, l = L.ai('begin'), L.ai('end'), L.i('first'), L.i('last'); t = zi(L.e('pivot')); H = Hole(A, (b, t))
            rt = R(t)
            yield 'range', z3.And(b <= f, f < e, b < l, l <= e)
            yield 'hole', 'own', z3.And(sel(A, b) == MOVED, t >= 0)
            yield 'live', 'own', live(A, b + 1, e)
            lft = (lambda i: z3.And(b < i, i <= f)) if k in (0, 4) else (lambda i: z3.And(b < i, i < f))
            yield 'left', FA(1, lambda i: (z3.Implies(lft(i), R(sel(A, i)) < rt), [pt(A, i)]))
            if k == 0: yield 'last', l == e
            rgt = (lambda i: z3.And(l <= i, i < e)) if k in (1, 2, 4, 5) else (lambda i: z3.And(l < i, i < e))
            if k != 0: yield 'right', FA(1, lambda i: (z3.Implies(rgt(i), R(sel(A, i)) >= rt), [pt(A, i)]))
            if k == 0:
                i = z3.Int('sn%d' % 7); O = L.A0(L.arg('begin'))
                yield 'unchanged', FA(1, lambda i: (z3.Implies(inr(b + 1, i, e), sel(A, i) == sel(O, i)), [pt(A, i), pt(O, i)]))
                yield 'sentinel', z3.Not(z3.ForAll([i], z3.Not(z3.And(b < i, i < e, rt <= R(sel(O, i)))), patterns=[pt(O, i)]))
            else: yield 'first', z3.And(b < f, R(sel(A, f)) >= rt if k != 4 else True)
            if k == 1: yield 'guarded', z3.And(f == b + 1, f <= l)
            if k == 2: yield 'unguarded', z3.And(f > b + 1, f - 1 < l)
            if k == 3: yield 'crossing', z3.And(f - 1 <= l, l < e, z3.Implies(f != l, R(sel(A, l)) < rt))
            if k == 4: yield 'stop', z3.And(f < l, l < e)
            if k == 5: yield 'stop', z3.And(b < f - 1, f - 1 < l, f <= l)
        return inv
    def v(k):
        if k in (0, 4): return lambda L: L.ai('end') - L.i('first')
        if k in (1, 2, 5): return lambda L: L.i('last') - L.ai('begin')
        return lambda L: L.i('last') - L.i('first') + 1
    loops = mk(lp, v, 6)
@contract
class PartitionLeft(PdqPartition):
    fns = (PQ + 'partition_left',); right = False
    def result(self, c): return Ptr(c.p('begin').obj, c.eng.fresh('pp'))
    def lp(k):
        def inv(L):
            A = L.A(L.arg('begin')); b, e, f, l = L.ai('begin'), L.ai('end'), L.i('first'), L.i('last'); t = zi(L.e('pivot'))
            rt = R(t)
            yield 'range', z3.And(b <= f, f < e, b < l, l <= e)
            yield 'hole', 'own', z3.And(sel(A, b) == MOVED, t >= 0)
            yield 'live', 'own', live(A, b + 1, e)
            rgt = (lambda i: z3.And(l <= i, i < e)) if k in (0, 4) else (lambda i: z3.And(l < i, i < e))
            yield 'right', FA(1, lambda i: (z3.Implies(rgt(i), R(sel(A, i)) > rt), [pt(A, i)]))
            if k == 0: yield 'first', f == b
            lft = (lambda i: z3.And(b < i, i <= f)) if k in (1, 2, 4, 5) else (lambda i: z3.And(b < i, i < f))
            if k != 0: yield 'left', FA(1, lambda i: (z3.Implies(lft(i), R(sel(A, i)) <= rt), [pt(A, i)]))
            if k == 0:
                i = z3.Int('sn%d' % 7); O = L.A0(L.arg('begin'))
                yield 'unchanged', FA(1, lambda i: (z3.Implies(inr(b + 1, i, e), sel(A, i) == sel(O, i)), [pt(A, i), pt(O, i)]))
                yield 'sentinel', z3.Not(z3.ForAll([i], z3.Not(z3.And(b < i, i < e, R(sel(O, i)) <= rt)), patterns=[pt(O, i)]))
            else: yield 'last', z3.And(l < e, z3.Or(k == 4, R(sel(A, l)) <= rt))
            if k == 1: yield 'guarded', z3.And(l == e - 1, f <= l)
            if k == 2: yield 'unguarded', z3.And(l < e - 1, f <= l)
            if k == 3: yield 'crossing', z3.And(b < f, f - 1 <= l, z3.Implies(f != l, R(sel(A, f)) > rt))
            if k == 4: yield 'stop', z3.And(b < f, f < l)
            if k == 5: yield 'stop', z3.And(b < f, l < e - 1, f <= l)
        return inv
    def v(k):
        if k in (0, 4): return lambda L: L.i('last') - L.ai('begin')
        if k in (1, 2, 5): return lambda L: L.ai('end') - L.i('first')
        return lambda L: L.i('last') - L.i('first') + 1
    loops = mk(lp, v, 6)

@contract
class PdqsortLoop(B.RangeSort):
    fns = (PQ + 'pdqsort_loop',); first, last = 'begin', 'end'
    def setup(self, V, fn):
        A = V.elems('A'); f = z3.Int('begin_i'); return {'begin': V.ptr(A, f), 'end': V.ptr(A, A.hi)}
    def lm(self, c): return zb(c.eng.asbool(c.p('leftmost')))
    def pre(self, c):
        yield from super().pre(c)
        o = c.p('begin').obj; f = c.i('begin'); A = c.A(o); lm = self.lm(c)
        yield 'element-before', 'mem', Or(lm, guard(c, o, f))
        yield 'element-before-is-smallest', z3.Or(lm, z3.And(sel(A, f - 1) >= 0, lower(A, f, c.i('end'))))
        yield 'bad-partitions-allowed', 'arith', c.i('bad_allowed') >= 1
    decreases = lambda self, c: c.i('end') - c.i('begin')
    def inv(L):
        A = L.A(L.arg('begin')); f, l, b = L.ai('begin'), L.ai('end'), L.i('begin'); o = L.obj('begin')
        lm = zb(L.eng.asbool(L.v('leftmost'))); l0 = zb(L.eng.asbool(L.arg('leftmost')))
        yield 'range', z3.And(f <= b, b <= l, z3.Implies(lm, z3.And(l0, b == f)))
        yield 'end', L.i('end') == l
        yield 'live', 'own', live(A, f, l)
        yield 'bad-partitions-allowed', 'arith', z3.And(L.i('bad_allowed') >= 1, L.i('bad_allowed') <= L.ai('bad_allowed'))
        yield 'done-sorted', sorted_('plain', A, f, b)
        yield 'done-below-rest', all_le('plain', A, f, b, A, b, l)
        yield 'element-before', 'mem', Or(lm, cmpop('lt', o.lo, b))
        yield 'element-before-is-smallest', z3.Or(lm, z3.And(sel(A, b - 1) >= 0, lower(A, b, l)))
    loops = {0: Loop(inv, lambda L: L.ai('end') - L.i('begin'))}
    def eqs(eng, fr, st, cc, ret):
        A, O = cc.A(cc.p('begin')), cc.A_old(cc.p('begin')); f = fr.ctx.i('begin'); b, l = cc.i('begin'), cc.i('end'); r = zi(ret.idx)
        yield 'element-before', 'func', z3.And(sel(A, b - 1) == sel(O, b - 1), R(sel(A, b - 1)) >= R(sel(O, b)))
        yield 'still-below', 'func', FA(1, lambda i: (z3.Implies(inr(b, i, l), R(sel(A, b - 1)) <= R(sel(A, i))), [pt(A, i)]))
        yield 'still-sorted', 'func', sorted_('plain', A, f, b)
        yield 'all-below-the-element-before', 'func', FA(1, lambda i: (z3.Implies(inr(f, i, b), R(sel(A, i)) <= R(sel(A, b - 1))), [pt(A, i)])), ['still-sorted']
        yield 'equal', 'func', FA(1, lambda i: (z3.Implies(z3.And(b <= i, i <= r), R(sel(A, i)) == R(sel(A, b - 1))), [pt(A, i)]))
        yield 'done-below-the-pivot', 'func', all_le('plain', A, f, b, A, b, r + 1), ['all-below-the-element-before', 'equal']
        yield 'sorted-up-to-the-pivot', 'func', sorted_('plain', A, f, r + 1), ['still-sorted', 'done-below-the-pivot', 'equal']
    def rec(eng, fr, st, cc, ret):
        A, O = cc.A(cc.p('begin')), cc.A_old(cc.p('begin')); f, l = fr.ctx.i('begin'), fr.ctx.i('end'); b, r = cc.i('begin'), cc.i('end')
        yield 'done-below-the-rest', 'func', all_le('plain', A, f, b, A, b, l)
        yield 'left-below-pivot', 'func', FA(1, lambda i: (z3.Implies(inr(b, i, r), R(sel(A, i)) <= R(sel(A, r))), [pt(A, i)]))
        yield 'pivot-below-right', 'func', FA(1, lambda i: (z3.Implies(inr(r, i, l), R(sel(A, r)) <= R(sel(A, i))), [pt(A, i)]))
        yield 'left-sorted', 'func', sorted_('plain', A, b, r)
        yield 'done-still-sorted', 'func', sorted_('plain', A, f, b)
        yield 'done-below-pivot', 'func', FA(1, lambda i: (z3.Implies(inr(f, i, r), R(sel(A, i)) <= R(sel(A, r))), [pt(A, i)])), ['done-below-the-rest', 'left-below-pivot']
        yield 'sorted-before-the-pivot', 'func', sorted_('plain', A, f, r), ['done-still-sorted', 'done-below-the-rest', 'left-sorted']
        yield 'sorted-up-to-the-pivot', 'func', sorted_('plain', A, f, r + 1), ['sorted-before-the-pivot', 'done-below-pivot']
        yield 'new-done-below-the-rest', 'func', all_le('plain', A, f, r + 1, A, r + 1, l), ['done-below-pivot', 'pivot-below-right']
    after = {'PartitionLeft': eqs, 'PdqsortLoop': rec}

@contract
class Pdqsort(B.RangeSort):
    fns = ('cppsort::detail::pdqsort',); first, last = 'begin', 'end'
