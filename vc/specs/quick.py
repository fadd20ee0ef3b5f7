"""Contracts: introselect, quicksort, quick_mergesort and their parts."""
from spec import *
import basic as B

@contract
class Log2(Contract):
    fns = ('cppsort::detail::log2',); props = ('C19',)
    def setup(self, V, fn): return {0: V.int('n', 0)}
    def lo(self, c): return 0 if '<' in c.fn.demangled.split('(')[0] else 1   # the generic version is also called with 0
    def pre(self, c): yield 'positive', 'arith', zi(c.p(0)) >= self.lo(c)
    def result(self, c): return c.eng.fresh('log')
    def post(self, c, ret):
        yield 'logarithm', z3.And(zi(ret) >= 0, zi(ret) <= 63, (zi(ret) >= 1) == (zi(c.p(0)) >= 2))
    def cost(self, c, ret): return ()

class SelectGroup(Contract):
    """functions which only rearrange [first, first+size)"""
    props = ('C01', 'C03'); rec_group = 'introselect'; minsize = 1
    def setup(self, V, fn):
        A, g = B.range_setup(V); g['size'] = A.hi - A.lo; return g
    def n(self, c): return c.i('size') if 'size' in c.names else c.i('last') - c.i('first')
    def rng(self, c): f = c.i('first'); return f, f + self.n(c)
    def pre(self, c):
        o = c.p('first').obj; f, l = self.rng(c)
        yield 'valid-range', 'mem', z3.And(B.valid_range(c), c.i('last') == l, self.n(c) >= self.minsize)
        yield 'elements-live', 'own', live(c.A(o), f, l)
    def frame(self, c): return [('perm', c.p('first'), *self.rng(c))]
    def post(self, c, ret):
        A = c.A(c.p('first')); f, l = self.rng(c)
        yield 'elements-live', 'own', live(A, f, l)
        yield from self.more(c, ret, A, f, l)
    def more(self, c, ret, A, f, l): return ()

class Median(Contract):
    """rearranges n consecutive elements and returns the position of one of them"""
    props = ('C01', 'C03')
    def frame(self, c): f, n = self.fn_(c); return [('perm', c.p(0), f, f + n)]
    def result(self, c): return Ptr(c.p(0).obj, c.eng.fresh('med'))
    def pre(self, c):
        o = c.p(0).obj; f, n = self.fn_(c)
        yield 'in-range', 'mem', And(cmpop('ge', f, o.lo), cmpop('le', f + n, o.hi), n >= 1)
        yield from self.shape(c)
        yield 'live', 'own', live(c.A(o), f, f + n)
    def shape(self, c): return ()
    def post(self, c, ret):
        o = c.p(0).obj; f, n = self.fn_(c)
        yield 'live', 'own', live(c.A(o), f, f + n)
        yield 'result-in-range', z3.And(f <= zi(ret.idx), zi(ret.idx) < f + n)
@contract
class IterMedian5(Median):
    fns = ('cppsort::detail::iter_median_5',); props = ('C01', 'C03', 'C21')
    def setup(self, V, fn):
        A = V.elems('A'); a = z3.Int('i1'); return {'it%d' % k: V.ptr(A, a + (k - 1)) for k in range(1, 6)}
    def fn_(self, c): return c.i(0), 5
    def shape(self, c): yield 'consecutive', 'pre', z3.And(*[c.i('it%d' % k) == c.i('it1') + (k - 1) for k in range(2, 6)])
    def post(self, c, ret):
        yield from super().post(c, ret)
        A = c.A(c.p(0)); f = c.i(0); r = sel(A, zi(ret.idx)); v = [R(sel(A, f + k)) for k in range(5)]
        yield 'median', 'cost', z3.And(z3.Sum([z3.If(x <= R(r), 1, 0) for x in v]) >= 3, z3.Sum([z3.If(x >= R(r), 1, 0) for x in v]) >= 3)
@contract
class IterMedianRest(Median):
    fns = ('cppsort::detail::iter_median_rest',)
    def setup(self, V, fn):
        A = V.elems('A'); return {'first': V.ptr(A, z3.Int('first_i')), 'size': V.int('size', 1, 5)}
    def fn_(self, c): return c.i('first'), c.i('size')
    def shape(self, c): yield 'at-most-five', 'pre', c.i('size') <= 5

class Rec(SelectGroup):
    level = 0
    def decreases(self, c): return 4*c.i('size') + self.level
    def pre(self, c):
        yield from super().pre(c)
        yield 'size-below-2^31', 'arith', c.i('size') < 2**31
@contract
class MedianOfMedians(Rec):
    fns = ('cppsort::detail::median_of_medians',); level = 0
    def result(self, c): return Ptr(c.p('first').obj, c.eng.fresh('mom'))
    def more(self, c, ret, A, f, l): yield 'result-in-range', z3.And(f <= zi(ret.idx), zi(ret.idx) < l)
    def lp(L):
        A = L.A(L.arg('first')); f, n, i = L.ai('first'), L.ai('size'), L.i('i')
        yield 'index', z3.And(0 <= i, i <= L.i('rounded_size') / 5, L.i('it') == f + 5*i, L.i('medians_it') == f + i, L.i('rounded_size') <= n, 5*(L.i('rounded_size') / 5) == L.i('rounded_size'))
        yield 'live', 'own', live(A, f, f + n)
    loops = {0: Loop(lp, lambda L: L.i('rounded_size') / 5 - L.i('i'))}
@contract
class PickPivot(Rec):
    fns = ('cppsort::detail::pick_pivot',); level = 1; minsize = 10
    def result(self, c): o = c.p('first').obj; return [Ptr(o, c.eng.fresh('piv')), Ptr(o, c.eng.fresh('last1'))]
    def more(self, c, ret, A, f, l):
        yield 'result-in-range', z3.And(f <= zi(ret[0].idx), zi(ret[0].idx) < l, zi(ret[1].idx) == l - 1)
@contract
class Introselect(Rec):
    fns = ('cppsort::detail::introselect',); level = 2
    def setup(self, V, fn):
        g = super().setup(V, fn); return g
    def pre(self, c):
        yield from super().pre(c)
        yield 'position-in-range', 'pre', z3.And(c.i('nth_pos') >= 0, c.i('nth_pos') < c.i('size'))
    def result(self, c): return Ptr(c.p('first').obj, c.i('first') + c.i('nth_pos'))
    def more(self, c, ret, A, f, l):
        r = zi(ret.idx)
        yield 'result-is-nth', r == f + c.i('nth_pos')
        yield 'smaller-before', FA(1, lambda i: (z3.Implies(inr(f, i, r), R(sel(A, i)) <= R(sel(A, r))), [pt(A, i)]))
        yield 'greater-after', FA(1, lambda i: (z3.Implies(inr(r, i, l), R(sel(A, i)) >= R(sel(A, r))), [pt(A, i)]))
    def lp(L):
        A = L.A(L.arg('first')); f0, n0 = L.ai('first'), L.ai('size'); f, l, n, k = L.i('first'), L.i('last'), L.i('size'), L.i('nth_pos')
        yield 'range', z3.And(f0 <= f, f <= l, l <= f0 + n0, n == l - f, k >= 0, k < n, f + k == f0 + L.ai('nth_pos'))
        yield 'live', 'own', live(A, f0, f0 + n0)
        yield 'bad-allowed', 'arith', z3.And(L.i('bad_allowed') <= 63, L.i('bad_allowed') >= n - n0)
        yield 'smaller-before', all_le('plain', A, f0, f, A, f, l)
        yield 'greater-after', all_le('plain', A, f, l, A, l, f0 + n0)
        yield 'before-below-after', all_le('plain', A, f0, f, A, l, f0 + n0)
    loops = {0: Loop(lp, lambda L: L.i('size'))}

@contract
class Quicksort(Rec):
    fns = ('cppsort::detail::quicksort',); rec_group = 'quicksort'; minsize = 0
    def b(self, c): return c.i('bad_allowed') if 'bad_allowed' in c.names else None
    def pre(self, c):
        yield from super().pre(c)
        if self.b(c) is not None: yield 'bad-allowed', 'arith', self.b(c) >= c.i('size') - 2**31
    def decreases(self, c): return 4*c.i('size') + (0 if self.b(c) is not None else 3)
    def more(self, c, ret, A, f, l): yield 'sorted', sorted_('plain', A, f, l)

tagf = z3.Function('tag', Int, z3.BoolSort())
def tagged(A, l, h, v=True):
    return FA(1, lambda i: (z3.Implies(inr(l, i, h), tagf(sel(A, i)) if v else z3.Not(tagf(sel(A, i)))), [pt(A, i)]))
# The functions of quick_merge_sort exchange elements between the part being sorted and a part used as a buffer.
# They are verified for an arbitrary predicate (tag) on the identity of elements, true of the former and false of the
# latter: with linear ownership this makes either part a rearrangement of what it was (choose "was in that part").
@contract
class InternalHalfInplaceMerge(Contract):
    """[first1,last1) of the buffer and [first2,last2) are merged into the range which starts at result"""
    fns = ('cppsort::detail::internal_half_inplace_merge',); props = ('C01', 'C03')
    def setup(self, V, fn):
        A = V.elems('A'); a, b, x, y, r = z3.Ints('a b x y r')
        return {'first1': V.ptr(A, a), 'last1': V.ptr(A, b), 'first2': V.ptr(A, x), 'last2': V.ptr(A, y), 'result': V.ptr(A, r), 'size_left': V.int('size_left')}
    def g(self, c): return [c.p('first1').obj] + [c.i(k) for k in ('first1', 'last1', 'first2', 'last2', 'result', 'size_left')]
    def pre(self, c):
        o, a, b, x, y, r, n = self.g(c)
        yield 'valid-range', 'mem', And(cmpop('le', o.lo, r), x - r == b - a, r <= x, x <= y, y <= a, cmpop('le', b, o.hi))
        yield 'size-left', 'mem', z3.And(0 <= n, n <= b - a, n <= y - x)
        A = c.A(o)
        yield 'live', 'own', z3.And(live(A, r, y), live(A, a, b))
        yield 'sorted', z3.And(sorted_('plain', A, a, b), sorted_('plain', A, x, y))
        if c.verifying: yield 'tag', z3.And(tagged(A, r, x, False), tagged(A, x, y), tagged(A, a, b))
    def frame(self, c):
        o, a, b, x, y, r, n = self.g(c); return [('any', o, r, y), ('any', o, a, b)] if c.verifying else []
    def frame_exc(self, c):
        o, a, b, x, y, r, n = self.g(c); return [('any', o, r, y), ('any', o, a, b)]
    def effects(self, c):
        o, a, b, x, y, r, n = self.g(c); st, eng = c.st, c.eng; O = eng.arr(st, o)
        nm = eng.fresh('A', z3.ArraySort(Int, Int)); eng.assume(st, nm == O); new = eng.fresh('A', z3.ArraySort(Int, Int)); eng.setarr(st, o, new)
        c.pre_mem = dict(c.pre_mem); c.pre_mem[o.id] = {**c.pre_mem[o.id], 0: nm}
        eng.assume(st, FA(1, lambda i: (z3.Implies(z3.Not(z3.Or(inr(r, i, y), inr(a, i, b))), sel(new, i) == sel(nm, i)), [sel(new, i)])))
        p = z3.Function('p!%d' % next(eng.fresh_n), Int, Int)
        eng.assume(st, FA(1, lambda i: (z3.Implies(inr(r, i, y), z3.And(z3.Or(inr(a, p(i), b), inr(x, p(i), y)), sel(new, i) == sel(nm, p(i)))), [sel(new, i)])))
        eng.assume(st, FA(1, lambda i: (z3.Implies(inr(a, i, b), z3.And(inr(r, p(i), x), sel(new, i) == sel(nm, p(i)))), [sel(new, i)])))
    def post(self, c, ret):
        o, a, b, x, y, r, n = self.g(c); A = c.A(o)
        yield 'live', 'own', z3.And(live(A, r, y), live(A, a, b))
        yield 'sorted', sorted_('plain', A, r, y)
        if c.verifying: yield 'tag', z3.And(tagged(A, r, y), tagged(A, a, b, False))
    def lp(k):
        def inv(L):
            o, a, b, x, y, r, n = InternalHalfInplaceMerge.g(REGC(InternalHalfInplaceMerge), L.ctx); A = L.A(o)
            f1, f2, q = L.i('first1'), L.i('first2'), L.i('result')
            yield 'range', z3.And(a <= f1, f1 <= b, x <= f2, f2 <= y, r <= q, f2 - q == b - f1)
            if k == 0: yield 'size-left', z3.And(0 <= L.i('size_left'), L.i('size_left') <= b - f1, L.i('size_left') <= y - f2)
            yield 'live', 'own', z3.And(live(A, r, y), live(A, a, b))
            yield 'rest', 'own', z3.And(same_range(A, L.A0(o), f2, y), same_range(A, L.A0(o), f1, b))
            yield 'sorted', sorted_('plain', A, r, q)
            yield 'below-rest', z3.And(all_le('plain', A, r, q, A, f1, b), all_le('plain', A, r, q, A, f2, y))
            yield 'tag', z3.And(tagged(A, r, q), tagged(A, q, f2, False), tagged(A, a, f1, False))
        return inv
    loops = {0: Loop(lp(0), lambda L: L.i('size_left')), 1: Loop(lp(1), lambda L: 2*(L.ctx.i('last1') - L.i('first1')) + L.ctx.i('last2') - L.i('first2'))}

@contract
class InternalMergesort(Contract):
    fns = ('cppsort::detail::internal_mergesort',); props = ('C01', 'C03'); rec_group = 'internal_mergesort'
    def setup(self, V, fn):
        A = V.elems('A'); f, n, b = z3.Ints('f n b')
        return {'first': V.ptr(A, f), 'last': V.ptr(A, f + n), 'size': n, 'buffer': V.ptr(A, b)}
    def g(self, c): return c.p('first').obj, c.i('first'), c.i('size'), c.i('buffer')
    def decreases(self, c): return c.i('size')
    def pre(self, c):
        o, f, n, b = self.g(c); A = c.A(o)
        yield 'valid-range', 'mem', And(cmpop('le', o.lo, f), n >= 0, c.i('last') == f + n, f + n <= b, cmpop('le', b + n / 2, o.hi))
        yield 'live', 'own', z3.And(live(A, f, f + n), live(A, b, b + n / 2))
        if c.verifying: yield 'tag', z3.And(tagged(A, f, f + n), tagged(A, b, b + n / 2, False))
    def frame(self, c): o, f, n, b = self.g(c); return [('any', o, f, f + n), ('any', o, b, b + n / 2)] if c.verifying else [('perm', o, f, f + n), ('perm', o, b, b + n / 2)]
    def post(self, c, ret):
        o, f, n, b = self.g(c); A = c.A(o)
        yield 'live', 'own', z3.And(live(A, f, f + n), live(A, b, b + n / 2))
        yield 'sorted', sorted_('plain', A, f, f + n)
        if c.verifying: yield 'tag', z3.And(tagged(A, f, f + n), tagged(A, b, b + n / 2, False))
    def lp(L):
        o, f0, n, b = InternalMergesort.g(REGC(InternalMergesort), L.ctx); A = L.A(o); f, m = L.i('first'), L.i('middle')
        yield 'range', z3.And(f0 <= f, f <= m, L.i('size_left') == m - f)
        yield 'below-middle', FA(1, lambda i: (z3.Implies(inr(f0, i, f), R(sel(A, i)) <= R(sel(A, m))), [pt(A, i)]))
    loops = {0: Loop(lp, lambda L: L.i('size_left'))}

# ------------------------------------------------------------------ adaptive quickselect (random-access nth_element)
def parted(A, f, p, l):
    """[f,p) <= A[p] <= (p,l)"""
    return z3.And(FA(1, lambda i: (z3.Implies(inr(f, i, p), R(sel(A, i)) <= R(sel(A, p))), [pt(A, i)])),
                  FA(1, lambda i: (z3.Implies(z3.And(p < i, i < l), R(sel(A, i)) >= R(sel(A, p))), [pt(A, i)])))
class AQ(Contract):
    """rearranges [r, r+n) where n = self.len(c)"""
    props = ('C01', 'C03')
    ints = ('length',)
    def setup(self, V, fn):
        A = V.elems('A'); g = {'r': V.ptr(A, A.lo)}
        for k in self.ints: g[k] = V.int(k)
        return g
    def len(self, c): return c.i('length')
    def rng(self, c): f = c.i('r'); return f, f + self.len(c)
    def pre(self, c):
        o = c.p('r').obj; f, l = self.rng(c)
        yield 'in-range', 'mem', And(cmpop('le', o.lo, f), f <= l, cmpop('le', l, o.hi))
        yield from self.args(c)
        yield 'live', 'own', live(c.A(o), f, l)
        yield from self.more(c, c.A(o), f, l)
    def args(self, c): return ()
    def more(self, c, A, f, l): return ()
    def frame(self, c): return [('perm', c.p('r'), *self.rng(c))]
    def post(self, c, ret):
        A = c.A(c.p('r')); f, l = self.rng(c)
        yield 'live', 'own', live(A, f, l)
        yield from self.done(c, A, f, l, ret)
class Expand(AQ):
    """extends a partition around the element at pivot(c) to the whole range; returns the new position of that element"""
    def result(self, c): return c.eng.fresh('pivot')
    def pivot(self, c): return c.i('pivot')
    def done(self, c, A, f, l, ret):
        yield 'result-in-range', z3.And(0 <= zi(ret), zi(ret) < self.len(c))
        yield 'partitioned', parted(A, f, f + zi(ret), l)
        yield 'same-pivot', sel(A, f + zi(ret)) == sel(c.A_old(c.p('r')), f + self.pivot(c))
@contract
class ExpandPartitionLeft(Expand):
    fns = ('cppsort::detail::median_common_detail::expand_partition_left',); ints = ('lo', 'pivot')
    def len(self, c): return c.i('pivot') + 1
    def args(self, c): yield 'positions', 'mem', z3.And(c.i('lo') > 0, c.i('lo') <= c.i('pivot'))
    def more(self, c, A, f, l): yield 'partitioned', parted(A, f + c.i('lo'), f + c.i('pivot'), l)
    def lp(k):
        def inv(L):
            p = L.arg('r'); A, A0 = L.A(p), L.A0(p); r, lo, o = L.ai('r'), L.ai('lo'), L.ai('pivot'); q, x = L.i('pivot'), L.i('left'); P = R(sel(A0, r + o))
            yield 'range', z3.And(0 <= x, x <= lo, lo <= q, q <= o) if k == 0 else z3.And(0 <= x, x <= q, q <= o)
            yield 'live', 'own', live(A, r, r + o + 1)
            yield 'pivot', sel(A, r + o) == sel(A0, r + o)
            yield 'left', FA(1, lambda i: (z3.Implies(inr(r, i, r + x), R(sel(A, i)) <= P), [pt(A, i)]))
            if k == 0: yield 'middle', FA(1, lambda i: (z3.Implies(inr(r + lo, i, r + q), R(sel(A, i)) <= P), [pt(A, i)]))
            if k == 2: yield 'greater', R(sel(A, r + x)) > P
            yield 'right', FA(1, lambda i: (z3.Implies(inr(r + q, i, r + o), R(sel(A, i)) >= P), [pt(A, i)]))
        return inv
    loops = {0: Loop(lp(0), lambda L: L.ai('lo') - L.i('left')), 1: Loop(lp(1), lambda L: L.i('pivot') - L.i('left')), 2: Loop(lp(2), lambda L: L.i('pivot') - L.i('left'))}
@contract
class ExpandPartitionRight(Expand):
    fns = ('cppsort::detail::median_common_detail::expand_partition_right',); ints = ('hi', 'rite')
    def len(self, c): return c.i('rite') + 1
    def pivot(self, c): return 0
    def args(self, c): yield 'positions', 'mem', z3.And(c.i('hi') >= 0, c.i('hi') <= c.i('rite'))
    def more(self, c, A, f, l): yield 'partitioned', parted(A, f, f, f + c.i('hi') + 1)
    def lp(k):
        def inv(L):
            p = L.arg('r'); A, A0 = L.A(p), L.A0(p); r, hi, o = L.ai('r'), L.ai('hi'), L.ai('rite'); q, x = L.i('pivot'), L.i('rite'); P = R(sel(A0, r))
            yield 'range', z3.And(0 <= q, q <= hi, hi <= x, x <= o) if k == 0 else z3.And(0 <= q, q <= x + (1 if k == 1 else 0), q <= o, x <= o)
            yield 'live', 'own', live(A, r, r + o + 1)
            yield 'pivot', sel(A, r) == sel(A0, r)
            yield 'left', FA(1, lambda i: (z3.Implies(z3.And(r < i, i <= r + q), R(sel(A, i)) <= P), [pt(A, i)]))
            if k == 0: yield 'middle', FA(1, lambda i: (z3.Implies(z3.And(r + q < i, i <= r + hi), R(sel(A, i)) >= P), [pt(A, i)]))
            if k == 2: yield 'smaller', R(sel(A, r + x)) < P
            yield 'right', FA(1, lambda i: (z3.Implies(z3.And(r + x < i, r + q < i, i <= r + o), R(sel(A, i)) >= P), [pt(A, i)]))
        return inv
    loops = {0: Loop(lp(0), lambda L: L.i('rite') - L.ai('hi')), 1: Loop(lp(1), lambda L: L.i('rite') - L.i('pivot') + 1), 2: Loop(lp(2), lambda L: L.i('rite') - L.i('pivot'))}
@contract
class ExpandPartition(Expand):
    fns = ('cppsort::detail::median_common_detail::expand_partition',); ints = ('lo', 'pivot', 'hi', 'length')
    def args(self, c): yield 'positions', 'mem', z3.And(0 <= c.i('lo'), c.i('lo') <= c.i('pivot'), c.i('pivot') < c.i('hi'), c.i('hi') <= c.i('length'))
    def more(self, c, A, f, l): yield 'partitioned', parted(A, f + c.i('lo'), f + c.i('pivot'), f + c.i('hi'))
    def lp(k):
        def inv(L):
            p = L.arg('r'); A, A0 = L.A(p), L.A0(p); r, lo, q, h0, n0 = L.ai('r'), L.ai('lo'), L.ai('pivot'), L.ai('hi'), L.ai('length'); x, y, hi = L.i('left'), L.i('length'), L.i('hi'); P = R(sel(A0, r + q))
            yield 'range', z3.And(0 <= x, x <= lo, hi == h0 - 1, hi <= y, y < n0)
            yield 'live', 'own', live(A, r, r + n0)
            yield 'middle', 'own', same_range(A, A0, r + lo, r + h0)
            yield 'left', FA(1, lambda i: (z3.Implies(inr(r, i, r + x), R(sel(A, i)) <= P), [pt(A, i)]))
            if k == 2: yield 'greater', z3.And(x < lo, R(sel(A, r + x)) > P)
            yield 'right', FA(1, lambda i: (z3.Implies(z3.And(r + y < i, i < r + n0), R(sel(A, i)) >= P), [pt(A, i)]))
        return inv
    loops = {0: Loop(lp(0), lambda L: L.ai('lo') - L.i('left')), 1: Loop(lp(1), lambda L: L.ai('lo') - L.i('left')), 2: Loop(lp(2), lambda L: L.i('length') - L.ai('hi') + 1)}
@contract
class PivotPartition(AQ):
    fns = ('cppsort::detail::median_common_detail::pivot_partition',); ints = ('k', 'length')
    def args(self, c): yield 'position', 'mem', z3.And(0 <= c.i('k'), c.i('k') < c.i('length'))
    def result(self, c): return Ptr(c.p('r').obj, c.eng.fresh('pivot'))
    def done(self, c, A, f, l, ret):
        yield 'result-in-range', z3.And(f <= zi(ret.idx), zi(ret.idx) < l)
        yield 'partitioned', parted(A, f, zi(ret.idx), l)
@contract
class MedianIndex(Contract):
    fns = ('cppsort::detail::median_common_detail::median_index',); props = ('C01', 'C03', 'C21')
    def setup(self, V, fn):
        A = V.elems('A'); return {'r': V.ptr(A, z3.Int('r0')), **{k: V.int(k) for k in 'abc'}}
    def pre(self, c):
        o = c.p('r').obj; A = c.A(o); r = c.i('r')
        yield 'in-range', 'mem', And(*[And(cmpop('le', o.lo, r + c.i(k)), cmpop('lt', r + c.i(k), o.hi)) for k in 'abc'])
        yield 'live', 'own', z3.And(*[sel(A, r + c.i(k)) >= 0 for k in 'abc'])
    def result(self, c): return c.eng.fresh('median')
    def post(self, c, ret):
        A = c.A(c.p('r')); r = c.i('r'); v = [c.i(k) for k in 'abc']; m = R(sel(A, r + zi(ret)))
        yield 'one-of-them', z3.Or(*[zi(ret) == x for x in v])
        yield 'median', 'cost', z3.And(z3.Sum([z3.If(R(sel(A, r + x)) <= m, 1, 0) for x in v]) >= 2, z3.Sum([z3.If(R(sel(A, r + x)) >= m, 1, 0) for x in v]) >= 2)
class MedianOf(Expand):
    rec_group = 'adaptive_quickselect'
    def decreases(self, c): return 2*c.i('length')
    def done(self, c, A, f, l, ret):
        yield 'result-in-range', z3.And(0 <= zi(ret), zi(ret) < self.len(c))
        yield 'partitioned', parted(A, f, f + zi(ret), l)
@contract
class MedianOfMinima(MedianOf):
    fns = ('cppsort::detail::median_of_minima',); ints = ('n', 'length')
    def args(self, c): yield 'position', 'mem', z3.And(0 < c.i('n'), 6*c.i('n') <= c.i('length'))
    def lp(k):
        def inv(L):
            A = L.A(L.arg('r')); r, n = L.ai('r'), L.ai('length'); i, j, s, q = [L.i(x) for x in ('i', 'j', 'subset', 'computeMinOver')]
            yield 'live', 'own', live(A, r, r + n)
            yield 'range', z3.And(0 <= i, i <= s if k == 0 else i < s, s <= j, q >= 1, s == 2*L.ai('n'))
            if k == 0: yield 'rest', j + (s - i)*q <= n
            else:
                l = L.i('limit'); yield 'rest', z3.And(l + (s - i - 1)*q <= n, l <= n, j < l, s <= L.i('minIndex'), L.i('minIndex') <= j)
        return inv
    loops = {0: Loop(lp(0), lambda L: L.i('subset') - L.i('i')), 1: Loop(lp(1), lambda L: L.i('limit') - L.i('j'))}
@contract
class MedianOfMaxima(MedianOf):
    fns = ('cppsort::detail::median_of_maxima',); ints = ('n', 'length')
    def args(self, c): yield 'position', 'mem', z3.And(0 <= c.i('n'), c.i('n') < c.i('length'), c.i('n') >= 5*(c.i('length') - c.i('n')))
    def lp(k):
        def inv(L):
            A = L.A(L.arg('r')); r, n = L.ai('r'), L.ai('length'); i, j, s, q, t = [L.i(x) for x in ('i', 'j', 'subset', 'computeMaxOver', 'subsetStart')]
            yield 'live', 'own', live(A, r, r + n)
            yield 'range', z3.And(t <= i, i <= n if k == 0 else i < n, 0 <= j, q >= 1, s == 2*(n - L.ai('n')), t == n - s)
            if k == 0: yield 'rest', j + (n - i)*q <= t
            else:
                l = L.i('limit'); yield 'rest', z3.And(l + (n - i - 1)*q <= t, l <= t, j < l, 0 <= L.i('maxIndex'), L.i('maxIndex') <= j)
        return inv
    loops = {0: Loop(lp(0), lambda L: L.ai('length') - L.i('i')), 1: Loop(lp(1), lambda L: L.i('limit') - L.i('j'))}
@contract
class MedianOfNinthers(MedianOf):
    fns = ('cppsort::detail::median_of_ninthers',); ints = ('length',)
    def args(self, c): yield 'size', 'mem', c.i('length') >= 12
    def lp(L):
        A = L.A(L.arg('r')); r, n = L.ai('r'), L.ai('length'); i, a, b, lo, hi, f, g = [L.i(x) for x in ('i', 'a', 'b', 'lo', 'hi', 'frac', 'gap')]
        yield 'live', 'own', live(A, r, r + n)
        yield 'range', z3.And(lo <= i, i <= hi, a == lo - 4*f - g + 3*(i - lo), b == hi + g + 3*(i - lo))
    loops = {0: Loop(lp, lambda L: L.i('hi') - L.i('i'))}
@contract
class AdaptiveQuickselect(AQ):
    fns = ('cppsort::detail::adaptive_quickselect',); ints = ('n', 'length'); rec_group = 'adaptive_quickselect'
    def decreases(self, c): return 2*c.i('length') + 1
    def args(self, c): yield 'position', 'mem', z3.And(0 <= c.i('n'), c.i('n') < c.i('length'))
    def done(self, c, A, f, l, ret): yield 'partitioned', parted(A, f, f + c.i('n'), l)
    def lp(k):
        def inv(L):
            A = L.A(L.arg('r')); r0, n0, k0 = L.ai('r'), L.ai('length'), L.ai('n'); r, n, m = L.i('r'), L.i('length'), L.i('n'); l = r + n
            if k == 0: yield 'range', z3.And(r0 <= r, l <= r0 + n0, 0 <= m, m < n, r + m == r0 + k0)
            else:
                p = L.i('pivot', k - 1)
                yield 'range', z3.And(1 <= m, m <= n, 0 <= p, p < m)
                yield 'extremum', FA(1, lambda i: (z3.Implies(inr(r, i, r + m), (R(sel(A, r + p)) <= R(sel(A, i)) if k == 1 else R(sel(A, r + p)) >= R(sel(A, i)))), [pt(A, i)]))
                return
            yield 'live', 'own', live(A, r0, r0 + n0)
            yield 'before', z3.And(all_le('plain', A, r0, r, A, r, l), all_le('plain', A, r0, r, A, l, r0 + n0))
            yield 'after', all_le('plain', A, r, l, A, l, r0 + n0)
        return inv
    loops = {0: Loop(lp(0), lambda L: L.i('length')), 1: Loop(lp(1), lambda L: L.i('length') - L.i('n')), 2: Loop(lp(2), lambda L: L.i('length') - L.i('n'))}

@contract
class NthElement(SelectGroup):
    fns = ('cppsort::detail::nth_element',); rec_group = None
    def setup(self, V, fn):
        g = super().setup(V, fn)
        if 'random_access_iterator_tag,' in fn.demangled: g[3] = g.pop('size')
        return g
    def pre(self, c):
        yield from super().pre(c)
        yield 'size-below-2^31', 'arith', self.n(c) < 2**31
        yield 'position-in-range', 'pre', z3.And(c.i('nth_pos') >= 0, c.i('nth_pos') < self.n(c))
    result = Introselect.result; more = Introselect.more

@contract
class QuickMergeSort(SelectGroup):
    fns = ('cppsort::detail::quick_merge_sort',); rec_group = None; minsize = 0
    def pre(self, c):
        yield from super().pre(c)
        yield 'size-below-2^31', 'arith', c.i('size') < 2**31
    def more(self, c, ret, A, f, l): yield 'sorted', sorted_('plain', A, f, l)
    def lp(L):
        A = L.A(L.arg('first')); f0, n0 = L.ai('first'), L.ai('size'); f, n = L.i('first'), L.i('size')
        yield 'range', z3.And(f0 <= f, n >= 0, f + n == f0 + n0)
        yield 'live', 'own', live(A, f0, f0 + n0)
        yield 'sorted', sorted_('plain', A, f0, f)
        yield 'below-rest', all_le('plain', A, f0, f, A, f, f0 + n0)
    loops = {0: Loop(lp, lambda L: L.i('size'))}
