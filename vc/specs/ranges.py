"""Contracts: binary searches, is_sorted, reverse, swap_ranges, rotate, partition, range moves, min/max."""
from spec import *
from basic import range_setup, valid_range

# ------------------------------------------------------------------ binary searches
class Search(Contract):
    props = ('C01', 'C03', 'C19')
    sized = False
    def bounds(self, c):
        f = c.i('first'); return (f, f + c.i('size')) if self.sized else (f, c.i('last'))
    def setup(self, V, fn):
        A = V.elems('A'); g = {'first': V.ptr(A, A.lo), 'value': V.elem('value')}
        if self.sized: g['size'] = A.hi - A.lo
        else: g['last'] = V.ptr(A, A.hi)
        return g
    def val(self, c): return zi(c.elem(c.p('value')))
    def goes_left(self, c, x, v): return c.lt(x, v)
    def pre(self, c):
        f, l = self.bounds(c); o = c.p('first').obj
        if o.kind == 'heap': c.eng.settle(o, ('elem',))
        yield 'valid-range', 'mem', And(cmpop('le', o.lo, f), f <= l, cmpop('le', l, o.hi))
        A = c.A(o); v = self.val(c)
        yield 'live', 'own', z3.And(live(A, f, l), v >= 0)
        yield 'partitioned', FA(2, lambda i, j: (z3.Implies(z3.And(f <= i, i < j, j < l, self.goes_left(c, sel(A, j), v)), self.goes_left(c, sel(A, i), v)), [(pt(A, i), pt(A, j))]))
    def result(self, c): return Ptr(c.p('first').obj, c.eng.fresh('bound'))
    def post(self, c, ret):
        f, l = self.bounds(c); A = c.A(c.p('first')); v = self.val(c); r = zi(ret.idx)
        yield 'result-in-range', z3.And(f <= r, r <= l)
        yield 'before-result', FA(1, lambda i: (z3.Implies(inr(f, i, r), self.goes_left(c, sel(A, i), v)), [pt(A, i)]))
        yield 'from-result', FA(1, lambda i: (z3.Implies(inr(r, i, l), z3.Not(self.goes_left(c, sel(A, i), v))), [pt(A, i)]))
@contract
class LowerBoundN(Search):
    fns = ('cppsort::detail::lower_bound_n',); sized = True
    def lp(L):
        A = L.A(L.arg('first')); f0 = L.ai('first'); l0 = f0 + L.ai('size'); f, n = L.i('first'), L.i('size'); v = zi(L.elem(L.arg('value')))
        yield 'range', z3.And(f0 <= f, 0 <= n, f + n <= l0)
        yield 'before', FA(1, lambda i: (z3.Implies(inr(f0, i, f), L.lt(sel(A, i), v)), [pt(A, i)]))
        yield 'after', FA(1, lambda i: (z3.Implies(inr(f + n, i, l0), z3.Not(L.lt(sel(A, i), v))), [pt(A, i)]))
    loops = {0: Loop(lp, lambda L: L.i('size'))}
@contract
class LowerMonoboundN(Search):
    fns = ('cppsort::detail::lower_monobound_n',); sized = True
    def lp(L):
        A = L.A(L.arg('first')); f0 = L.ai('first'); l0 = f0 + L.ai('size'); f, n = L.i('first'), L.i('size'); v = zi(L.elem(L.arg('value')))
        yield 'range', z3.And(f0 <= f, 1 <= n, f + n <= l0)
        yield 'before', FA(1, lambda i: (z3.Implies(inr(f0, i, f), L.lt(sel(A, i), v)), [pt(A, i)]))
        yield 'after', FA(1, lambda i: (z3.Implies(inr(f + n, i, l0), z3.Not(L.lt(sel(A, i), v))), [pt(A, i)]))
    loops = {0: Loop(lp, lambda L: L.i('size'))}
@contract
class LowerBound(Search): fns = ('cppsort::detail::lower_bound',)
class Upper:
    def goes_left(self, c, x, v): return z3.Not(c.lt(v, x))
@contract
class UpperBoundN(Upper, Search): fns = ('cppsort::detail::upper_bound_n',); sized = True
@contract
class UpperBound(Upper, Search): fns = ('cppsort::detail::upper_bound',)
@contract
class EqualRange(Search):
    fns = ('cppsort::detail::equal_range',)
    def pre(self, c):
        for x in list(Search.pre(self, c))[:2]: yield x
        yield 'sorted', sorted_('plain', c.A(c.p('first')), c.i('first'), c.i('last'))
    def result(self, c):
        o = c.p('first').obj; return [Ptr(o, c.eng.fresh('lo')), Ptr(o, c.eng.fresh('hi'))]
    def post(self, c, ret):
        f, l = self.bounds(c); A = c.A(c.p('first')); v = self.val(c); a, b = zi(ret[0].idx), zi(ret[1].idx)
        yield 'result-in-range', z3.And(f <= a, a <= b, b <= l)
        yield 'less-before', FA(1, lambda i: (z3.Implies(inr(f, i, a), R(sel(A, i)) < R(v)), [pt(A, i)]))
        yield 'equivalent-between', FA(1, lambda i: (z3.Implies(inr(a, i, b), R(sel(A, i)) == R(v)), [pt(A, i)]))
        yield 'greater-after', FA(1, lambda i: (z3.Implies(inr(b, i, l), R(sel(A, i)) > R(v)), [pt(A, i)]))
    def lp(L):
        A = L.A(L.arg('first')); f0, l0 = L.ai('first'), L.ai('last'); f, l, n = L.i('first'), L.i('last'), L.i('len'); v = zi(L.elem(L.arg('value')))
        yield 'range', z3.And(f0 <= f, n == l - f, 0 <= n, l <= l0)
        yield 'before', FA(1, lambda i: (z3.Implies(inr(f0, i, f), R(sel(A, i)) < R(v)), [pt(A, i)]))
        yield 'after', FA(1, lambda i: (z3.Implies(inr(l, i, l0), R(sel(A, i)) > R(v)), [pt(A, i)]))
    loops = {0: Loop(lp, lambda L: L.i('len'))}

# ------------------------------------------------------------------ is_sorted
@contract
class IsSortedUntil(Contract):
    fns = ('cppsort::detail::is_sorted_until', 'cppsort::detail::is_sorted')
    props = ('C01', 'C06', 'C19')
    def setup(self, V, fn): return range_setup(V)[1]
    def isb(self, c): return basename(c.fn.demangled).endswith('::is_sorted')
    def pre(self, c):
        yield 'valid-range', 'mem', valid_range(c)
        yield 'live', 'own', live(c.A(c.p('first')), c.i('first'), c.i('last'))
    def result(self, c): return c.eng.fresh('sorted', z3.BoolSort()) if self.isb(c) else Ptr(c.p('first').obj, c.eng.fresh('until'))
    def srt(self, c, f, l):
        A = c.A(c.p('first')); return FA(2, lambda i, j: (z3.Implies(z3.And(f <= i, i <= j, j < l), z3.Not(c.lt(sel(A, j), sel(A, i)))), [(pt(A, i), pt(A, j))]))
    def post(self, c, ret):
        f, l = c.i('first'), c.i('last'); A = c.A(c.p('first'))
        if self.isb(c):
            b = zb(c.eng.asbool(ret))
            yield 'true-iff-sorted', z3.And(z3.Implies(b, self.srt(c, f, l)), z3.Implies(z3.Not(b), z3.Not(self.srt(c, f, l))))
        else:
            r = zi(ret.idx)
            yield 'result-in-range', z3.And(f <= r, r <= l, z3.Implies(f < l, f < r))
            yield 'sorted-prefix', self.srt(c, f, r)
            yield 'prefix-is-longest', z3.Implies(r < l, c.lt(sel(A, r), sel(A, r - 1)))
    def lp(L):
        A = L.A(L.arg('first')); f0, l, f, n = L.ai('first'), L.ai('last'), L.i('first'), L.i('next')
        yield 'range', z3.And(f0 <= f, n == f, n < l)
        yield 'sorted-prefix', FA(2, lambda i, j: (z3.Implies(z3.And(f0 <= i, i <= j, j < n + 1), z3.Not(L.lt(sel(A, j), sel(A, i)))), [(pt(A, i), pt(A, j))]))
    loops = {0: Loop(lp, lambda L: L.ai('last') - L.i('next'))}

# ------------------------------------------------------------------ exact rearrangements
def exact(A, O, lo, hi, src):
    """A[x] is the old element src(x)"""
    return FA(1, lambda x: (z3.Implies(inr(lo, x, hi), sel(A, x) == src(x)), [pt(A, x)]))
class Exact(Contract):
    props = ('C01', 'C02', 'C03', 'C19')
@contract
class Reverse(Exact):
    fns = ('cppsort::detail::reverse', 'cppsort::detail::reverse_impl', 'std::reverse', 'std::__reverse')
    def nm(self, c): return ('first', 'last') if 'first' in c.names else ('__first', '__last')
    def verify_here(self, fn): return True
    def setup(self, V, fn):
        A = V.elems('A'); return {0: V.ptr(A, A.lo), 1: V.ptr(A, A.hi)}
    def pre(self, c):
        a, b = c.p(0), c.p(1)
        yield 'valid-range', 'mem', valid_range(c, a, b)
        yield 'live', 'own', live(c.A(a), zi(a.idx), zi(b.idx))
    def frame(self, c): return [('perm', c.p(0), zi(c.p(0).idx), zi(c.p(1).idx))]
    def post(self, c, ret):
        f, l = c.i(0), c.i(1); A, O = c.A(c.p(0)), c.A_old(c.p(0))
        yield 'live', 'own', live(A, f, l)
        yield 'reversed', exact(A, O, f, l, lambda x: sel(O, f + l - 1 - x))
    def lp(L):
        a, b = L.arg(0), L.arg(1); A, O = L.A(a), L.A0(a); f0, l0 = zi(a.idx), zi(b.idx)
        u = '' if L.has('first') else '__'
        f, l = L.i(u + 'first'), L.i(u + 'last')
        # std::__reverse keeps last pointing at the next element to exchange
        k = 1 if basename(L.fr.fn.demangled) == 'std::__reverse' else 0
        yield 'range', z3.And(f0 <= f, f - f0 == l0 - (l + k), f <= l + 1 if k else f <= l)
        yield 'outside-reversed', FA(1, lambda x: (z3.Implies(z3.Or(inr(f0, x, f), inr(l + k, x, l0)), sel(A, x) == sel(O, f0 + l0 - 1 - x)), [pt(A, x)]))
        yield 'inside-untouched', same_range(A, O, f, l + k)
    loops = {0: Loop(lp, lambda L: L.i('last' if L.has('last') else '__last') + 1 - L.i('first' if L.has('first') else '__first') + 1)}

@contract
class SwapRanges(Exact):
    fns = ('cppsort::detail::swap_ranges_overlap', 'cppsort::detail::swap_ranges_inner', 'cppsort::detail::swap_ranges_inner_impl', 'std::swap_ranges')
    def off(self, c): return 0
    def g(self, c):
        k = self.off(c); return c.p(k), c.p(k+1), c.p(k+2)
    def setup(self, V, fn):
        A = V.elems('A'); k = 0; f, l, s = z3.Ints('f l s')
        return {k: V.ptr(A, f), k+1: V.ptr(A, l), k+2: V.ptr(A, s)}
    def pre(self, c):
        a, b, d = self.g(c); f, l, s = zi(a.idx), zi(b.idx), zi(d.idx); A = c.A(a)
        yield 'valid-range', 'mem', valid_range(c, a, b)
        if a.obj is not d.obj: yield 'same-storage', 'mem', z3.BoolVal(False)
        yield 'second-range', 'mem', And(cmpop('le', d.obj.lo, s), cmpop('le', s + (l - f), d.obj.hi))
        yield 'disjoint', 'mem', z3.Or(s >= l, s + (l - f) <= f)
        yield 'live', 'own', z3.And(live(A, f, l), live(A, s, s + (l - f)))
    def frame(self, c):
        a, b, d = self.g(c); f, l, s = zi(a.idx), zi(b.idx), zi(d.idx)
        return [('any', a, f, l), ('any', d, s, s + (l - f))] if c.verifying else []
    def effects(self, c):
        a, b, d = self.g(c); o = a.obj; st, eng = c.st, c.eng
        O = eng.arr(st, o); nm = eng.fresh('A', z3.ArraySort(Int, Int)); eng.assume(st, nm == O)
        c.aux['old'] = nm; new = eng.fresh('A', z3.ArraySort(Int, Int)); eng.setarr(st, o, new)
        f, l, s = zi(a.idx), zi(b.idx), zi(d.idx); n = l - f
        c.pre_mem = dict(c.pre_mem); c.pre_mem[o.id] = {**c.pre_mem[o.id], 0: nm}
        eng.assume(st, FA(1, lambda x: (z3.Implies(z3.Not(z3.Or(inr(f, x, l), inr(s, x, s + n))), sel(new, x) == sel(nm, x)), [sel(new, x)])))
    def result(self, c):
        a, b, d = self.g(c); return Ptr(d.obj, simp(zi(d.idx) + zi(b.idx) - zi(a.idx)))
    def post(self, c, ret):
        a, b, d = self.g(c); f, l, s = zi(a.idx), zi(b.idx), zi(d.idx); n = l - f; A, O = c.A(a), c.A_old(a)
        yield 'first-swapped', FA(1, lambda x: (z3.Implies(inr(f, x, l), sel(A, x) == sel(O, s + (x - f))), [pt(A, x)]))
        yield 'second-swapped', FA(1, lambda x: (z3.Implies(inr(s, x, s + n), sel(A, x) == sel(O, f + (x - s))), [pt(A, x)]))
        if c.verifying: yield 'returns-end', z3.And(zb(ret.obj is d.obj), zi(ret.idx) == s + n)
    def lp(L):
        a, b, d = SwapRanges.g(REGC(SwapRanges), L.ctx); f0, l0, s0 = zi(a.idx), zi(b.idx), zi(d.idx); A, O = L.A(a), L.A0(a)
        u = '' if L.has('first1') else '__'
        f, s = L.i(u + 'first1'), L.i(u + 'first2')
        yield 'range', z3.And(f0 <= f, f <= l0, s - s0 == f - f0)
        yield 'swapped-1', FA(1, lambda x: (z3.Implies(inr(f0, x, f), sel(A, x) == sel(O, s0 + (x - f0))), [pt(A, x)]))
        yield 'swapped-2', FA(1, lambda x: (z3.Implies(inr(s0, x, s), sel(A, x) == sel(O, f0 + (x - s0))), [pt(A, x)]))
        yield 'rest', FA(1, lambda x: (z3.Implies(z3.And(z3.Not(inr(f0, x, f)), z3.Not(inr(s0, x, s))), sel(A, x) == sel(O, x)), [pt(A, x)]))
    loops = {0: Loop(lp, lambda L: (L.ctx.p(1 + REGC(SwapRanges).off(L.ctx)).idx) - L.i('first1' if L.has('first1') else '__first1'))}

def rot(O, f, m, l):
    return lambda x: z3.If(x < f + (l - m), sel(O, x + (m - f)), sel(O, x - (l - m)))
@contract
class Rotate(Exact):
    fns = ('cppsort::detail::rotate_forward', 'cppsort::detail::rotate_impl', 'cppsort::detail::rotate')
    def setup(self, V, fn):
        A = V.elems('A'); return {'first': V.ptr(A, A.lo), 'middle': V.ptr(A, z3.Int('m')), 'last': V.ptr(A, A.hi)}
    def pre(self, c):
        yield 'valid-range', 'mem', valid_range(c)
        f, m, l = c.i('first'), c.i('middle'), c.i('last')
        if basename(c.fn.demangled).endswith('::rotate'): yield 'middle-in-range', 'mem', z3.And(f <= m, m <= l)
        else: yield 'middle-inside', 'mem', z3.And(f < m, m < l)
        yield 'live', 'own', live(c.A(c.p('first')), f, l)
    def frame(self, c): return [('perm', c.p('first'), c.i('first'), c.i('last'))]
    def result(self, c): return Ptr(c.p('first').obj, simp(c.i('first') + (c.i('last') - c.i('middle'))))
    def post(self, c, ret):
        f, m, l = c.i('first'), c.i('middle'), c.i('last'); A, O = c.A(c.p('first')), c.A_old(c.p('first'))
        yield 'live', 'own', live(A, f, l)
        yield 'rotated', exact(A, O, f, l, rot(O, f, m, l))
        if c.verifying: yield 'returns-new-middle', zi(ret.idx) == f + (l - m)
    def lp(k):
        def inv(L):
            a = L.arg('first'); A, O = L.A(a), L.A0(a); f0, m0, l = L.ai('first'), L.ai('middle'), L.ai('last')
            f, m, i = L.i('first'), L.i('middle'), L.i('i'); F = rot(O, f0, m0, l)
            yield 'range', z3.And(f0 <= f, f < m, m <= i, i < l)
            if k == 0: yield 'distance', i - f == m0 - f0
            yield 'placed', FA(1, lambda x: (z3.Implies(inr(f0, x, f), sel(A, x) == F(x)), [pt(A, x)]))
            yield 'right', FA(1, lambda x: (z3.Implies(inr(i, x, l), sel(A, x) == F(f + (x - i))), [pt(A, x)]))
            yield 'middle', FA(1, lambda x: (z3.Implies(inr(m, x, i), sel(A, x) == F(f + (l - i) + (x - m))), [pt(A, x)]))
            yield 'left', FA(1, lambda x: (z3.Implies(inr(f, x, m), sel(A, x) == F(l - m + x)), [pt(A, x)]))
        return inv
    loops = {0: Loop(lp(0), lambda L: L.ai('last') - L.i('first')), 1: Loop(lp(1), lambda L: L.ai('last') - L.i('first'))}

# ------------------------------------------------------------------ moving ranges (libstdc++ loops are verified, not assumed)
class MoveRange(Exact):
    back = False
    def g(self, c):
        a, b, d = c.p(0), c.p(1), c.p(2); f, l = zi(a.idx), zi(b.idx); r = zi(d.idx)
        if self.back: r = r - (l - f)
        return a, d, f, l, r
    def setup(self, V, fn):
        raise NotImplementedError
    def cases(self):
        return ('same', 'distinct')
    def pre(self, c):
        a, d, f, l, r = self.g(c)
        yield 'valid-range', 'mem', valid_range(c, a, c.p(1))
        o = d.obj
        if o.kind == 'heap': c.eng.settle(o, ('elem',))
        S, D = c.A(a), c.A(d)
        yield 'destination-range', 'mem', z3.Or(f == l, And(cmpop('le', o.lo, r), cmpop('le', r + (l - f), o.hi)))
        yield 'source-live', 'own', live(S, f, l)
        if a.obj is d.obj:
            yield 'destination-outside-source', 'own', z3.Or(f == l, (z3.Or(r > f, r + (l - f) <= f) if self.back else z3.Or(r < f, r >= l)))
            yield 'destination-moved-from', 'own', FA(1, lambda x: (z3.Implies(z3.And(inr(r, x, r + (l - f)), z3.Not(inr(f, x, l))), sel(D, x) == MOVED), [pt(D, x)]))
        else: yield 'destination-moved-from', 'own', moved(D, r, r + (l - f))
    def frame(self, c):
        a, d, f, l, r = self.g(c)
        return [('any', a, f, l), ('any', d, r, r + (l - f))] if c.verifying else []
    def effects(self, c):
        a, d, f, l, r = self.g(c); st, eng = c.st, c.eng; c.pre_mem = dict(c.pre_mem)
        for o in {a.obj, d.obj}:
            O = eng.arr(st, o); nm = eng.fresh('A', z3.ArraySort(Int, Int)); eng.assume(st, nm == O)
            eng.setarr(st, o, eng.fresh('A', z3.ArraySort(Int, Int))); c.pre_mem[o.id] = {**c.pre_mem[o.id], 0: nm}
    def result(self, c):
        a, d, f, l, r = self.g(c); return Ptr(d.obj, simp(r if self.back else r + (l - f)))
    def post(self, c, ret):
        a, d, f, l, r = self.g(c); n = l - f
        S, D, S0, D0 = c.A(a), c.A(d), c.A_old(a), c.A_old(d)
        if a.obj is d.obj:
            yield 'moved', FA(1, lambda x: (sel(D, x) == z3.If(inr(r, x, r + n), sel(S0, x - r + f), z3.If(inr(f, x, l), MOVED, sel(D0, x))), [pt(D, x)]))
        else:
            yield 'moved', FA(1, lambda x: (sel(D, x) == z3.If(inr(r, x, r + n), sel(S0, x - r + f), sel(D0, x)), [pt(D, x)]))
            yield 'source-moved-from', FA(1, lambda x: (sel(S, x) == z3.If(inr(f, x, l), MOVED, sel(S0, x)), [pt(S, x)]))
        if c.verifying: yield 'returns-end', z3.And(zb(ret.obj is d.obj), zi(ret.idx) == (r if self.back else r + n))
def move_setup(V, same, back):
    A = V.elems('A'); D = A if same else V.elems('D'); f, l, r = z3.Ints('f l r')
    return {0: V.ptr(A, f), 1: V.ptr(A, l), 2: V.ptr(D, r)}
class MoveFwd(MoveRange):
    fns = ('std::__copy_move::__copy_m', 'std::move', 'cppsort::detail::move')
    def matches(self, fn, eng): return len(fn.params) == 3
    same_obj = True
    def verify_here(self, fn): return True
    def setup(self, V, fn): return move_setup(V, self.same_obj, False)
    def lp(L):
        a, d = L.arg(0), L.arg(2); f0, l, r0 = zi(a.idx), zi(L.arg(1).idx), zi(d.idx)
        f, r, n = L.i('__first'), L.i('__result'), L.i('__n')
        S, D, S0, D0 = L.A(a), L.A(d), L.A0(a), L.A0(d)
        yield 'range', z3.And(f0 <= f, n == l - f, n >= 0, r - r0 == f - f0)
        if a.obj is d.obj:
            yield 'moved', FA(1, lambda x: (sel(D, x) == z3.If(inr(r0, x, r), sel(S0, x - r0 + f0), z3.If(inr(f0, x, f), MOVED, sel(D0, x))), [pt(D, x)]))
        else:
            yield 'moved', FA(1, lambda x: (sel(D, x) == z3.If(inr(r0, x, r), sel(S0, x - r0 + f0), sel(D0, x)), [pt(D, x)]))
            yield 'source', FA(1, lambda x: (sel(S, x) == z3.If(inr(f0, x, f), MOVED, sel(S0, x)), [pt(S, x)]))
    loops = {0: Loop(lp, lambda L: L.i('__n'))}
@contract
class MoveForward(MoveFwd): variants = ('same', 'distinct')
class MoveBwd(MoveRange):
    back = True
    fns = ('std::__copy_move_backward::__copy_move_b', 'std::move_backward', 'cppsort::detail::move_backward')
    same_obj = True
    def matches(self, fn, eng): return len(fn.params) == 3
    def setup(self, V, fn): return move_setup(V, self.same_obj, True)
    def lp(L):
        a, d = L.arg(0), L.arg(2); f0, l0, e0 = zi(a.idx), zi(L.arg(1).idx), zi(d.idx); r0 = e0 - (l0 - f0)
        l, r, n = L.i('__last'), L.i('__result'), L.i('__n')
        S, D, S0, D0 = L.A(a), L.A(d), L.A0(a), L.A0(d)
        yield 'range', z3.And(f0 <= l, l <= l0, n == l - f0, e0 - r == l0 - l)
        if a.obj is d.obj:
            yield 'moved', FA(1, lambda x: (sel(D, x) == z3.If(inr(r, x, e0), sel(S0, x - r0 + f0), z3.If(inr(l, x, l0), MOVED, sel(D0, x))), [pt(D, x)]))
        else:
            yield 'moved', FA(1, lambda x: (sel(D, x) == z3.If(inr(r, x, e0), sel(S0, x - r0 + f0), sel(D0, x)), [pt(D, x)]))
            yield 'source', FA(1, lambda x: (sel(S, x) == z3.If(inr(l, x, l0), MOVED, sel(S0, x)), [pt(S, x)]))
    loops = {0: Loop(lp, lambda L: L.i('__n'))}
@contract
class MoveBackward(MoveBwd): variants = ('same', 'distinct')

# ------------------------------------------------------------------ partition
@contract
class Partition(Contract):
    fns = ('cppsort::detail::partition', 'cppsort::detail::partition_impl')
    props = ('C01', 'C03')
    def verify_here(self, fn): return 'Pred' in fn.demangled
    def setup(self, V, fn): return range_setup(V)[1]
    def pre(self, c):
        yield 'valid-range', 'mem', valid_range(c)
        yield 'live', 'own', live(c.A(c.p('first')), c.i('first'), c.i('last'))
        self.P(c)
    def P(self, c): return closure_pred(c)
    def frame(self, c): return [('perm', c.p('first'), c.i('first'), c.i('last'))]
    def result(self, c): return Ptr(c.p('first').obj, c.eng.fresh('pp'))
    def post(self, c, ret):
        f, l = c.i('first'), c.i('last'); A = c.A(c.p('first')); A0 = c.A_old(c.p('first')); r = zi(ret.idx)
        # a first element which satisfies the predicate is never touched (the predicate may depend on it)
        yield 'first-stays', z3.Implies(z3.And(f < l, pred_before(c)(sel(A0, f))), sel(A, f) == sel(A0, f))
        P = self.P(c)
        yield 'live', 'own', live(A, f, l)
        yield 'result-in-range', z3.And(f <= r, r <= l)
        yield 'satisfy-before', FA(1, lambda i: (z3.Implies(inr(f, i, r), P(sel(A, i))), [pt(A, i)]))
        yield 'not-after', FA(1, lambda i: (z3.Implies(inr(r, i, l), z3.Not(P(sel(A, i)))), [pt(A, i)]))
    def isf(L): return 'forward_iterator_tag' in L.fr.fn.demangled
    def lp(k):
        def inv(L):
            fwd = Partition.isf(L)
            A = L.A(L.arg('first')); f0, l0, f = L.ai('first'), L.ai('last'), L.i('first'); P = pred_formula(L.ctx)
            l = L.i('last'); A0 = L.A0(L.arg('first'))
            yield 'live', 'own', live(A, f0, l0)
            yield 'first-stays', z3.Implies(z3.And(f0 < l0, P(sel(A0, f0))), z3.And(sel(A, f0) == sel(A0, f0), z3.Or(f0 < f, z3.And(f0 == f, zb(k < (1 if fwd else 2))))))
            yield 'before', FA(1, lambda i: (z3.Implies(inr(f0, i, f), P(sel(A, i))), [pt(A, i)]))
            if fwd:
                if k == 0: yield 'range', z3.And(f0 <= f, f <= l0)
                else:
                    p = L.i('p'); yield 'range', z3.And(f0 <= f, f <= p, p < l0)
                    yield 'middle', FA(1, lambda i: (z3.Implies(z3.And(f <= i, i <= p), z3.Not(P(sel(A, i)))), [pt(A, i)]))
            else:
                yield 'range', z3.And(f0 <= f, f <= l, l <= l0)
                yield 'after', FA(1, lambda i: (z3.Implies(inr(l, i, l0), z3.Not(P(sel(A, i)))), [pt(A, i)]))
                if k == 2: yield 'first-fails', z3.And(f < l, z3.Not(P(sel(A, f))))
        return inv
    def var(L):
        if Partition.isf(L): return L.ai('last') - (L.i('p') if L.init('p') and L.ordn == 1 else L.i('first'))
        return L.i('last') - L.i('first')
    loops = {0: Loop(lp(0), var), 1: Loop(lp(1), var), 2: Loop(lp(2), var)}

# ------------------------------------------------------------------ min / max
def is_first_min(A, f, l, m): return FA(1, lambda i: (z3.Implies(inr(f, i, l), z3.And(R(sel(A, m)) <= R(sel(A, i)), z3.Implies(i < m, R(sel(A, m)) < R(sel(A, i))))), [pt(A, i)]))
def is_last_max(A, f, l, m): return FA(1, lambda i: (z3.Implies(inr(f, i, l), z3.And(R(sel(A, i)) <= R(sel(A, m)), z3.Implies(i > m, R(sel(A, i)) < R(sel(A, m))))), [pt(A, i)]))
@contract
class MinMaxElement(Contract):
    fns = ('cppsort::detail::unchecked_minmax_element', 'cppsort::detail::minmax_element')
    props = ('C06', 'C14', 'C19')
    def unchecked(self, c): return 'unchecked' in basename(c.fn.demangled)
    def setup(self, V, fn): return range_setup(V, 'begin', 'end')[1]
    def pre(self, c):
        yield 'valid-range', 'mem', valid_range(c, 'begin', 'end')
        if self.unchecked(c): yield 'two-elements', 'mem', c.i('end') - c.i('begin') >= 2
        yield 'live', 'own', live(c.A(c.p('begin')), c.i('begin'), c.i('end'))
    def result(self, c):
        o = c.p('begin').obj; return [Ptr(o, c.eng.fresh('min')), Ptr(o, c.eng.fresh('max'))]
    def post(self, c, ret):
        f, l = c.i('begin'), c.i('end'); A = c.A(c.p('begin')); a, b = zi(ret[0].idx), zi(ret[1].idx)
        yield 'results-in-range', z3.Or(z3.And(f == l, a == f, b == f), z3.And(f <= a, a < l, f <= b, b < l))
        yield 'first-minimum', z3.Implies(f < l, is_first_min(A, f, l, a))
        yield 'last-maximum', z3.Implies(f < l, is_last_max(A, f, l, b))
    def lp(L):
        A = L.A(L.arg('begin')); f, l, b = L.ai('begin'), L.ai('end'), L.i('begin'); mi, ma = L.at('result', 0), L.at('result', 8)
        yield 'range', z3.And(f <= b, b < l, f <= mi, mi <= b, f <= ma, ma <= b)
        yield 'first-minimum', is_first_min(A, f, b + 1, mi)
        yield 'last-maximum', is_last_max(A, f, b + 1, ma)
    loops = {0: Loop(lp, lambda L: L.ai('end') - L.i('begin'))}
@contract
class MinMaxAndIsSorted(Contract):
    fns = ('cppsort::detail::minmax_element_and_is_sorted',)
    props = ('C14', 'C19')
    def k(self, c): return 1 if len(c.fn.params) == 5 else 0
    def setup(self, V, fn):
        g = range_setup(V)[1]
        return g
    def pre(self, c):
        yield 'valid-range', 'mem', valid_range(c)
        yield 'live', 'own', live(c.A(c.p('first')), c.i('first'), c.i('last'))
    def post(self, c, ret):
        f, l = c.i('first'), c.i('last'); A = c.A(c.p('first'))
        if not c.verifying: raise Unsupported('no call-site form')
        cells = c.st.mem[c.p(0).obj.id]
        a, b, s = zi(cells[0][1].idx), zi(cells[8][1].idx), zb(c.eng.asbool(cells[16][1]))
        yield 'results-in-range', z3.Or(z3.And(f == l, a == f, b == f), z3.And(f <= a, a < l, f <= b, b < l))
        yield 'first-minimum', z3.Implies(f < l, is_first_min(A, f, l, a))
        yield 'last-maximum', z3.Implies(f < l, is_last_max(A, f, l, b))
        yield 'sorted-flag', z3.And(z3.Implies(s, sorted_('plain', A, f, l)), z3.Implies(z3.Not(s), z3.Not(sorted_('plain', A, f, l))))
    def writes_objects(self, c): return [c.p(0)]
    def lp(L):
        A = L.A(L.arg('first')); f, l, n, u = L.ai('first'), L.ai('last'), L.i('next'), L.i('current')
        yield 'range', z3.And(f <= u, n == u + 1, n < l)
        yield 'sorted-prefix', sorted_('plain', A, f, n)
    loops = {0: Loop(lp, lambda L: L.ai('last') - L.i('next'))}
