"""Contracts: elementary sorts (insertion, selection, bubble), min_element, iter_sort3, heaps."""
from spec import *

def range_setup(V, first='first', last='last'):
    A = V.elems('A'); return A, {first: V.ptr(A, A.lo), last: V.ptr(A, A.hi)}
def valid_range(c, first='first', last='last'):
    f = c.p(first) if isinstance(first, str) else first
    l = c.p(last) if isinstance(last, str) else last
    if f.obj is not l.obj: return z3.BoolVal(False)
    o = f.obj
    if o.kind == 'heap': c.eng.settle(o, ('elem',))
    return And(cmpop('le', o.lo, f.idx), cmpop('le', f.idx, l.idx), cmpop('le', l.idx, o.hi))
class RangeSort(Contract):
    """[first,last) of live elements -> same elements, sorted (stably in stable mode)"""
    first, last = 'first', 'last'
    stable_sort = False
    props = ('C01', 'C03')
    def has_mode(self, mode): return mode == 'plain' or self.stable_sort
    def setup(self, V, fn): return range_setup(V, self.first, self.last)[1]
    def pre(self, c):
        yield 'valid-range', 'mem', valid_range(c, self.first, self.last)
        A = c.A(c.p(self.first)); lo, hi = c.i(self.first), c.i(self.last)
        yield 'elements-live', 'own', live(A, lo, hi)
        if c.mode == 'stable': yield 'ghost-order', 'stab', stable_pre(A, lo, hi)
    def frame(self, c): return [('perm', c.p(self.first), c.i(self.first), c.i(self.last))]
    def post(self, c, ret):
        A = c.A(c.p(self.first)); lo, hi = c.i(self.first), c.i(self.last)
        yield 'elements-live', 'own', live(A, lo, hi)
        yield 'sorted', 'func', sorted_(c.mode, A, lo, hi)

@contract
class InsertionSort(RangeSort):
    fns = ('cppsort::detail::insertion_sort',)
    stable_sort = True
    def outer(L):
        A = L.A(L.obj('cur')); f, c, l = L.ai('first'), L.i('cur'), L.ai('last')
        yield 'cur-range', z3.And(f < c, c <= l)
        yield 'live', 'own', live(A, f, l)
        yield 'prefix-sorted', sorted_(L.mode, A, f, c)
        if L.mode == 'stable': yield 'ghost-order', 'stab', stable_pre(A, f, l)
    def inner(L):
        A = L.A(L.obj('cur')); f, c, l, s = L.ai('first'), L.i('cur'), L.ai('last'), L.i('sift')
        t = zi(L.e('tmp')); B = Hole(A, (s, t))
        yield 'sift-range', z3.And(f < s, s <= c, L.i('sift_1') == s - 1)
        yield 'hole', 'own', z3.And(sel(A, s) == MOVED, t >= 0)
        yield 'live', 'own', live(B, f, l)
        yield 'tmp-goes-left', (R(t) < R(sel(A, s - 1)) if L.mode == 'stable' else R(t) <= R(sel(A, s - 1)))
        yield 'sorted-but-hole', FA(2, lambda i, j: (z3.Implies(z3.And(f <= i, i < j, j <= c, j != s), le(L.mode, sel(B, i), sel(B, j))), [(pt(A, i), pt(A, j))]))
        if L.mode == 'stable': yield 'ghost-order', 'stab', stable_pre(B, f, l)
    loops = {0: Loop(outer, lambda L: L.ai('last') - L.i('cur')), 1: Loop(inner, lambda L: L.i('sift'))}

@contract
class SelectionSort(RangeSort):
    fns = ('cppsort::detail::selection_sort',)
    def outer(L):
        A = L.A(L.arg('first')); f, c, l = L.ai('first'), L.i('it'), L.ai('last')
        yield 'it-range', z3.And(f <= c, c <= l)
        yield 'live', 'own', live(A, f, l)
        yield 'prefix-sorted', sorted_(L.mode, A, f, c)
        yield 'prefix-below-rest', all_le(L.mode, A, f, c, A, c, l)
    loops = {0: Loop(outer, lambda L: L.ai('last') - L.i('it'))}

@contract
class UncheckedMinElement(Contract):
    fns = ('cppsort::detail::unchecked_min_element', 'cppsort::detail::min_element')
    props = ('C01', 'C03', 'C19')
    def setup(self, V, fn):
        A, g = range_setup(V); return g
    def checked(self, c): return basename(c.fn.demangled).endswith('::min_element')
    def pre(self, c):
        yield 'valid-range', 'mem', valid_range(c)
        if not self.checked(c): yield 'non-empty', 'mem', c.i('first') < c.i('last')
        yield 'elements-live', 'own', live(c.A(c.p('first')), c.i('first'), c.i('last'))
    def result(self, c): return Ptr(c.p('first').obj, c.eng.fresh('min'))
    def post(self, c, ret):
        f, l, A = c.i('first'), c.i('last'), c.A(c.p('first')); r = zi(ret.idx)
        if self.checked(c): yield 'result-in-range', z3.Or(z3.And(f <= r, r < l), z3.And(f == l, r == l))
        else: yield 'result-in-range', z3.And(f <= r, r < l)
        yield 'result-is-first-minimum', FA(1, lambda i: (z3.Implies(inr(f, i, l), z3.And(z3.Not(c.lt(sel(A, i), sel(A, r))), z3.Implies(i < r, c.lt(sel(A, r), sel(A, i))))), [pt(A, i)]))
    def lp(L):
        A = L.A(L.arg('first')); f, c, l, m = L.ai('first'), L.i('first'), L.ai('last'), L.i('min')
        yield 'ranges', z3.And(f <= m, m <= c, c < l)
        yield 'minimum-so-far', FA(1, lambda i: (z3.Implies(z3.And(f <= i, i <= c), z3.And(z3.Not(L.lt(sel(A, i), sel(A, m))), z3.Implies(i < m, L.lt(sel(A, m), sel(A, i))))), [pt(A, i)]))
    loops = {0: Loop(lp, lambda L: L.ai('last') - L.i('first'))}

@contract
class BubbleSort(RangeSort):
    fns = ('cppsort::detail::bubble_sort',)
    stable_sort = True
    def setup(self, V, fn):
        A = V.elems('A'); V.eng.assume(V.st, z3.BoolVal(True))
        return {'first': V.ptr(A, A.lo), 'size': A.hi - A.lo}
    def rng(self, c): f = c.i('first'); return f, f + c.i('size')
    def pre(self, c):
        f, l = self.rng(c); o = c.p('first').obj
        yield 'valid-range', 'mem', And(cmpop('le', o.lo, f), f <= l, cmpop('le', l, o.hi))
        A = c.A(o)
        yield 'elements-live', 'own', live(A, f, l)
        if c.mode == 'stable': yield 'ghost-order', 'stab', stable_pre(A, f, l)
    def frame(self, c): return [('perm', c.p('first'), *self.rng(c))]
    def post(self, c, ret):
        A = c.A(c.p('first')); f, l = self.rng(c)
        yield 'elements-live', 'own', live(A, f, l)
        yield 'sorted', 'func', sorted_(c.mode, A, f, l)
    def outer(L):
        A = L.A(L.arg('first')); f = L.ai('first'); n = L.ai('size'); s = L.i('size'); l = f + n
        yield 'size-range', z3.And(1 <= s, s <= n)
        yield 'live', 'own', live(A, f, l)
        yield 'suffix-sorted', sorted_(L.mode, A, f + s, l)
        yield 'rest-below-suffix', all_le(L.mode, A, f, f + s, A, f + s, l)
        if L.mode == 'stable': yield 'ghost-order', 'stab', stable_pre(A, f, l)
    def inner(L):
        A = L.A(L.arg('first')); f = L.ai('first'); n = L.ai('size'); s = L.i('size'); l = f + n; i = L.i('i')
        yield 'index', z3.And(0 <= i, i <= s, 1 <= s, s < n, L.i('current') == f + i, L.i('next') == f + i + 1)
        yield 'live', 'own', live(A, f, l)
        yield 'current-is-largest', FA(1, lambda k: (z3.Implies(z3.And(f <= k, k < f + i), le(L.mode, sel(A, k), sel(A, f + i))), [pt(A, k)]))
        yield 'suffix-sorted', sorted_(L.mode, A, f + s + 1, l)
        yield 'rest-below-suffix', all_le(L.mode, A, f, f + s + 1, A, f + s + 1, l)
        if L.mode == 'stable': yield 'ghost-order', 'stab', stable_pre(A, f, l)
    loops = {0: Loop(outer, lambda L: L.i('size')), 1: Loop(inner, lambda L: L.i('size') - L.i('i'))}

@contract
class IterSort3(Contract):
    fns = ('cppsort::detail::iter_sort3',)
    props = ('C01', 'C03')
    def setup(self, V, fn):
        A = V.elems('A'); a, b, c = z3.Ints('ia ib ic')
        return {'a': V.ptr(A, a), 'b': V.ptr(A, b), 'c': V.ptr(A, c)}
    def pre(self, c):
        o = c.p('a').obj; A = c.A(o); ix = [c.i(x) for x in 'abc']
        yield 'in-range', 'mem', z3.And(*[And(cmpop('ge', i, o.lo), cmpop('lt', i, o.hi)) for i in ix])
        yield 'distinct', 'mem', z3.Distinct(*ix)
        yield 'live', 'own', z3.And(*[sel(A, i) >= 0 for i in ix])
    def effects(self, c):
        st, eng = c.st, c.eng; o = c.p('a').obj; A = eng.arr(st, o)
        x, y, z = [eng.fresh('s3') for _ in range(3)]; ix = [c.i(k) for k in 'abc']
        u = [sel(A, i) for i in ix]
        eng.assume(st, z3.Or(*[z3.And(x == p[0], y == p[1], z == p[2]) for p in itertools.permutations(u)]))
        N = A
        for i, v in zip(ix, (x, y, z)): N = z3.Store(N, i, v)
        eng.setarr(st, o, N)
    def result(self, c): return c.p('b')
    def frame(self, c):
        if not c.verifying: return []
        return self.frame_exc(c)
    def frame_exc(self, c): return [('perm', c.p(k), c.i(k), c.i(k) + 1) for k in 'abc']
    def post(self, c, ret):
        A = c.A(c.p('a')); a, b, d = [sel(A, c.i(k)) for k in 'abc']
        yield 'live', 'own', z3.And(a >= 0, b >= 0, d >= 0)
        yield 'ordered', z3.And(R(a) <= R(b), R(b) <= R(d))
        yield 'returns-median', z3.BoolVal(same(ret.idx, c.p('b').idx)) if c.verifying else True

# ------------------------------------------------------------------ binary heaps
def edge2(f, i, j): return z3.Or(j == 2*i - f + 1, j == 2*i - f + 2)
def edgeD(D):
    return lambda f, i, j: z3.And(D*(i - f) + 1 <= j - f, j - f <= D*(i - f) + D)
def heap(A, f, len_, frm=None, edge=edge2, but_parent=None, but_child=None):
    """every element at a parent position i >= frm is not smaller than its children"""
    frm = f if frm is None else frm
    def g(i, j):
        c = [zi(frm) <= i, i < j, j < f + len_, edge(f, i, j)]
        if but_parent is not None: c.append(i != but_parent)
        if but_child is not None: c.append(j != but_child)
        return z3.Implies(z3.And(*c), R(sel(A, j)) <= R(sel(A, i))), [(pt(A, i), pt(A, j))]
    return FA(2, g)
def grand(A, f, len_, h, frm=None, edge=edge2):
    """the parent of h is not smaller than the children of h"""
    frm = f if frm is None else frm
    def g(i, j):
        return z3.Implies(z3.And(zi(frm) <= i, i < h, edge(f, i, h), h < j, j < f + len_, edge(f, h, j)), R(sel(A, j)) <= R(sel(A, i))), [(pt(A, i), pt(A, j))]
    return FA(2, g)
def root_max(A, f, len_, but=None):
    return FA(1, lambda j: (z3.Implies(z3.And(f <= j, j < f + len_), R(sel(A, j)) <= R(sel(A, f))), [pt(A, j)]))

@contract
class SiftDown(Contract):
    fns = ('cppsort::detail::sift_down',)
    props = ('C01', 'C03')
    def setup(self, V, fn):
        A = V.elems('A'); return {0: V.ptr(A, A.lo), 1: V.ptr(A, A.hi), 'len': z3.Int('len'), 'start': V.ptr(A, z3.Int('start'))}
    def g(self, c): return c.i('first'), c.i('len'), c.i('start'), c.p('first').obj
    def pre(self, c):
        f, n, s, o = self.g(c)
        yield 'valid-range', 'mem', And(cmpop('le', o.lo, f), n >= 0, n <= MAXN, cmpop('le', f + n, o.hi), f <= s, s <= f + n)
        A = c.A(o)
        yield 'live', 'own', live(A, f, f + n)
        yield 'heap-below-start', heap(A, f, n, s + 1)
    def frame(self, c):
        f, n, s, o = self.g(c); return [('perm', c.p('first'), s, f + n)]
    def post(self, c, ret):
        f, n, s, o = self.g(c); A = c.A(o)
        yield 'live', 'own', live(A, f, f + n)
        yield 'heap-from-start', heap(A, f, n, s)
    def lp(L):
        A = L.A(L.arg('first')); f, n, s0, s, c, ci = L.ai('first'), L.ai('len'), L.ai('start'), L.i('start'), L.i('child'), L.i('child_i')
        t = zi(L.e('top')); B = Hole(A, (s, t))
        yield 'indices', z3.And(s0 <= s, c < n, ci == f + c, z3.Or(c == 2*(s - f) + 1, c == 2*(s - f) + 2))
        yield 'hole', 'own', z3.And(sel(A, s) == MOVED, t >= 0)
        yield 'live', 'own', live(B, f, f + n)
        yield 'child-not-smaller', R(t) <= R(sel(A, ci))
        yield 'child-is-largest', FA(1, lambda j: (z3.Implies(z3.And(s < j, j < f + n, edge2(f, s, j)), R(sel(A, j)) <= R(sel(A, ci))), [pt(A, j)]))
        yield 'heap-but-hole', heap(B, f, n, s0, but_parent=s)
        yield 'grandparent', grand(B, f, n, s, s0)
        yield 'frame', same_range(A, L.A0(L.arg('first')), f, s0)
    loops = {0: Loop(lp, lambda L: L.ai('len') - L.i('child'))}

@contract
class FloydSiftDown(Contract):
    fns = ('cppsort::detail::floyd_sift_down',)
    props = ('C01', 'C03')
    def setup(self, V, fn):
        A = V.elems('A'); return {'first': V.ptr(A, A.lo), 'len': z3.Int('len')}
    def pre(self, c):
        f, n, o = c.i('first'), c.i('len'), c.p('first').obj; A = c.A(o)
        yield 'valid-range', 'mem', And(cmpop('le', o.lo, f), n >= 2, cmpop('le', f + n, o.hi))
        yield 'live-but-root', 'own', z3.And(sel(A, f) == MOVED, live(A, f + 1, f + n))
        yield 'heap', heap(A, f, n, f + 1)
    def frame(self, c): return [('perm', c.p('first'), c.i('first'), c.i('first') + c.i('len'))]
    def result(self, c): return Ptr(c.p('first').obj, c.eng.fresh('hole'))
    def post(self, c, ret):
        f, n, o = c.i('first'), c.i('len'), c.p('first').obj; A = c.A(o); h = zi(ret.idx)
        yield 'hole-is-leaf', z3.And(f < h, h < f + n, 2*(h - f) + 1 >= n)
        yield 'live-but-hole', 'own', z3.And(sel(A, h) == MOVED, live(A, f, f + n, h))
        yield 'heap-but-hole', heap(A, f, n, f, but_parent=h, but_child=h)
    def lp(L):
        A = L.A(L.arg('first')); f, n, c, ci, h = L.ai('first'), L.ai('len'), L.i('child'), L.i('child_i'), L.i('hole')
        yield 'indices', z3.And(f <= h, ci == h, c == h - f, 2*c + 1 < n)
        yield 'live-but-hole', 'own', z3.And(sel(A, h) == MOVED, live(A, f, f + n, h))
        yield 'heap-but-hole', heap(A, f, n, f, but_parent=h, but_child=h)
        yield 'heap-below-hole', heap(A, f, n, h + 1)
        yield 'grandparent', grand(A, f, n, h)
    loops = {0: Loop(lp, lambda L: L.ai('len') - L.i('child'))}

@contract
class PushHeap(Contract):
    fns = ('cppsort::detail::push_heap',)
    props = ('C01', 'C03')
    def setup(self, V, fn):
        A, g = range_setup(V); g['len'] = A.hi - A.lo; return g
    def pre(self, c):
        yield 'valid-range', 'mem', valid_range(c)
        f, l = c.i('first'), c.i('last'); A = c.A(c.p('first'))
        yield 'len', 'mem', c.i('len') == l - f
        yield 'live', 'own', live(A, f, l)
        yield 'heap', heap(A, f, l - f - 1)
    def frame(self, c): return [('perm', c.p('first'), c.i('first'), c.i('last'))]
    def post(self, c, ret):
        f, l = c.i('first'), c.i('last'); A = c.A(c.p('first')); O = c.A_old(c.p('first'))
        yield 'live', 'own', live(A, f, l)
        yield 'heap', heap(A, f, l - f)
        yield 'parents-grow', FA(1, lambda i: (z3.Implies(z3.And(f <= i, i < l - 1), R(sel(A, i)) >= R(sel(O, i))), [pt(A, i)]))
    def lp(L):
        A = L.A(L.arg('first')); O = L.A0(L.arg('first')); f, l0, l, n, p = L.ai('first'), L.ai('last'), L.i('last'), L.i('len'), L.i('ptr')
        t = zi(L.e('t')); B = Hole(A, (l, t))
        yield 'indices', z3.And(f <= p, p == f + n, z3.Or(l - f == 2*n + 1, l - f == 2*n + 2), l < l0)
        yield 'hole', 'own', z3.And(sel(A, l) == MOVED, t >= 0)
        yield 'live', 'own', live(B, f, l0)
        yield 'parent-smaller', R(sel(A, p)) <= R(t)
        yield 'heap-but-hole', heap(B, f, l0 - f, f, but_child=l)
        yield 'grandparent', grand(B, f, l0 - f, l)
        yield 'untouched', same_range(A, O, f, p + 1)
        yield 'parents-grow', FA(1, lambda i: (z3.Implies(z3.And(f <= i, i < l0 - 1), R(sel(B, i)) >= R(sel(O, i))), [pt(A, i)]))
    loops = {0: Loop(lp, lambda L: L.i('len'))}

def lemma_root_max(c, A, f, n, name='heap-root-is-maximum', D=2, edge=edge2):
    """strong induction along the heap order, discharged as an obligation"""
    par = lambda j: f + (j - f - 1) / D
    induct(c.eng, c.st, name, f, f + n, lambda j: R(sel(A, j)) <= R(sel(A, f)), [lambda j: pt(A, j)], hint=lambda j: [sel(A, par(j)) == sel(A, par(j)), z3.Implies(j > f, z3.And(edge(f, par(j), j), f <= par(j), par(j) < j, R(sel(A, j)) <= R(sel(A, par(j)))))])

@contract
class PopHeap(Contract):
    fns = ('cppsort::detail::pop_heap',)
    props = ('C01', 'C03')
    def setup(self, V, fn):
        A, g = range_setup(V); g['len'] = A.hi - A.lo; return g
    def pre(self, c):
        yield 'valid-range', 'mem', valid_range(c)
        f, l = c.i('first'), c.i('last'); A = c.A(c.p('first'))
        yield 'len', 'mem', z3.And(c.i('len') == l - f, l > f)
        yield 'live', 'own', live(A, f, l)
        yield 'heap', heap(A, f, l - f)
    def derive(self, c): lemma_root_max(c, c.A(c.p('first')), c.i('first'), c.i('last') - c.i('first'))
    def frame(self, c): return [('perm', c.p('first'), c.i('first'), c.i('last'))]
    def post(self, c, ret):
        f, l = c.i('first'), c.i('last'); A = c.A(c.p('first'))
        yield 'live', 'own', live(A, f, l)
        yield 'heap', heap(A, f, l - f - 1)
        yield 'last-is-maximum', FA(1, lambda j: (z3.Implies(z3.And(f <= j, j < l), R(sel(A, j)) <= R(sel(A, l - 1))), [pt(A, j)]))

@contract
class MakeHeap(Contract):
    fns = ('cppsort::detail::make_heap',)
    props = ('C01', 'C03')
    def setup(self, V, fn): return range_setup(V)[1]
    def pre(self, c):
        yield 'valid-range', 'mem', valid_range(c)
        yield 'live', 'own', live(c.A(c.p('first')), c.i('first'), c.i('last'))
    def frame(self, c): return [('perm', c.p('first'), c.i('first'), c.i('last'))]
    def post(self, c, ret):
        f, l = c.i('first'), c.i('last'); A = c.A(c.p('first'))
        yield 'live', 'own', live(A, f, l)
        yield 'heap', heap(A, f, l - f)
    def lp(L):
        A = L.A(L.arg('first')); f, l, s = L.ai('first'), L.ai('last'), L.i('start')
        yield 'start-range', z3.And(-1 <= s, s <= (l - f - 2) / 2)
        yield 'live', 'own', live(A, f, l)
        yield 'heap-after-start', heap(A, f, l - f, f + s + 1)
    loops = {0: Loop(lp, lambda L: L.i('start') + 1)}

@contract
class SortHeap(RangeSort):
    fns = ('cppsort::detail::sort_heap',)
    def pre(self, c):
        yield from RangeSort.pre(self, c)
        yield 'heap', heap(c.A(c.p('first')), c.i('first'), c.i('last') - c.i('first'))
    def lp(L):
        A = L.A(L.arg('first')); f, l0, l, n = L.ai('first'), L.ai('last'), L.i('last'), L.i('n')
        yield 'n', z3.And(n == l - f, 0 <= n, l <= l0)
        yield 'live', 'own', live(A, f, l0)
        yield 'heap', heap(A, f, n)
        yield 'suffix-sorted', sorted_('plain', A, l, l0)
        yield 'rest-below-suffix', all_le('plain', A, f, l, A, l, l0)
    loops = {0: Loop(lp, lambda L: L.i('n'))}

@contract
class HeapSort(RangeSort):
    fns = ('cppsort::detail::heapsort', 'cppsort::detail::d_ary_heapsort')

# ------------------------------------------------------------------ d-ary heaps
def getD(fn):
    m = re.search(r'<(\d+)[,>]', fn.demangled); return int(m.group(1))
class DHeap(Contract):
    props = ('C01', 'C03')
    def D(self, c): return getD(c.fn)
@contract
class NotLeaf(DHeap):
    fns = ('cppsort::detail::not_leaf',)
    def matches(self, fn, eng): return False    # small enough to be inlined

@contract
class SiftDownD(DHeap):
    fns = ('cppsort::detail::siftdown',)
    def setup(self, V, fn):
        A, g = range_setup(V); g['it'] = V.ptr(A, z3.Int('it')); return g
    def pre(self, c):
        yield 'valid-range', 'mem', valid_range(c)
        f, l, s = c.i('first'), c.i('last'), c.i('it'); A = c.A(c.p('first'))
        yield 'it-in-range', 'mem', z3.And(f <= s, s < l)
        yield 'live', 'own', live(A, f, l)
        yield 'heap-below-start', heap(A, f, l - f, s + 1, edgeD(self.D(c)))
    def frame(self, c): return [('perm', c.p('first'), c.i('it'), c.i('last'))]
    def post(self, c, ret):
        f, l, s = c.i('first'), c.i('last'), c.i('it'); A = c.A(c.p('first'))
        yield 'live', 'own', live(A, f, l)
        yield 'heap-from-start', heap(A, f, l - f, s, edgeD(self.D(c)))
    def lp(L):
        A = L.A(L.arg('first')); f, l, s0, s = L.ai('first'), L.ai('last'), L.ai('it'), L.i('it'); e = edgeD(getD(L.fr.fn))
        yield 'it-range', z3.And(s0 <= s, s < l)
        yield 'live', 'own', live(A, f, l)
        yield 'heap-but-it', heap(A, f, l - f, s0, e, but_parent=s)
        yield 'grandparent', grand(A, f, l - f, s, s0, e)
        yield 'frame', same_range(A, L.A0(L.arg('first')), f, s0)
    loops = {0: Loop(lp, lambda L: L.ai('last') - L.i('it'))}

@contract
class SiftUpD(DHeap):
    fns = ('cppsort::detail::siftup',)
    def setup(self, V, fn):
        A = V.elems('A'); return {'first': V.ptr(A, A.lo), 'it': V.ptr(A, A.hi - 1)}
    def pre(self, c):
        f, s = c.i('first'), c.i('it'); o = c.p('first').obj; A = c.A(o)
        yield 'valid-range', 'mem', And(cmpop('le', o.lo, f), f <= s, cmpop('lt', s, o.hi))
        yield 'live', 'own', live(A, f, s + 1)
        yield 'heap', heap(A, f, s - f, f, edgeD(self.D(c)))
    def frame(self, c): return [('perm', c.p('first'), c.i('first'), c.i('it') + 1)]
    def post(self, c, ret):
        f, s = c.i('first'), c.i('it'); A = c.A(c.p('first'))
        yield 'live', 'own', live(A, f, s + 1)
        yield 'heap', heap(A, f, s + 1 - f, f, edgeD(self.D(c)))
    def lp(L):
        A = L.A(L.arg('first')); f, s0, s = L.ai('first'), L.ai('it'), L.i('it'); e = edgeD(getD(L.fr.fn)); n = s0 + 1 - f
        yield 'it-range', z3.And(f <= s, s <= s0)
        yield 'live', 'own', live(A, f, s0 + 1)
        yield 'heap-but-it', heap(A, f, n, f, e, but_child=s)
        yield 'grandparent', grand(A, f, n, s, f, e)
    loops = {0: Loop(lp, lambda L: L.i('it'))}

@contract
class PopDHeap(DHeap):
    fns = ('cppsort::detail::pop_d_ary_heap',)
    def setup(self, V, fn): return range_setup(V)[1]
    def pre(self, c):
        yield 'valid-range', 'mem', valid_range(c)
        f, l = c.i('first'), c.i('last'); A = c.A(c.p('first'))
        yield 'non-empty', 'mem', f < l
        yield 'live', 'own', live(A, f, l)
        yield 'heap', heap(A, f, l - f, f, edgeD(self.D(c)))
    def derive(self, c): lemma_root_max(c, c.A(c.p('first')), c.i('first'), c.i('last') - c.i('first'), D=self.D(c), edge=edgeD(self.D(c)))
    def frame(self, c): return [('perm', c.p('first'), c.i('first'), c.i('last'))]
    def post(self, c, ret):
        f, l = c.i('first'), c.i('last'); A = c.A(c.p('first'))
        yield 'live', 'own', live(A, f, l)
        yield 'heap', heap(A, f, l - f - 1, f, edgeD(self.D(c)))
        yield 'last-is-maximum', FA(1, lambda j: (z3.Implies(z3.And(f <= j, j < l), R(sel(A, j)) <= R(sel(A, l - 1))), [pt(A, j)]))

@contract
class MakeDHeap(DHeap):
    fns = ('cppsort::detail::make_d_ary_heap',)
    def setup(self, V, fn): return range_setup(V)[1]
    def pre(self, c):
        yield 'valid-range', 'mem', valid_range(c)
        yield 'live', 'own', live(c.A(c.p('first')), c.i('first'), c.i('last'))
    def frame(self, c): return [('perm', c.p('first'), c.i('first'), c.i('last'))]
    def post(self, c, ret):
        f, l = c.i('first'), c.i('last'); A = c.A(c.p('first'))
        yield 'live', 'own', live(A, f, l)
        yield 'heap', heap(A, f, l - f, f, edgeD(self.D(c)))
    def lp(L):
        A = L.A(L.arg('first')); f, l, s = L.ai('first'), L.ai('last'), L.i('it'); e = edgeD(getD(L.fr.fn))
        yield 'it-range', z3.And(f < s, s <= l)
        yield 'live', 'own', live(A, f, l)
        # push_d_ary_heap(first, it) adds the element at it - 1
        yield 'heap-prefix', heap(A, f, s - 1 - f, f, e)
    loops = {0: Loop(lp, lambda L: L.ai('last') - L.i('it'))}

@contract
class SortDHeap(RangeSort):
    fns = ('cppsort::detail::sort_d_ary_heap',)
    def pre(self, c):
        yield from RangeSort.pre(self, c)
        yield 'heap', heap(c.A(c.p('first')), c.i('first'), c.i('last') - c.i('first'), c.i('first'), edgeD(getD(c.fn)))
    def lp(L):
        A = L.A(L.arg('first')); f, l0, l = L.ai('first'), L.ai('last'), L.i('it'); e = edgeD(getD(L.fr.fn))
        yield 'it', z3.And(f <= l, l <= l0)
        yield 'live', 'own', live(A, f, l0)
        yield 'heap', heap(A, f, l - f, f, e)
        yield 'suffix-sorted', sorted_('plain', A, l, l0)
        yield 'rest-below-suffix', all_le('plain', A, f, l, A, l, l0)
    loops = {0: Loop(lp, lambda L: L.i('it'))}

# std::next, std::distance on forward and bidirectional iterators
def std_it(L, n):
    p = L.v(n)
    return L.st.mem[p.obj.id][p.sub][1] if isinstance(p, Ptr) and p.obj.kind == 'scalar' else p
def advance(k):
    def inv(L):
        n, n0 = L.i('__n'), L.entry.i('__n'); c, c0 = zi(std_it(L, '__i').idx), zi(std_it(L.entry, '__i').idx)
        yield 'advanced', z3.And(n >= 0, n <= n0, c + n == c0 + n0) if k == 0 else z3.And(n <= 0, n >= n0, c + n == c0 + n0)
    l = Loop(inv, lambda L: L.i('__n') if k == 0 else -L.i('__n')); l.when = lambda L: not z3.is_int_value(z3.simplify(L.i('__n')))
    return l
REG.loops('std::__advance', {0: advance(0), 1: advance(1)})
def distance(L):
    n = L.i('__n'); c, c0 = zi(std_it(L, '__first').idx), zi(std_it(L.entry, '__first').idx)
    yield 'distance', z3.And(n >= 0, n == L.entry.i('__n') + (c - c0), c <= zi(std_it(L, '__last').idx))
dl = Loop(distance, lambda L: zi(std_it(L, '__last').idx) - zi(std_it(L, '__first').idx)); dl.when = lambda L: not z3.is_int_value(z3.simplify(zi(std_it(L, '__last').idx) - zi(std_it(L, '__first').idx)))
REG.loops('std::__distance', {0: dl})
