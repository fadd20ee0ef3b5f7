"""Contracts: merging sorted ranges with whatever buffer is available (C01, C02, C03, C15, C16)."""
from spec import *
from basic import range_setup, valid_range

def multi_perm(c, regs):
    """effect: the live elements of the given ranges are rearranged among them (linear ownership); the rest is unchanged"""
    st, eng = c.st, c.eng; c.pre_mem = dict(c.pre_mem); old = {}; rng = {}
    for o, lo, hi in regs: rng.setdefault(o.id, (o, []))[1].append((zi(lo), zi(hi)))
    for oid, (o, rs) in rng.items():
        if o.kind == 'heap': eng.settle(o, ('elem',))
        O = eng.arr(st, o); nm = eng.fresh('A', z3.ArraySort(Int, Int)); eng.assume(st, nm == O); old[oid] = nm
        c.pre_mem[oid] = {**c.pre_mem.get(oid, {}), 0: nm}
    for oid, (o, rs) in rng.items():
        new = eng.fresh('A', z3.ArraySort(Int, Int)); eng.setarr(st, o, new)
        inside = lambda i, rs=rs: z3.Or(*[inr(a, i, b) for a, b in rs])
        eng.assume(st, FA(1, lambda i: (z3.Implies(z3.Not(inside(i)), sel(new, i) == sel(old[oid], i)), [sel(new, i)])))
        p = z3.Function('p!%d' % next(eng.fresh_n), Int, Int)
        eng.assume(st, FA(1, lambda i: (z3.Implies(z3.And(inside(i), sel(new, i) >= 0), z3.Or(*[z3.And(z3.Or(*[inr(a, p(i), b) for a, b in rs2]), sel(new, i) == sel(old[o2.id], p(i))) for o2, rs2 in rng.values()])), [sel(new, i)])))
def ties(A, l1, h1, B, l2, h2):
    """equivalent elements: those of the first range come first in the ghost order"""
    return FA(2, lambda i, j: (z3.Implies(z3.And(inr(l1, i, h1), inr(l2, j, h2), R(sel(A, i)) == R(sel(B, j))), ordf(sel(A, i)) < ordf(sel(B, j))), [(pt(A, i), pt(B, j))]))
def isrev(c): return 'reverse_iterator' in c.fn.demangled.split('(')[0]
def itp(c, name, pre=True):
    """pointer behind an iterator parameter, passed directly or as a reverse_iterator by reference"""
    p = c.p(name)
    if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'scalar':
        v = (c.pre_mem if pre else c.st.mem)[p.obj.id][p.sub][1]
        return v
    return p
def litp(L, name):
    p = L.v(name)
    if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'scalar': p = L.st.mem[p.obj.id][p.sub][1]
    return p
def idx(p): return zi(p.idx) if p.obj is not None else z3.IntVal(0)
def rvarg(V, name, p):
    o = Obj('scalar', name, ty=None); V.st.mem[o.id] = {0: (('ptr',), p)}; return Ptr(o)

@contract
class MergeMove(Contract):
    """[first1,last1) and [first2,last2) of two live sorted ranges are merged into [result, ...) of moved-from slots"""
    fns = ('cppsort::detail::merge_move',)
    props = ('C01', 'C03', 'C16')
    def has_mode(self, mode): return True
    variants = ('separate', 'same-input')
    def setup(self, V, fn):
        A = V.elems('A'); B = V.elems('B') if self.variant == 'separate' else A; D = V.elems('D')
        a, b, x, y, r = z3.Ints('a b x y r')
        return {'first1': V.ptr(A, a), 'last1': V.ptr(A, b), 'first2': V.ptr(B, x), 'last2': V.ptr(B, y), 'result': V.ptr(D, r)}
    def g(self, c):
        a, b, x, y, r = [c.p(k) for k in ('first1', 'last1', 'first2', 'last2', 'result')]
        return a.obj, x.obj, r.obj, zi(a.idx), zi(b.idx), zi(x.idx), zi(y.idx), zi(r.idx)
    def pre(self, c):
        oA, oB, oD, a, b, x, y, r = self.g(c)
        yield 'valid-range-1', 'mem', valid_range(c, 'first1', 'last1')
        yield 'valid-range-2', 'mem', valid_range(c, 'first2', 'last2')
        if oD.kind == 'heap': c.eng.settle(oD, ('elem',))
        if oD is oA or oD is oB: yield 'separate-result', 'mem', z3.BoolVal(False)
        if oA is oB: yield 'disjoint', 'mem', z3.Or(b <= x, y <= a)
        A, B, D = c.A(oA), c.A(oB), c.A(oD); n = (b - a) + (y - x)
        yield 'result-range', 'mem', z3.Or(n == 0, And(cmpop('le', oD.lo, r), cmpop('le', r + n, oD.hi)))
        yield 'live', 'own', z3.And(live(A, a, b), live(B, x, y))
        yield 'result-moved-from', 'own', moved(D, r, r + n)
        yield 'sorted', z3.And(sorted_(c.mode, A, a, b), sorted_(c.mode, B, x, y))
        if c.mode == 'stable': yield 'ghost-order', 'stab', ties(A, a, b, B, x, y)
    def frame(self, c):
        oA, oB, oD, a, b, x, y, r = self.g(c)
        return [('any', oA, a, b), ('any', oB, x, y), ('any', oD, r, r + (b - a) + (y - x))] if c.verifying else []
    def effects(self, c):
        oA, oB, oD, a, b, x, y, r = self.g(c); multi_perm(c, [(oA, a, b), (oB, x, y), (oD, r, r + (b - a) + (y - x))])
    def result(self, c):
        oA, oB, oD, a, b, x, y, r = self.g(c); return Ptr(oD, simp(r + (b - a) + (y - x)))
    def post(self, c, ret):
        oA, oB, oD, a, b, x, y, r = self.g(c); n = (b - a) + (y - x)
        A, B, D = c.A(oA), c.A(oB), c.A(oD)
        yield 'live', 'own', live(D, r, r + n)
        yield 'sources-moved-from', 'own', z3.And(moved(A, a, b), moved(B, x, y))
        yield 'sorted', 'func', sorted_(c.mode, D, r, r + n)
        if c.verifying: yield 'returns-end', z3.And(zb(ret.obj is oD), idx(ret) == r + n)
    def lp(L):
        oA, oB, oD, a, b, x, y, r = MergeMove.g(REGC(MergeMove), L.ctx); A, B, D = L.A(oA), L.A(oB), L.A(oD); A0, B0, D0 = L.A0(oA), L.A0(oB), L.A0(oD)
        f1, f2, q = L.i('first1'), L.i('first2'), L.i('result'); m = L.mode
        yield 'range', z3.And(a <= f1, f1 < b, x <= f2, f2 < y, q == r + (f1 - a) + (f2 - x))
        if oA is oB: yield 'sources', 'own', FA(1, lambda i: (sel(A, i) == z3.If(z3.Or(inr(a, i, f1), inr(x, i, f2)), MOVED, sel(A0, i)), [pt(A, i)]))
        else:
            yield 'source-1', 'own', FA(1, lambda i: (sel(A, i) == z3.If(inr(a, i, f1), MOVED, sel(A0, i)), [pt(A, i)]))
            yield 'source-2', 'own', FA(1, lambda i: (sel(B, i) == z3.If(inr(x, i, f2), MOVED, sel(B0, i)), [pt(B, i)]))
        yield 'result', 'own', z3.And(live(D, r, q), moved(D, q, r + (b - a) + (y - x)))
        yield 'sorted', sorted_(m, D, r, q)
        yield 'below-rest', z3.And(all_le(m, D, r, q, A, f1, b), all_le(m, D, r, q, B, f2, y))
    loops = {0: Loop(lp, lambda L: (L.ai('last1') - L.i('first1')) + (L.ai('last2') - L.i('first2')))}

@contract
class HalfInplaceMerge(Contract):
    """[first1,last1) lives in a buffer, [first2,last2) in the range, just behind the gap which starts at result
    (mirrored for reverse iterators)"""
    fns = ('cppsort::detail::half_inplace_merge',)
    props = ('C01', 'C03', 'C16')
    def has_mode(self, mode): return True
    def setup(self, V, fn):
        B = V.elems('B'); A = V.elems('A'); a, b, x, y, r, n = z3.Ints('a b x y r n')
        g = {'first1': V.ptr(B, a), 'last1': V.ptr(B, b), 'first2': V.ptr(A, x), 'last2': V.ptr(A, y), 'result': V.ptr(A, r)}
        if 'reverse_iterator' in fn.demangled: g = {k: rvarg(V, k, p) for k, p in g.items()}
        g['min_len'] = V.int('min_len'); return g
    def writes_objects(self, c): return [c.p(k) for k in ('first1', 'last1', 'first2', 'last2', 'result')] if isrev(c) else []
    def g(self, c):
        """rev, buffer, storage, remaining buffer range [a,b), remaining range [x,y), result position, gap [r0,r1)"""
        f1, l1, f2, l2, q = [itp(c, k) for k in ('first1', 'last1', 'first2', 'last2', 'result')]
        if isrev(c): return True, f1.obj, q.obj, idx(l1), idx(f1), idx(l2), idx(f2), idx(f2), idx(q)
        return False, f1.obj, q.obj, idx(f1), idx(l1), idx(f2), idx(l2), idx(q), idx(f2)
    def span(self, c):
        rev, oB, oA, a, b, x, y, g0, g1 = self.g(c); return (x, g1) if rev else (g0, y)
    def pre(self, c):
        rev, oB, oA, a, b, x, y, g0, g1 = self.g(c); n = c.i('min_len')
        if oB is None:
            yield 'no-buffer', 'mem', a == b
            yield 'nothing-to-merge', 'mem', z3.And(n == 0, g0 == g1); return
        if oB.kind == 'heap': c.eng.settle(oB, ('elem',))
        if oB is oA: yield 'separate-buffer', 'mem', z3.BoolVal(False)
        yield 'buffer-range', 'mem', z3.And(a <= b, z3.Or(a == b, And(cmpop('le', oB.lo, a), cmpop('le', b, oB.hi))))
        yield 'valid-range', 'mem', And(cmpop('le', oA.lo, x), x <= y, cmpop('le', y, oA.hi))
        yield 'gap', 'mem', And(g1 - g0 == b - a, cmpop('le', oA.lo, g0), cmpop('le', g1, oA.hi))
        yield 'min-len', 'mem', z3.And(0 <= n, n <= b - a, n <= y - x)
        A, B = c.A(oA), c.A(oB)
        yield 'live', 'own', z3.And(live(B, a, b), live(A, x, y))
        yield 'gap-moved-from', 'own', moved(A, g0, g1)
        yield 'sorted', z3.And(sorted_(c.mode, B, a, b), sorted_(c.mode, A, x, y))
        if c.mode == 'stable': yield 'ghost-order', 'stab', ties(A, x, y, B, a, b) if rev else ties(B, a, b, A, x, y)
    def frame(self, c):
        rev, oB, oA, a, b, x, y, g0, g1 = self.g(c); s, e = self.span(c)
        return ([('any', oA, s, e)] + ([('any', oB, a, b)] if oB is not None else [])) if c.verifying else []
    def frame_exc(self, c):
        rev, oB, oA, a, b, x, y, g0, g1 = self.g(c); s, e = self.span(c)
        return [('any', oA, s, e)] + ([('any', oB, a, b)] if oB is not None else [])
    def effects(self, c):
        rev, oB, oA, a, b, x, y, g0, g1 = self.g(c); s, e = self.span(c)
        if oB is not None: multi_perm(c, [(oB, a, b), (oA, s, e)])
    def post(self, c, ret):
        rev, oB, oA, a, b, x, y, g0, g1 = self.g(c); s, e = self.span(c); A = c.A(oA)
        yield 'live', 'own', live(A, s, e)
        if oB is not None: yield 'buffer-moved-from', 'own', moved(c.A(oB), a, b)
        yield 'sorted', 'func', sorted_(c.mode, A, s, e)
    def lp(k):
        def inv(L):
            rev, oB, oA, a, b, x, y, g0, g1 = HalfInplaceMerge.g(REGC(HalfInplaceMerge), L.ctx); A, B, A0, B0 = L.A(oA), L.A(oB), L.A0(oA), L.A0(oB); m = L.mode
            f1, f2, q = [idx(litp(L, n)) for n in ('first1', 'first2', 'result')]; n = L.i('min_len')
            s = z3.And
            if rev:
                yield 'range', s(a <= f1, f1 <= b, x <= f2, f2 <= y, q <= g1, f2 <= q, q - f2 == f1 - a, (g1 - q) == (b - f1) + (y - f2))
                if k == 0: yield 'min-len', z3.And(0 <= n, n <= f1 - a, n <= f2 - x)
                else: yield 'not-exhausted', z3.And(f1 > a, f2 > x)
                yield 'buffer', 'own', FA(1, lambda i: (sel(B, i) == z3.If(inr(f1, i, b), MOVED, sel(B0, i)), [pt(B, i)]))
                yield 'range-rest', 'own', z3.And(same_range(A, A0, x, f2), moved(A, f2, q), live(A, q, g1))
                yield 'sorted', sorted_(m, A, q, g1)
                yield 'above-rest', z3.And(all_le(m, B, a, f1, A, q, g1), all_le(m, A, x, f2, A, q, g1))
            else:
                yield 'range', s(a <= f1, f1 <= b, x <= f2, f2 <= y, g0 <= q, q <= f2, f2 - q == b - f1, (q - g0) == (f1 - a) + (f2 - x))
                if k == 0: yield 'min-len', z3.And(0 <= n, n <= b - f1, n <= y - f2)
                else: yield 'not-exhausted', z3.And(f1 < b, f2 < y)
                yield 'buffer', 'own', FA(1, lambda i: (sel(B, i) == z3.If(inr(a, i, f1), MOVED, sel(B0, i)), [pt(B, i)]))
                yield 'range-rest', 'own', z3.And(same_range(A, A0, f2, y), moved(A, q, f2), live(A, g0, q))
                yield 'sorted', sorted_(m, A, g0, q)
                yield 'below-rest', z3.And(all_le(m, A, g0, q, B, f1, b), all_le(m, A, g0, q, A, f2, y))
        return inv
    def var(L):
        rev, oB, oA, a, b, x, y, g0, g1 = HalfInplaceMerge.g(REGC(HalfInplaceMerge), L.ctx)
        f1, f2 = [idx(litp(L, n)) for n in ('first1', 'first2')]
        return (f1 - a) + (f2 - x) if rev else (b - f1) + (y - f2)
    loops = {0: Loop(lp(0), lambda L: L.i('min_len')), 1: Loop(lp(1), var)}

from ranges import MoveRange, Exact
@contract
class MoveReversed(MoveRange):
    """std::move over reverse iterators (libstdc++ loop)"""
    fns = ('std::__copy_move::__copy_m',); back = True
    props = ('C01', 'C02', 'C03', 'C16')
    def matches(self, fn, eng): return len(fn.params) == 4 and 'reverse_iterator<Elem*>' in fn.demangled
    def setup(self, V, fn):
        A = V.elems('A'); D = V.elems('D'); f, l, r = z3.Ints('f l r')
        s = Obj('scalar', 'sret', ty=None); V.st.mem[s.id] = {}
        return {0: Ptr(s), 1: rvarg(V, 'f', V.ptr(A, f)), 2: rvarg(V, 'l', V.ptr(A, l)), 3: rvarg(V, 'r', V.ptr(D, r))}
    def writes_objects(self, c): return [c.p(k) for k in range(4)]
    def g(self, c):
        f, l, r = [itp(c, k) for k in (1, 2, 3)]
        return l, r, idx(l), idx(f), idx(r) - (idx(f) - idx(l))
    def pre(self, c):
        a, d, f, l, r = self.g(c); o = d.obj
        if a.obj is None: yield 'empty', 'mem', f == l; return
        if a.obj is d.obj: yield 'separate', 'mem', z3.BoolVal(False)
        yield 'valid-range', 'mem', And(cmpop('le', a.obj.lo, f), f <= l, cmpop('le', l, a.obj.hi))
        if o.kind == 'heap': c.eng.settle(o, ('elem',))
        S, D = c.A(a), c.A(d)
        yield 'destination-range', 'mem', z3.Or(f == l, And(cmpop('le', o.lo, r), cmpop('le', r + (l - f), o.hi)))
        yield 'source-live', 'own', live(S, f, l)
        yield 'destination-moved-from', 'own', moved(D, r, r + (l - f))
    def result(self, c):
        a, d, f, l, r = self.g(c); c.eng.store(c.st, c.p(0), ('ptr',), Ptr(d.obj, simp(r))); return None
    def post(self, c, ret):
        for x in MoveRange.post(self, c, Ptr(self.g(c)[1].obj, self.g(c)[4])):
            if x[0] != 'returns-end': yield x
        if c.verifying:
            a, d, f, l, r = self.g(c); q = c.st.mem[c.p(0).obj.id][0][1]
            yield 'returns-end', z3.And(zb(q.obj is d.obj), idx(q) == r)
    def lp(L):
        self = REGC(MoveReversed); a, d, l0, f0, rr0 = self.g(L.ctx); r0 = rr0 + (f0 - l0)
        f, r, n = idx(litp(L, '__first')), idx(litp(L, '__result')), L.i('__n')
        S, D, S0, D0 = L.A(a), L.A(d), L.A0(a), L.A0(d)
        yield 'range', z3.And(f <= f0, n == f - l0, n >= 0, r0 - r == f0 - f)
        yield 'moved', FA(1, lambda x: (sel(D, x) == z3.If(inr(r, x, r0), sel(S0, x - r0 + f0), sel(D0, x)), [pt(D, x)]))
        yield 'source', FA(1, lambda x: (sel(S, x) == z3.If(inr(f, x, f0), MOVED, sel(S0, x)), [pt(S, x)]))
    loops = {0: Loop(lp, lambda L: L.i('__n'))}

def rawpre(c, p, n, name='buffer'):
    """storage for n elements at p, nothing constructed there (no storage at all when n is 0)"""
    if p.obj is None:
        yield name + '-null-only-if-unused', 'mem', n <= 0; return
    o = p.obj
    if o.kind == 'heap': c.eng.settle(o, ('elem',))
    yield name + '-range', 'mem', z3.Or(n <= 0, And(cmpop('le', o.lo, idx(p)), cmpop('le', idx(p) + n, o.hi)))
    yield name + '-unconstructed', 'own', raw(c.A(o), idx(p), idx(p) + n)
def constructed(A, lo, hi): return nonraw(A, lo, hi)
@contract
class DestroyN(Contract):
    fns = ('cppsort::detail::destroy_n',)
    props = ('C03', 'C15', 'C16'); nothrow = True
    variants = ('normal', 'unwinding')
    def matches(self, fn, eng): return 'Elem*' in fn.demangled
    def setup(self, V, fn):
        if self.variant == 'unwinding': V.st.ghost['unw'] = True
        A = V.elems('A'); return {'first': V.ptr(A, z3.Int('f')), 'n': V.int('n')}
    def nn(self, c): return c.i('n')
    def pre(self, c):
        p, n = c.p('first'), self.nn(c)
        if p.obj is None: yield 'empty', 'mem', n == 0; return
        yield 'size', 'mem', z3.And(0 <= n)
        yield 'range', 'mem', z3.Or(n == 0, And(cmpop('le', p.obj.lo, idx(p)), cmpop('le', idx(p) + n, p.obj.hi)))
        A = c.A(p); f = idx(p)
        if c.st.ghost.get('unw'): yield 'constructed', 'own', nonraw(A, f, f + n)
        else: yield 'moved-from', 'own', moved(A, f, f + n)
    def frame(self, c): return [('any', c.p('first'), idx(c.p('first')), idx(c.p('first')) + self.nn(c))] if c.p('first').obj is not None else []
    def post(self, c, ret):
        p = c.p('first')
        if p.obj is not None: yield 'destroyed', 'own', raw(c.A(p), idx(p), idx(p) + self.nn(c))
    def lp(L):
        p = L.arg('first'); f = idx(p); A, O = L.A(p), L.A0(p); n0, n, q = L.ai('n'), L.i('n'), L.i('first')
        yield 'range', z3.And(0 <= n, n <= n0, q - f == n0 - n)
        yield 'destroyed', 'own', z3.And(raw(A, f, q), same_range(A, O, q, f + n0))
    loops = {0: Loop(lp, lambda L: L.i('n'))}
@contract
class UninitializedMove(Contract):
    """moves [first,last) into raw storage, counting in `destroyer` what has been constructed"""
    fns = ('cppsort::detail::uninitialized_move', 'cppsort::detail::uninitialized_move_impl')
    props = ('C01', 'C03', 'C16')
    def pp(self, c): return [c.p(k) for k in ('first', 'last', 'result', 'destroyer')]
    def matches(self, fn, eng): return 'Elem*, Elem>' in fn.demangled
    def has_mode(self, mode): return mode == 'plain'
    def setup(self, V, fn):
        A = V.elems('A'); D = V.elems('D'); s = Obj('scalar', 'destroyer', ty=None); V.st.mem[s.id] = {0: (('int', 64), z3.IntVal(0))}
        V.st.mem[s.id] = {0: (('int', 64), 0)}
        return {'first': V.ptr(A, z3.Int('f')), 'last': V.ptr(A, z3.Int('l')), 'result': V.ptr(D, z3.Int('r')), 'destroyer': Ptr(s)}
    def cnt(self, c, pre=False):
        s = c.p('destroyer'); return zi(c.eng.num((c.pre_mem if pre else c.st.mem)[s.obj.id][s.sub][1]))
    def pre(self, c):
        a, b, d, s = self.pp(c)
        if a.obj is d.obj: yield 'separate', 'mem', z3.BoolVal(False)
        yield 'valid-range', 'mem', valid_range(c, 'first', 'last')
        n = idx(b) - idx(a)
        yield 'live', 'own', live(c.A(a), idx(a), idx(b))
        for x in rawpre(c, d, n, 'destination'): yield x
        yield 'nothing-constructed-yet', 'own', self.cnt(c, True) == 0
    def writes_objects(self, c): return [c.p('destroyer')]
    def frame(self, c):
        a, b, d, s = self.pp(c); n = idx(b) - idx(a)
        return [('any', a, idx(a), idx(b))] + ([('any', d, idx(d), idx(d) + n)] if d.obj is not None else [])
    def effects(self, c):
        s = c.p('destroyer'); a, b, d, _ = self.pp(c)
        c.eng.store(c.st, s, ('int', 64), simp(idx(b) - idx(a)))
    def result(self, c):
        a, b, d, s = self.pp(c); return d if d.obj is None else Ptr(d.obj, simp(idx(d) + idx(b) - idx(a)))
    def post(self, c, ret):
        a, b, d, s = self.pp(c); f, l, r = idx(a), idx(b), idx(d); n = l - f; S, S0 = c.A(a), c.A_old(a)
        yield 'source-moved-from', 'own', moved(S, f, l)
        if d.obj is not None: yield 'moved', FA(1, lambda x: (z3.Implies(inr(r, x, r + n), sel(c.A(d), x) == sel(S0, x - r + f)), [pt(c.A(d), x)]))
        yield 'count', 'own', self.cnt(c) == n
        if c.verifying: yield 'returns-end', z3.And(zb(ret.obj is d.obj), idx(ret) == r + n)
    # by an exception: the count says what is constructed
    def apply_exc(self, c):
        a, b, d, s = self.pp(c); eng, st = c.eng, c.st; f, l, r = idx(a), idx(b), idx(d); k = eng.fresh_int(st, 'built')
        eng.assume(st, z3.And(0 <= k, k < l - f)); eng.store(st, s, ('int', 64), k)
        for p, lo, hi in ((a, f, l), (d, r, r + (l - f))):
            if p.obj is None: continue
            old = eng.arr(st, p.obj); new = eng.fresh('X', AS_); eng.setarr(st, p.obj, new)
            eng.assume(st, FA(1, lambda i: (z3.Implies(z3.Or(i < lo, i >= hi), sel(new, i) == sel(old, i)), [sel(new, i)])))
            if p is a: eng.assume(st, nonraw(new, lo, hi))
            else: eng.assume(st, z3.And(nonraw(new, r, r + k), raw(new, r + k, hi)))
    def post_exc(self, c):
        a, b, d, s = self.pp(c); f, l, r = idx(a), idx(b), idx(d); k = self.cnt(c)
        yield 'source-still-constructed', 'exc', nonraw(c.A(a), f, l)
        yield 'count-says-what-is-constructed', 'exc', z3.And(0 <= k, k < l - f, nonraw(c.A(d), r, r + k), raw(c.A(d), r + k, r + (l - f)))
    def lp(L):
        self = REGC(UninitializedMove); a, b, d, s = self.pp(L.ctx); f, l, r = idx(a), idx(b), idx(d); S, D, S0, D0 = L.A(a), L.A(d), L.A0(a), L.A0(d)
        q, o = L.i('first'), L.i('result'); k = zi(L.eng.num(L.st.mem[s.obj.id][s.sub][1]))
        yield 'range', z3.And(f <= q, q <= l, o - r == q - f, k == q - f)
        yield 'source', 'own', FA(1, lambda x: (sel(S, x) == z3.If(inr(f, x, q), MOVED, sel(S0, x)), [pt(S, x)]))
        yield 'moved', 'own', FA(1, lambda x: (sel(D, x) == z3.If(inr(r, x, o), sel(S0, x - r + f), sel(D0, x)), [pt(D, x)]))
    loops = {0: Loop(lp, lambda L: L.ai('last') - L.i('first'))}
AS_ = z3.ArraySort(Int, Int)

class Merging(Contract):
    """two adjacent sorted ranges -> one sorted range, whatever the buffer; the buffer is left unconstructed"""
    props = ('C01', 'C03', 'C16')
    def has_mode(self, mode): return True
    variants = ('buffer', 'no-buffer')
    def mbuf(self, V):
        if self.variant == 'no-buffer': return NULL
        B = V.elems('B'); return V.ptr(B, z3.Int('b'))
    def g(self, c): raise NotImplementedError      # storage, first, middle, last, buffer pointer, elements of buffer usable
    def pre(self, c):
        o, f, m, l, b, n = self.g(c)
        if o is None: yield 'no-range', 'mem', z3.BoolVal(False); return
        yield 'valid-range', 'mem', And(cmpop('le', o.lo, f), f <= m, m <= l, cmpop('le', l, o.hi))
        A = c.A(o)
        yield 'live', 'own', live(A, f, l)
        yield 'halves-sorted', z3.And(sorted_(c.mode, A, f, m), sorted_(c.mode, A, m, l))
        if c.mode == 'stable': yield 'ghost-order', 'stab', ties(A, f, m, A, m, l)
        if b.obj is o: yield 'separate-buffer', 'mem', z3.BoolVal(False)
        for x in rawpre(c, b, n): yield x
        for x in self.pre2(c): yield x
    def pre2(self, c): return ()
    def frame(self, c):
        o, f, m, l, b, n = self.g(c); return [('perm', o, f, l)] + ([('any', b, idx(b), idx(b) + n)] if b.obj is not None else [])
    def post(self, c, ret):
        o, f, m, l, b, n = self.g(c); A = c.A(o)
        yield 'live', 'own', live(A, f, l)
        yield 'sorted', 'func', sorted_(c.mode, A, f, l)
        if b.obj is not None: yield 'buffer-unconstructed', 'own', raw(c.A(b), idx(b), idx(b) + n)
@contract
class BufferedInplaceMerge(Merging):
    fns = ('cppsort::detail::buffered_inplace_merge',)
    def setup(self, V, fn):
        A = V.elems('A'); f, m, l = z3.Ints('f m l')
        return {'first': V.ptr(A, f), 'middle': V.ptr(A, m), 'last': V.ptr(A, l), 'len1': m - f, 'len2': l - m, 'buff': self.mbuf(V)}
    def g(self, c):
        f, m, l = c.i('first'), c.i('middle'), c.i('last'); a, b = c.i('len1'), c.i('len2')
        return c.p('first').obj, f, m, l, c.p('buff'), z3.If(a <= b, a, b)
    def pre2(self, c): yield 'lengths', 'mem', z3.And(c.i('len1') == c.i('middle') - c.i('first'), c.i('len2') == c.i('last') - c.i('middle'))

@contract
class RecmergeBidirectional(Merging):
    fns = ('cppsort::detail::recmerge',)
    def matches(self, fn, eng): return 'bidirectional_iterator_tag' in fn.demangled
    def setup(self, V, fn):
        A = V.elems('A'); f, m, l = z3.Ints('f m l'); b = self.mbuf(V)
        return {'first': V.ptr(A, f), 'middle': V.ptr(A, m), 'last': V.ptr(A, l), 'len1': m - f, 'len2': l - m, 'buff': b, 'buff_size': 0 if b.obj is None else V.int('n', 0)}
    def g(self, c): return c.p('first').obj, c.i('first'), c.i('middle'), c.i('last'), c.p('buff'), c.i('buff_size')
    def pre2(self, c): yield 'lengths', 'mem', z3.And(c.i('len1') == c.i('middle') - c.i('first'), c.i('len2') == c.i('last') - c.i('middle'), c.i('buff_size') >= 0)
    def decreases(self, c): return simp(c.i('len1') + c.i('len2'))
    def lp(k):
        def inv(L):
            self = REGC(RecmergeBidirectional); o, f0, m0, l0, b, n = self.g(L.ctx); A = L.A(o)
            f, m, l, n1, n2 = L.i('first'), L.i('middle'), L.i('last'), L.i('len1'), L.i('len2')
            yield 'range', z3.And(f0 <= f, f <= m, m <= l, l <= l0, n1 == m - f, n2 == l - m)
            if k: yield 'right-not-empty', z3.And(n2 > 0, n2 > n, l == L.entry.i('last'), m == L.entry.i('middle'))
            yield 'live', 'own', live(A, f0, l0)
            yield 'halves-sorted', z3.And(sorted_(L.mode, A, f, m), sorted_(L.mode, A, m, l))
            yield 'placed-outside', z3.And(sorted_(L.mode, A, f0, f), sorted_(L.mode, A, l, l0), all_le(L.mode, A, f0, f, A, f, l0), all_le(L.mode, A, f0, l, A, l, l0))
            if L.mode == 'stable': yield 'ghost-order', 'stab', ties(A, f, m, A, m, l)
            if b.obj is not None: yield 'buffer-unconstructed', 'own', raw(L.A(b), idx(b), idx(b) + n)
        return inv
    loops = {0: Loop(lp(0), lambda L: L.i('len1') + L.i('len2')), 1: Loop(lp(1), lambda L: L.i('len1'))}
    def cut(eng, fr, st, cc, ret):
        """around the rotation: four sorted pieces, everything left of the new middle before everything right of it"""
        L = LoopCtx(eng, fr, st, 0, None); o = cc.p('first').obj; A = L.A(o); md = L.mode
        f, l, m1, m2 = L.i('first'), L.i('last'), cc.i('first'), cc.i('last'); mid = m1 + (m2 - cc.i('middle'))
        for x in cut_facts(md, A, f, m1, mid, m2, l): yield x
        self = REGC(RecmergeBidirectional); _, f0, m0, l0, b, n = self.g(fr.ctx)
        yield 'outside', 'func', z3.And(all_le(md, A, f0, f, A, f, l0), all_le(md, A, f0, l, A, l, l0))
    def rec(eng, fr, st, cc, ret):
        L = LoopCtx(eng, fr, st, 0, None); o = cc.p('first').obj; A = L.A(o); md = L.mode
        f, l = L.i('first'), L.i('last'); a, b = cc.i('first'), cc.i('last'); mid = z3.If(a == f, b, a)
        self = REGC(RecmergeBidirectional); _, f0, m0, l0, _, n = self.g(fr.ctx)
        yield 'pieces-in-order', 'func', z3.And(all_le(md, A, f, mid, A, mid, l))
        yield 'outside', 'func', z3.And(all_le(md, A, f0, f, A, f, l0), all_le(md, A, f0, l, A, l, l0))
    after = {'Rotate': cut, 'RecmergeBidirectional': rec}
def cut_facts(md, A, f, m1, mid, m2, l):
    yield 'pieces-sorted', 'func', z3.And(sorted_(md, A, f, m1), sorted_(md, A, m1, mid), sorted_(md, A, mid, m2), sorted_(md, A, m2, l))
    yield 'first-before-third', 'func', all_le(md, A, f, m1, A, mid, m2)
    yield 'second-before-last', 'func', all_le(md, A, m1, mid, A, m2, l)
    yield 'second-before-third', 'func', all_le('plain', A, m1, mid, A, mid, m2)
    yield 'first-before-last', 'func', all_le('plain', A, f, m1, A, m2, l)
    if md == 'stable':
        yield 'ties', 'stab', z3.And(ties(A, f, m1, A, m1, mid), ties(A, f, m1, A, m2, l), ties(A, mid, m2, A, m2, l))
        yield 'second-before-third', 'func', all_le(md, A, m1, mid, A, mid, m2)
        yield 'first-before-last', 'func', all_le(md, A, f, m1, A, m2, l)
    yield 'pieces-in-order', 'func', all_le(md, A, f, mid, A, mid, l)
@contract
class RecmergeForward(Merging):
    fns = ('cppsort::detail::recmerge',)
    def matches(self, fn, eng): return 'bidirectional_iterator_tag' not in fn.demangled
    def setup(self, V, fn):
        A = V.elems('A'); f, m, l = z3.Ints('f m l'); b = self.mbuf(V)
        return {'f0': V.ptr(A, f), 'f1': V.ptr(A, m), 'n0': m - f, 'n1': l - m, 'buffer': b, 'buff_size': 0 if b.obj is None else V.int('n', 0)}
    def g(self, c): return c.p('f0').obj, c.i('f0'), c.i('f1'), simp(c.i('f1') + c.i('n1')), c.p('buffer'), c.i('buff_size')
    def pre2(self, c): yield 'lengths', 'mem', z3.And(c.i('n0') == c.i('f1') - c.i('f0'), c.i('n1') >= 0, c.i('buff_size') >= 0)
    def decreases(self, c): return simp(c.i('n0') + c.i('n1'))
    def cut(eng, fr, st, cc, ret):
        self = REGC(RecmergeForward); o, f, m, l, b, n = self.g(fr.ctx); A = eng.arr(st, o); md = eng.mode; m1, m2 = cc.i('first'), cc.i('last'); mid = m1 + (m2 - cc.i('middle'))
        for x in cut_facts(md, A, f, m1, mid, m2, l): yield x
        if 'step_0' in fr.fn.demangled: yield 'pivot', 'func', z3.And(m1 < cc.i('middle'), all_le(md, A, mid, mid + 1, A, mid + 1, m2), all_le(md, A, mid, mid + 1, A, m2, l), all_le(md, A, f, mid, A, mid, l), all_le(md, A, f, mid + 1, A, mid + 1, l))
        else: yield 'pivot', 'func', z3.And(m2 > cc.i('middle'), all_le(md, A, m1, mid - 1, A, mid - 1, mid), all_le(md, A, f, m1, A, mid - 1, mid), all_le(md, A, f, mid, A, mid, l), all_le(md, A, f, mid - 1, A, mid - 1, l))
    def rec(eng, fr, st, cc, ret):
        self = REGC(RecmergeForward); o, f, m, l, b, n = self.g(fr.ctx); A = eng.arr(st, o); md = eng.mode
        lo = cc.i('f0'); hi = simp(cc.i('f1') + cc.i('n1'))
        # the call leaves [lo,hi) between the rest: [f,lo) before it, [hi,l) behind it
        yield 'call-range', 'func', z3.Or(lo == f, hi == l)
        yield 'left-in-order', 'func', all_le(md, A, f, lo, A, lo, l)
        yield 'right-in-order', 'func', all_le(md, A, f, hi, A, hi, l)
        yield 'sorted-so-far', 'func', z3.Implies(lo != f, sorted_(md, A, f, lo))
        yield 'sorted-so-far', 'func', z3.Implies(lo != f, sorted_(md, A, f, hi))
    after = {'Rotate': cut, 'RecmergeForward': rec}
@contract
class Symmerge(Merging):
    fns = ('cppsort::detail::symmerge',)
    def setup(self, V, fn):
        A = V.elems('A'); z, f, m, l = z3.Ints('z f m l'); b = self.mbuf(V)
        return {'arr': V.ptr(A, z), 'first': f, 'middle': m, 'last': l, 'len1': m - f, 'len2': l - m, 'buff': b, 'buff_size': 0 if b.obj is None else V.int('n', 0)}
    def g(self, c):
        z = c.i('arr'); return c.p('arr').obj, simp(z + c.i('first')), simp(z + c.i('middle')), simp(z + c.i('last')), c.p('buff'), c.i('buff_size')
    def pre2(self, c): yield 'lengths', 'mem', z3.And(c.i('first') >= 0, c.i('arr') >= zi(c.p('arr').obj.lo), c.i('arr') + c.i('last') <= zi(c.p('arr').obj.hi), c.i('last') <= MAXN, c.i('len1') == c.i('middle') - c.i('first'), c.i('len2') == c.i('last') - c.i('middle'), c.i('buff_size') >= 0)
    def decreases(self, c): return simp(c.i('len1') + c.i('len2'))
    def lp(L):
        self = REGC(Symmerge); o, f0, m0, l0, b, n = self.g(L.ctx); A = L.A(o); z = L.ai('arr')
        f, m, l, n1, n2 = z + L.i('first'), z + L.i('middle'), z + L.i('last'), L.i('len1'), L.i('len2')
        yield 'range', z3.And(f0 <= f, f <= m, m <= l, l == l0, n1 == m - f, n2 == l - m)
        yield 'live', 'own', live(A, f0, l0)
        yield 'halves-sorted', z3.And(sorted_(L.mode, A, f, m), sorted_(L.mode, A, m, l))
        yield 'placed-outside', z3.And(sorted_(L.mode, A, f0, f), all_le(L.mode, A, f0, f, A, f, l0))
        if L.mode == 'stable': yield 'ghost-order', 'stab', ties(A, f, m, A, m, l)
        if b.obj is not None: yield 'buffer-unconstructed', 'own', raw(L.A(b), idx(b), idx(b) + n)
    loops = {0: Loop(lp, lambda L: L.i('len1') + L.i('len2'))}
    def bs(eng, fr, st, cc, ret):
        L = LoopCtx(eng, fr, st, 0, None); self = REGC(Symmerge); o, f0, m0, l0, b, n = self.g(fr.ctx); A = eng.arr(st, o); z = L.ai('arr')
        f, mid, l = z + L.i('first'), z + L.i('middle'), z + L.i('last'); s = z + zi(eng.num(ret)); e = z + L.i('n') - zi(eng.num(ret))
        yield 'cut-range', 'mem', z3.And(f <= s, s <= mid, mid <= e, e <= l, s + (e - mid) == z + L.i('m'))
        yield 'left-before-right', 'func', z3.And(z3.Implies(z3.And(s > f, e < l), R(sel(A, s - 1)) <= R(sel(A, e))), z3.Implies(z3.And(s < mid, e > mid), R(sel(A, e - 1)) < R(sel(A, s))))
    def cut(eng, fr, st, cc, ret):
        L = LoopCtx(eng, fr, st, 0, None); self = REGC(Symmerge); o, f0, m0, l0, b, n = self.g(fr.ctx); A = eng.arr(st, o); md = eng.mode; z = L.ai('arr')
        m1, m2 = cc.i('first'), cc.i('last'); mid = m1 + (m2 - cc.i('middle')); f = z + L.i('first')
        for x in cut_facts(md, A, f, m1, mid, m2, l0): yield x
        yield 'outside', 'func', all_le(md, A, f0, f, A, f, l0)
    def rec(eng, fr, st, cc, ret):
        self = REGC(Symmerge); o, f0, m0, l0, b, n = self.g(fr.ctx); A = eng.arr(st, o); md = eng.mode; z = cc.i('arr'); f, mid = z + cc.i('first'), z + cc.i('last')
        yield 'pieces-in-order', 'func', all_le(md, A, f, mid, A, mid, l0)
        yield 'outside', 'func', all_le(md, A, f0, f, A, f, l0)
    after = {'SymmergeBsearch': bs, 'Rotate': cut, 'Symmerge': rec}
@contract
class SymmergeBsearch(Contract):
    """the least k in [l,r] from which arr[p-k] is before arr[k]"""
    fns = ('cppsort::detail::symmerge_bsearch',)
    props = ('C01', 'C03', 'C16')
    def setup(self, V, fn):
        A = V.elems('A'); z, l, r, p = z3.Ints('z l r p'); return {'arr': V.ptr(A, z), 'l': l, 'r': r, 'p': p}
    def pre(self, c):
        z, l, r, p = [c.i(k) for k in ('arr', 'l', 'r', 'p')]; o = c.p('arr').obj; A = c.A(o)
        yield 'bounded', 'mem', z3.And(0 <= l, r <= MAXN, -1 <= p, p <= 2*MAXN)
        yield 'range', 'mem', z3.And(l <= r, zi(o.lo) <= z + l, z + r <= zi(o.hi), zi(o.lo) <= z + p - r + 1, z + p - l < zi(o.hi))
        yield 'live', 'own', z3.And(live(A, z + l, z + r), live(A, z + p - r + 1, z + p - l + 1))
        yield 'sorted', z3.And(sorted_('plain', A, z + l, z + r), sorted_('plain', A, z + p - r + 1, z + p - l + 1))
    def result(self, c): return c.eng.fresh('cut')
    def post(self, c, ret):
        z, l, r, p = [c.i(k) for k in ('arr', 'l', 'r', 'p')]; A = c.A(c.p('arr')); k = zi(c.eng.num(ret))
        yield 'result-in-range', z3.And(l <= k, k <= r)
        yield 'not-before-cut', z3.Implies(k > l, z3.Not(c.lt(sel(A, z + p - (k - 1)), sel(A, z + k - 1))))
        yield 'from-cut', z3.Implies(k < r, c.lt(sel(A, z + p - k), sel(A, z + k)))
    def lp(L):
        z, l0, r0, p = [L.ai(k) for k in ('arr', 'l', 'r', 'p')]; A = L.A(L.arg('arr')); l, r = L.i('l'), L.i('r')
        yield 'range', z3.And(l0 <= l, l <= r, r <= r0)
        yield 'not-before-cut', z3.Implies(l > l0, z3.Not(L.lt(sel(A, z + p - (l - 1)), sel(A, z + l - 1))))
        yield 'from-cut', z3.Implies(r < r0, L.lt(sel(A, z + p - r), sel(A, z + r)))
    loops = {0: Loop(lp, lambda L: L.i('r') - L.i('l'))}


# ------------------------------------------------------------------ temporary buffers
@contract
class GetTemporaryBuffer(Contract):
    """no storage (null, 0), or fresh unconstructed storage for n elements with min_count < n <= count"""
    fns = ('cppsort::detail::get_temporary_buffer',)
    props = ('C03', 'C15', 'C16'); nothrow = True
    def matches(self, fn, eng): return '<Elem>' in fn.demangled.split('(')[0]
    def setup(self, V, fn): return {'count': V.int('count'), 'min_count': V.int('min_count')}
    def pre(self, c): yield 'min-count', c.i('min_count') >= 0
    def apply(self, c):
        st = c.st; s0 = st.fork(); n = c.eng.fresh_int(st, 'buffer_size', 64)
        c.eng.assume(st, z3.And(c.i('min_count') < n, n <= c.i('count'), n <= (2**63-1)//8))
        o = new_block(c.eng, st, Scl(8, n), 'buffer'); c.eng.settle(o, ('elem',))
        return [(st, [Ptr(o, 0), n]), (s0, [NULL, 0])]
    def post(self, c, ret):
        p, n = ret[0], zi(c.eng.num(ret[1]))
        if p.obj is None: yield 'no-storage', n == 0; return
        o = p.obj; yield 'size', z3.And(c.i('min_count') < n, n <= c.i('count'))
        yield 'fresh-storage', 'own', z3.And(zb(o in heap_of(c.st) and p.sub == 0), zi(p.idx) == 0, zi(bytes_(o.size)) == 8*n)
        if o.kind == 'region': yield 'unconstructed', 'own', raw(c.A(o), o.lo, o.hi)
    def owned(self, c, ret): return [] if ret is EXC or ret[0].obj is None else [ret[0].obj]
    def lp(L):
        yield 'count', L.i('count') <= L.ai('count')
        yield 'size-limit', L.i('count') <= (2**63-1)//8
    loops = {0: Loop(lp, lambda L: L.i('count'))}
class Buf:
    """a temporary_buffer object: null and 0, or the start of a block of its own with room for `size` elements, unconstructed"""
    @staticmethod
    def fields(st, p):
        m = st.mem[p.obj.id]; return m[p.sub][1], m[p.sub + 8][1]
    @staticmethod
    def ok(c, p, st=None):
        st = st or c.st; q, n = Buf.fields(st, p)
        if q.obj is None: return zi(c.eng.num(n)) == 0
        o = q.obj; n = zi(c.eng.num(n))
        if o not in heap_of(st): return z3.BoolVal(False)
        c.eng.settle(o, ('elem',))
        return z3.And(zi(q.idx) == 0, n > 0, zi(o.hi) == n, raw(c.eng.arr(st, o), 0, n))
    @staticmethod
    def block(c, p):
        q, n = Buf.fields(c.st, p); return [q.obj] if q.obj is not None else []
    @staticmethod
    def put(c, st, p, kind):
        """give the object at p a state: null, or fresh storage"""
        if kind == 'null': c.eng.store(st, p, ('ptr',), NULL); c.eng.store(st, Ptr(p.obj, p.idx, p.sub + 8), ('int', 64), 0); return
        n = c.eng.fresh_int(st, 'bufsize', 64); c.eng.assume(st, z3.And(n > 0, n <= (2**63-1)//8))
        o = new_block(c.eng, st, Scl(8, n), 'buffer'); c.eng.settle(o, ('elem',))
        c.eng.store(st, p, ('ptr',), Ptr(o, 0)); c.eng.store(st, Ptr(p.obj, p.idx, p.sub + 8), ('int', 64), n)
    @staticmethod
    def drop(c, st, p):
        q, n = Buf.fields(st, p)
        if q.obj is not None: st.mem.pop(q.obj.id); st.ghost['heap'] = heap_of(st) - {q.obj}
    @staticmethod
    def make(V, name, kind):
        s = Obj('scalar', name, ty=None); V.st.mem[s.id] = {}; p = Ptr(s)
        class C: pass
        c = C(); c.eng = V.eng; Buf.put(c, V.st, p, kind); return p
class BufferedSort(Contract):
    """sorts with a temporary_buffer handed in by reference; the returned object takes over the storage"""
    stable_sort = True; props = ('C01', 'C02', 'C03', 'C16')
    def has_mode(self, mode): return True
    variants = ('storage', 'no-storage')
    def buf(self, c): return c.p('buffer')
    def sret(self, c): return c.av[0]
    def setup(self, V, fn):
        A = V.elems('A'); f, l = z3.Ints('f l'); r = Obj('scalar', 'sret', ty=None); V.st.mem[r.id] = {}
        g = {0: Ptr(r), 'first': V.ptr(A, f), 'size': simp(l - f), 'buffer': Buf.make(V, 'buffer', 'fresh' if self.variant == 'storage' else 'null')}
        if any(n.startswith('last') for t, n, a in fn.params): g['last'] = V.ptr(A, l)
        return g
    def writes_objects(self, c): return [c.av[0], self.buf(c)]
    def rng(self, c): return c.p('first').obj, c.i('first'), simp(c.i('first') + c.i('size'))
    def pre(self, c):
        o, f, l = self.rng(c)
        yield 'valid-range', 'mem', And(cmpop('le', o.lo, f), c.i('size') >= 0, cmpop('le', l, o.hi))
        if 'last' in c.names: yield 'size', 'mem', c.i('last') == l
        A = c.A(o)
        yield 'elements-live', 'own', live(A, f, l)
        yield 'buffer', 'own', Buf.ok(c, self.buf(c))
        if c.mode == 'stable': yield 'ghost-order', 'stab', stable_pre(A, f, l)
    def frame(self, c):
        o, f, l = self.rng(c); q = Buf.fields_pre(c, self.buf(c)) if c.verifying else None
        return [('perm', o, f, l)] + ([('any', q, q.lo, q.hi)] if q is not None else [])
    def apply(self, c):
        st = c.st; Buf.drop(c, st, self.buf(c))
        Buf.put(c, st, self.buf(c), 'null')
        Contract.apply(self, c)
        s2 = st.fork(); Buf.put(c, st, self.sret(c), 'null'); Buf.put(c, s2, self.sret(c), 'fresh')
        return [(st, None), (s2, None)]
    def apply_exc(self, c):
        st = c.st; Buf.drop(c, st, self.buf(c)); Contract.apply_exc(self, c)
        Buf.put(c, st, self.buf(c), 'fresh')    # (no storage: a special case of what the clean-up does with storage)
    def post(self, c, ret):
        o, f, l = self.rng(c); A = c.A(o)
        yield 'elements-live', 'own', live(A, f, l)
        yield 'sorted', 'func', sorted_(c.mode, A, f, l)
        if c.verifying:
            q, n = Buf.fields(c.st, self.buf(c)); yield 'buffer-handed-over', 'own', z3.And(zb(q.obj is None), zi(c.eng.num(n)) == 0)
            yield 'result-buffer', 'own', Buf.ok(c, self.sret(c))
    def post_exc(self, c):
        for x in Contract.post_exc(self, c): yield x
        yield 'buffer', 'exc', Buf.ok(c, self.buf(c))
    def owned(self, c, ret): return Buf.block(c, self.buf(c) if ret is EXC else self.sret(c))
    def decreases(self, c): return c.i('size')
def _fields_pre(c, p):
    m = c.pre_mem[p.obj.id]; return m[p.sub][1].obj
Buf.fields_pre = staticmethod(_fields_pre)
@contract
class MergeSortImpl(BufferedSort):
    fns = ('cppsort::detail::merge_sort_impl',)
    def lp(L):
        A = L.A(L.arg('first')); f0, f, m, s = L.ai('first'), L.i('first'), L.i('middle'), L.i('size_left')
        yield 'range', z3.And(f0 <= f, f <= m, s == m - f)
        yield 'left-below', z3.And(all_le(L.mode, A, f0, f, A, f, L.ai('first') + L.ai('size')), sorted_(L.mode, A, f0, f))
    loops = {0: Loop(lp, lambda L: L.i('size_left'))}

class SizedSort(Contract):
    """[first, first+size) sorted, with storage of its own"""
    props = ('C01', 'C02', 'C03', 'C16')
    def has_mode(self, mode): return True
    def setup(self, V, fn):
        A = V.elems('A'); f, l = z3.Ints('f l'); g = {0: V.ptr(A, f), 1: V.ptr(A, l), 'size': simp(l - f)}
        return g
    def rng(self, c): return c.p('first').obj, c.i('first'), simp(c.i('first') + c.i('size'))
    def pre(self, c):
        o, f, l = self.rng(c)
        yield 'valid-range', 'mem', And(cmpop('le', o.lo, f), c.i('size') >= 0, cmpop('le', l, o.hi))
        yield 'size', 'mem', c.i(1) == l
        A = c.A(o)
        yield 'elements-live', 'own', live(A, f, l)
        if c.mode == 'stable': yield 'ghost-order', 'stab', stable_pre(A, f, l)
    def frame(self, c): return [('perm',) + self.rng(c)]
    def post(self, c, ret):
        o, f, l = self.rng(c); A = c.A(o)
        yield 'elements-live', 'own', live(A, f, l)
        yield 'sorted', 'func', sorted_(c.mode, A, f, l)
@contract
class MergeSort(SizedSort):
    fns = ('cppsort::detail::merge_sort',)

class MergeHalves(Contract):
    """inplace_merge: two adjacent sorted ranges -> one sorted range"""
    props = ('C01', 'C03', 'C16')
    def has_mode(self, mode): return True
    def setup(self, V, fn):
        A = V.elems('A'); f, m, l = z3.Ints('f m l'); g = {'first': V.ptr(A, f), 'middle': V.ptr(A, m), 'last': V.ptr(A, l)}
        names = [re.sub(r'\.coerce$', '', n) for t, n, a in fn.params]
        if 'len1' in names: g.update(len1=simp(m - f), len2=simp(l - m))
        if 'buff' in names:
            b = self.mbuf(V); g['buff'] = b; g['buff_size'] = 0 if b.obj is None else V.int('n', 0)
        return g
    def g(self, c):
        b, n = (c.p('buff'), c.i('buff_size')) if 'buff' in c.names else (NULL, z3.IntVal(0))
        return c.p('first').obj, c.i('first'), c.i('middle'), c.i('last'), b, n
    def pre(self, c):
        for x in Merging.pre(self, c): yield x
    def pre2(self, c):
        if 'len1' in c.names: yield 'lengths', 'mem', z3.And(c.i('len1') == c.i('middle') - c.i('first'), c.i('len2') == c.i('last') - c.i('middle'))
        if not ('len1' in c.names or 'buff' in c.names): yield 'right-half-not-empty', 'mem', z3.Or(c.i('first') == c.i('middle'), c.i('middle') < c.i('last'))
        if 'buff' in c.names: yield 'buffer-size', 'mem', c.i('buff_size') >= 0
    frame = Merging.frame; post = Merging.post; mbuf = Merging.mbuf
@contract
class InplaceMergeBuffered(MergeHalves):
    fns = ('cppsort::detail::inplace_merge',)
    variants = ('buffer', 'no-buffer')
    def matches(self, fn, eng): return any(n.startswith('buff') for t, n, a in fn.params)
@contract
class InplaceMerge(MergeHalves):
    fns = ('cppsort::detail::inplace_merge',)
    def matches(self, fn, eng): return not any(n.startswith('buff') for t, n, a in fn.params)
    def lp(L):
        f0, f, m, l = L.ai('first'), L.i('first'), L.i('middle'), L.i('last'); A = L.A(L.arg('first'))
        yield 'range', z3.And(f0 <= f, f <= m)
        yield 'left-below', z3.And(all_le(L.mode, A, f0, f, A, f, l), sorted_(L.mode, A, f0, f))
    loops = {0: Loop(lp, lambda L: L.i('middle') - L.i('first'))}

# ------------------------------------------------------------------ stable partition
def split_at(c, A, lo, cut, hi, pf):
    return z3.And(allv(A, lo, cut, pf), allv(A, cut, hi, lambda x: z3.Not(pf(x))))
def order_kept(mode, A, lo, hi):
    """stable mode: within each class, ascending ghost order"""
    return FA(2, lambda i, j: (z3.Implies(z3.And(zi(lo) <= i, i < j, j < zi(hi), predf(sel(A, i)) == predf(sel(A, j))), ordf(sel(A, i)) < ordf(sel(A, j))), [(pt(A, i), pt(A, j))]))
def ord_asc(A, lo, hi):
    return FA(2, lambda i, j: (z3.Implies(z3.And(zi(lo) <= i, i < j, j < zi(hi)), ordf(sel(A, i)) < ordf(sel(A, j))), [(pt(A, i), pt(A, j))]))
@contract
class StablePartition(Contract):
    fns = ('cppsort::detail::stable_partition',)
    props = ('C01', 'C02', 'C03', 'C16', 'C19')
    def has_mode(self, mode): return True
    def matches(self, fn, eng): return 'temporary_buffer' not in fn.demangled
    def setup(self, V, fn):
        A = V.elems('A'); f, l = z3.Ints('f l'); return {'first': V.ptr(A, f), 'last': V.ptr(A, l), 'size': simp(l - f)}
    def rng(self, c): return c.p('first').obj, c.i('first'), c.i('last')
    def pre(self, c):
        o, f, l = self.rng(c)
        yield 'valid-range', 'mem', And(cmpop('le', o.lo, f), f <= l, cmpop('le', l, o.hi))
        yield 'size', 'mem', c.i('size') == l - f
        A = c.A(o); yield 'elements-live', 'own', live(A, f, l)
        if c.mode == 'stable': yield 'ghost-order', 'stab', ord_asc(A, f, l)
    def frame(self, c): return [('perm',) + self.rng(c)]
    def result(self, c): return Ptr(c.p('first').obj, c.eng.fresh('cut'))
    def post(self, c, ret):
        o, f, l = self.rng(c); A = c.A(o); r = idx(ret)
        yield 'elements-live', 'own', live(A, f, l)
        yield 'partitioned', z3.And(f <= r, r <= l, split_at(c, A, f, r, l, pred_formula(c)))
        if c.mode == 'stable': yield 'order-kept', 'stab', z3.And(ord_asc(A, f, r), ord_asc(A, r, l))
    def l0(L):
        A = L.A(L.arg('first')); f0, f, l, s = L.ai('first'), L.i('first'), L.ai('last'), L.i('size')
        yield 'range', z3.And(f0 <= f, f <= l, s == l - f, L.i('last') == l)
        yield 'trues', allv(A, f0, f, lambda x: predf(x))
    def l1(L):
        A = L.A(L.arg('first')); f0, f, l0, l, s = L.ai('first'), L.i('first'), L.ai('last'), L.i('last'), L.i('size')
        yield 'range', z3.And(f0 <= f, f < l, l <= l0, s == l - f)
        yield 'falses', allv(A, l, l0, lambda x: z3.Not(predf(x)))
    loops = {0: Loop(l0, lambda L: L.i('size')), 1: Loop(l1, lambda L: L.i('size'))}
@contract
class StablePartitionImpl(Contract):
    """[first,last] with *first known to be false and *last known to be true"""
    fns = ('cppsort::detail::stable_partition',)
    props = ('C01', 'C02', 'C03', 'C16', 'C19')
    def has_mode(self, mode): return True
    variants = ('storage', 'no-storage')
    def matches(self, fn, eng): return 'temporary_buffer' in fn.demangled
    def setup(self, V, fn):
        A = V.elems('A'); f, l = z3.Ints('f l')
        return {'first': V.ptr(A, f), 'last': V.ptr(A, l), 'len': simp(l - f + 1), 'buffer': Buf.make(V, 'buffer', 'fresh' if self.variant == 'storage' else 'null')}
    def rng(self, c): return c.p('first').obj, c.i('first'), simp(c.i('last') + 1)
    def pre(self, c):
        o, f, l = self.rng(c)
        yield 'valid-range', 'mem', And(cmpop('le', o.lo, f), l - f >= 2, cmpop('le', l, o.hi))
        yield 'size', 'mem', c.i('len') == l - f
        A = c.A(o); yield 'elements-live', 'own', live(A, f, l)
        yield 'first-false-last-true', z3.And(z3.Not(predf(sel(A, f))), predf(sel(A, l - 1)))
        yield 'buffer', 'own', Buf.ok(c, c.p('buffer'))
        if c.mode == 'stable': yield 'ghost-order', 'stab', ord_asc(A, f, l)
    def frame(self, c):
        q = Buf.fields_pre(c, c.p('buffer')); return [('perm',) + self.rng(c)] + ([('any', q, q.lo, q.hi)] if q is not None else [])
    def result(self, c): return Ptr(c.p('first').obj, c.eng.fresh('cut'))
    def post(self, c, ret):
        o, f, l = self.rng(c); A = c.A(o); r = idx(ret)
        yield 'elements-live', 'own', live(A, f, l)
        yield 'partitioned', z3.And(f <= r, r <= l, split_at(c, A, f, r, l, pred_formula(c)))
        if c.mode == 'stable': yield 'order-kept', 'stab', z3.And(ord_asc(A, f, r), ord_asc(A, r, l))
        yield 'buffer', 'own', Buf.ok(c, c.p('buffer'))
    def owned(self, c, ret): return Buf.block(c, c.p('buffer'))
    def decreases(self, c): return c.i('len')
    def l0(L):
        self = REGC(StablePartitionImpl); o, f0, l = self.rng(L.ctx); q, n = Buf.fields(L.st, L.arg('buffer')); A, B, O = L.A(o), L.A(q), L.A0(o)
        f, it, nb = L.i('first'), L.i('it'), L.i('ptr')
        yield 'range', z3.And(f0 <= f, f <= it, it < l - 1, nb >= 1, nb <= zi(q.obj.hi), (f - f0) + nb == it - f0 + 1, L.at('d', 0) == nb)
        yield 'range-state', 'own', z3.And(live(A, f0, f), moved(A, f, it + 1), same_range(A, O, it + 1, l))
        yield 'buffer-state', 'own', z3.And(live(B, 0, nb), raw(B, nb, q.obj.hi))
        yield 'separated', z3.And(allv(A, f0, f, predf), allv(B, 0, nb, lambda x: z3.Not(predf(x))))
        if L.mode == 'stable': yield 'order-kept', 'stab', z3.And(ord_asc(A, f0, f), ord_asc(B, 0, nb), ord_below(A, f0, f, A, it + 1, l), ord_below(B, 0, nb, A, it + 1, l))
    def l1(L):
        self = REGC(StablePartitionImpl); o, f0, l = self.rng(L.ctx); q, n = Buf.fields(L.st, L.arg('buffer')); A, B, O = L.A(o), L.A(q), L.A0(o)
        f, it, nb, t = L.i('first'), L.i('it'), L.i('ptr'), L.i('t2')
        yield 'range', z3.And(f0 <= f, f + nb == l, 0 <= t, t <= nb, it == f + t, nb <= zi(q.obj.hi))
        yield 'range-state', 'own', z3.And(live(A, f0, it), moved(A, it, l))
        yield 'buffer-state', 'own', z3.And(moved(B, 0, t), live(B, t, nb), raw(B, nb, q.obj.hi))
        yield 'separated', z3.And(allv(A, f0, f, predf), allv(A, f, it, lambda x: z3.Not(predf(x))), allv(B, t, nb, lambda x: z3.Not(predf(x))))
        if L.mode == 'stable': yield 'order-kept', 'stab', z3.And(ord_asc(A, f0, f), ord_asc(A, f, it), ord_asc(B, t, nb), ord_below(A, f, it, B, t, nb))
    def l2(L):
        self = REGC(StablePartitionImpl); o, f0, l = self.rng(L.ctx); A = L.A(o); m, m1 = L.i('m'), L.i('m1')
        yield 'range', z3.And(f0 < m1, m1 <= m, L.i('len_half') == m1 - f0)
        yield 'falses', allv(A, m1, m, lambda x: z3.Not(predf(x)))
    def l3(L):
        self = REGC(StablePartitionImpl); o, f0, l = self.rng(L.ctx); A = L.A(o); m, m1 = L.i('m'), L.i('m1')
        yield 'range', z3.And(m <= m1, m1 < l - 1, L.i('len_half') == l - m1)
        yield 'trues', allv(A, m, m1, predf)
    loops = {0: Loop(l0, lambda L: L.ai('last') - L.i('it')), 1: Loop(l1, lambda L: L.i('ptr') - L.i('t2')), 2: Loop(l2, lambda L: L.i('m1') - L.ai('first')), 3: Loop(l3, lambda L: L.ai('last') - L.i('m1'))}
    def rec(eng, fr, st, cc, ret):
        if eng.mode != 'stable': return
        self = REGC(StablePartitionImpl); o, f0, l = self.rng(fr.ctx); A = eng.arr(st, o); L = LoopCtx(eng, fr, st, 0, None); m = L.i('m')
        yield 'halves-in-order', 'stab', ord_below(A, f0, m, A, m, l)
    def rot(eng, fr, st, cc, ret):
        if eng.mode != 'stable': return
        self = REGC(StablePartitionImpl); o, f0, l = self.rng(fr.ctx); A = eng.arr(st, o); a, m, b = cc.i('first'), cc.i('middle'), cc.i('last'); r = a + (b - m)
        yield 'pieces-in-order', 'stab', z3.And(ord_asc(A, f0, a), ord_asc(A, a, r), ord_asc(A, r, b), ord_asc(A, b, l), ord_below(A, f0, a, A, a, r), ord_below(A, r, b, A, b, l))
    after = {'StablePartitionImpl': rec, 'Rotate': rot}
def ord_below(A, l1, h1, B, l2, h2):
    return FA(2, lambda i, j: (z3.Implies(z3.And(inr(l1, i, h1), inr(l2, j, h2)), ordf(sel(A, i)) < ordf(sel(B, j))), [(pt(A, i), pt(B, j))]))
