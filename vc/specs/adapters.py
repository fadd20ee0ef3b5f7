"""Contracts: sorter adapters around any conforming sorter (C11; C15 for what happens when something throws).
The adapted sorter is harness/anysort.h: it compares arbitrary positions with what it was given, then sorts."""
from spec import *
import basic as B, merges as MG
_fn = itertools.count()
def B_live(eng, st, v, what, loc): eng.oblige(st, 'live:' + what, 'own', cmpop('ge', v, 0), loc)
def assoc(fn): return 'associate_iterator' in fn.demangled
def keyat(st, eng, o):
    """the element designated by position i of a region: the element itself, or the one its pointer designates"""
    if o.kind == 'heap': raise Unsupported('sorting uninitialised storage')
    if o.etype == ('elem',): A = eng.arr(st, o); return lambda i: sel(A, i)
    if o.target is None or isinstance(o.target, dict): raise Unsupported('sorting %r' % (o.etype,))
    P = eng.arr(st, o); T = eng.arr(st, o.target); return lambda i: sel(T, sel(P, i))
@model('vc_pick')
def _(eng, fr, st, fn, av, loc, ins):
    i = eng.fresh_int(st, 'pick', 64); eng.assume(st, z3.And(zi(av[0].idx) <= i, i < zi(av[1].idx)))
    return eng.throws(st, Ptr(av[0].obj, i))
@model('vc_says')
def _(eng, fr, st, fn, av, loc, ins):
    a, b, r = av; k = keyat(st, eng, a.obj); x, y = k(zi(a.idx)), k(zi(b.idx))
    eng.oblige(st, 'adapted-sorter:given-the-order-of-the-caller', 'func', zb(eng.asbool(r)) == (R(x) < R(y)), loc)
    return [(st, None)]
@model('vc_says_total')
def _(eng, fr, st, fn, av, loc, ins):
    a, b, r = av; k = keyat(st, eng, a.obj); x, y = k(zi(a.idx)), k(zi(b.idx)); D = eng.arr(st, a.obj, 8)
    eng.oblige(st, 'adapted-sorter:given-a-total-order', 'func', zb(eng.asbool(r)) == z3.Or(R(x) < R(y), z3.And(R(x) == R(y), sel(D, zi(a.idx)) < sel(D, zi(b.idx)))), loc)
    return [(st, None)]
@contract
class AnySort(Contract):
    """sorts [first,last): elements, or pointers (with whatever travels along) by what they designate"""
    fns = ('vc_any_sort',); props = ()
    def has_mode(self, mode): return True
    def verify_here(self, fn): return False
    def matches(self, fn, eng): return not assoc(fn)
    def pre(self, c):
        a, b = c.p(0), c.p(1); o = a.obj; lo, hi = zi(a.idx), zi(b.idx)
        yield 'valid-range', 'mem', z3.And(zb(b.obj is o), zi(o.lo) <= lo, lo <= hi, hi <= zi(o.hi))
        k = keyat(c.st, c.eng, o); P = c.eng.arr(c.st, o)
        if o.etype != ('elem',): t = o.target; yield 'designates-elements', 'mem', FA(1, lambda i: (z3.Implies(inr(lo, i, hi), inr(t.lo, sel(P, i), t.hi)), [pt(P, i)]))
        yield 'elements-live', 'own', FA(1, lambda i: (z3.Implies(inr(lo, i, hi), k(i) >= 0), [pt(P, i)]))
        if c.mode == 'stable': yield 'ghost-order', 'stab', FA(2, lambda i, j: (z3.Implies(z3.And(lo <= i, i < j, j < hi, R(k(i)) == R(k(j))), ordf(k(i)) < ordf(k(j))), [(pt(P, i), pt(P, j))]))
    def frame(self, c): return [('perm', c.p(0), zi(c.p(0).idx), zi(c.p(1).idx))] if c.p(0).obj.etype == ('elem',) else []
    def frame_exc(self, c): return [('perm', c.p(0), zi(c.p(0).idx), zi(c.p(1).idx))]
    def effects(self, c):
        st, eng, o = c.st, c.eng, c.p(0).obj; lo, hi = zi(c.p(0).idx), zi(c.p(1).idx)
        if o.etype == ('elem',): return
        n = next(_fn); p, q, S = z3.Function('perm%d' % n, Int, Int), z3.Function('inv%d' % n, Int, Int), z3.Function('steps%d' % n, Int, Int, Int)
        st.ghost['steps'] = S; st.ghost['inv'] = q
        eng.assume(st, FA(1, lambda i: (z3.Implies(inr(lo, i, hi), z3.And(inr(lo, p(i), hi), q(p(i)) == i)), [p(i)])))
        eng.assume(st, FA(1, lambda i: (z3.Implies(inr(lo, i, hi), z3.And(inr(lo, q(i), hi), p(q(i)) == i)), [q(i)])))
        # following a permutation from a position leads back to it
        eng.assume(st, FA(2, lambda s, k: (z3.Implies(z3.And(inr(lo, s, hi), inr(lo, k, hi)), z3.And(S(s, k) >= 0, z3.Implies(z3.And(S(s, k) > 0, p(k) != s), z3.And(S(s, p(k)) == S(s, k) - 1, S(s, k) > 1)), S(s, s) > 0)), [S(s, k)])))
        for sub in sorted(st.mem[o.id]):
            old = eng.arr(st, o, sub)
            nm = eng.fresh('P', z3.ArraySort(Int, Int)); eng.assume(st, nm == old); old = nm; new = eng.fresh('P', z3.ArraySort(Int, Int)); eng.setarr(st, o, new, sub)
            eng.assume(st, FA(1, lambda i: (z3.Implies(z3.Or(i < lo, i >= hi), sel(new, i) == sel(old, i)), [sel(new, i)])))
            eng.assume(st, FA(1, lambda i: (z3.Implies(inr(lo, i, hi), z3.And(inr(lo, p(i), hi), sel(new, i) == sel(old, p(i)))), [sel(new, i)])))
    def post(self, c, ret):
        a, b = c.p(0), c.p(1); o = a.obj; lo, hi = zi(a.idx), zi(b.idx); k = keyat(c.st, c.eng, o); P = c.eng.arr(c.st, o)
        yield 'live', 'own', FA(1, lambda i: (z3.Implies(inr(lo, i, hi), k(i) >= 0), [pt(P, i)]))
        yield 'sorted', FA(2, lambda i, j: (z3.Implies(z3.And(lo <= i, i < j, j < hi), le(c.mode, k(i), k(j))), [(pt(P, i), pt(P, j))]))
@contract
class AnySortAssoc(AnySort):
    """sorts associations in place: elements and what is associated to them move together, each iterator stays"""
    fns = ('vc_any_sort', 'vc_any_sort_total')
    def matches(self, fn, eng): return assoc(fn)
    def total(self, c): return 'total' in c.fn.demangled
    def pre(self, c):
        a, b = c.p(0), c.p(1); o = a.obj; lo, hi = zi(a.idx), zi(b.idx)
        yield 'valid-range', 'mem', z3.And(zb(b.obj is o), zi(o.lo) <= lo, lo <= hi, hi <= zi(o.hi))
        k = keyat(c.st, c.eng, o); P = c.eng.arr(c.st, o); D = c.eng.arr(c.st, o, 8); t = o.target
        if t is None: return        # nothing was ever associated
        yield 'designates-elements', 'mem', FA(1, lambda i: (z3.Implies(inr(lo, i, hi), z3.And(inr(t.lo, sel(P, i), t.hi), sel(P, i) == sel(P, lo) + i - lo)), [pt(P, i)]))
        yield 'elements-live', 'own', FA(1, lambda i: (z3.Implies(inr(lo, i, hi), k(i) >= 0), [pt(P, i)]))
        if self.total(c): yield 'associated-values-distinct', 'own', FA(2, lambda i, j: (z3.Implies(z3.And(lo <= i, i < j, j < hi), sel(D, i) != sel(D, j)), [(pt(P, i), pt(P, j))]))
        elif c.mode == 'stable': yield 'ghost-order', 'stab', FA(2, lambda i, j: (z3.Implies(z3.And(lo <= i, i < j, j < hi, R(k(i)) == R(k(j))), ordf(k(i)) < ordf(k(j))), [(pt(P, i), pt(P, j))]))
    def frame(self, c): return []
    def frame_exc(self, c):
        a, b = c.p(0), c.p(1); o = a.obj
        if o.target is None: return []
        f = sel(c.eng.arr(c.st, o), zi(a.idx)); return [('perm', o.target, f, f + zi(b.idx) - zi(a.idx))]
    def effects(self, c):
        st, eng, o = c.st, c.eng, c.p(0).obj; lo, hi = zi(c.p(0).idx), zi(c.p(1).idx)
        if o.target is None: return
        n = next(_fn); p, q = z3.Function('perm%d' % n, Int, Int), z3.Function('inv%d' % n, Int, Int); t = o.target; f = sel(eng.arr(st, o), lo)
        eng.assume(st, FA(1, lambda i: (z3.Implies(inr(lo, i, hi), z3.And(inr(lo, p(i), hi), q(p(i)) == i)), [p(i)])))
        eng.assume(st, FA(1, lambda i: (z3.Implies(inr(lo, i, hi), z3.And(inr(lo, q(i), hi), p(q(i)) == i)), [q(i)])))
        def alias(A):
            nm = eng.fresh('P', z3.ArraySort(Int, Int)); eng.assume(st, nm == A); return nm
        A, D = alias(eng.arr(st, t)), alias(eng.arr(st, o, 8)); A2, D2 = (eng.fresh('P', z3.ArraySort(Int, Int)) for _ in 'ab')
        eng.setarr(st, t, A2); eng.setarr(st, o, D2, 8)
        eng.assume(st, FA(1, lambda x: (z3.Implies(z3.Or(x < f, x >= f + hi - lo), sel(A2, x) == sel(A, x)), [sel(A2, x)])))
        eng.assume(st, FA(1, lambda x: (z3.Implies(inr(f, x, f + hi - lo), z3.And(inr(lo, p(x - f + lo), hi), sel(A2, x) == sel(A, f + p(x - f + lo) - lo), sel(D2, x - f + lo) == sel(D, p(x - f + lo)))), [sel(A2, x)])))
    def post(self, c, ret):
        a, b = c.p(0), c.p(1); o = a.obj; lo, hi = zi(a.idx), zi(b.idx)
        if o.target is None: return
        k = keyat(c.st, c.eng, o); P = c.eng.arr(c.st, o); D = c.eng.arr(c.st, o, 8); A = c.eng.arr(c.st, o.target); f = sel(P, lo); K = lambda x: sel(A, x)
        yield 'live', 'own', FA(1, lambda i: (z3.Implies(inr(f, i, f + hi - lo), K(i) >= 0), [pt(A, i)]))
        le_ = (lambda i, j: z3.Or(R(K(i)) < R(K(j)), z3.And(R(K(i)) == R(K(j)), sel(D, i - f + lo) <= sel(D, j - f + lo)))) if self.total(c) else (lambda i, j: le(c.mode, K(i), K(j)))
        yield 'sorted', FA(2, lambda i, j: (z3.Implies(z3.And(f <= i, i < j, j < f + hi - lo), le_(i, j)), [(pt(A, i), pt(A, j))]))

# ------------------------------------------------------------------ storage
class Holds:
    """the contents of an immovable_vector object at p: (block, number of constructed objects, capacity)"""
    @staticmethod
    def of(st, p):
        m = st.mem[p.obj.id]; return m[p.sub][1], m[p.sub + 8][1], m[p.sub + 16][1]
def is_elem(o): return o is not None and (o.kind == 'heap' or o.etype == ('elem',))
def destroy_loop(L):
    f = L.v('first'); l = L.v('last'); o = f.obj; E = L.entry
    f0 = E.v('first') if hasattr(E, 'v') else None
    yield 'range', z3.And(zi(f0.idx) <= zi(f.idx), zi(f.idx) <= zi(l.idx))
    if is_elem(o):
        A, O = L.A(o), E.A(o)
        yield 'destroyed-so-far', 'own', z3.And(raw(A, f0.idx, f.idx), FA(1, lambda i: (z3.Implies(z3.Not(inr(f0.idx, i, zi(f.idx))), sel(A, i) == sel(O, i)), [pt(A, i)])))
REG.loops('cppsort::detail::destroy', {0: Loop(destroy_loop, lambda L: zi(L.v('last').idx) - zi(L.v('first').idx))})
def insert_loop(L):
    """elements are moved into the storage one after the other"""
    E = L.entry; f, w = L.v('first'), L.v('writer'); f0, w0 = E.v('first'), E.v('writer'); l = L.v('last')
    A, O, W, V = L.A(f.obj), E.A(f.obj), L.A(w.obj), E.A(w.obj); n = zi(f.idx) - zi(f0.idx)
    yield 'range', z3.And(n >= 0, zi(f.idx) <= zi(l.idx), zi(w.idx) - zi(w0.idx) == n)
    yield 'moved-out', 'own', z3.And(moved(A, f0.idx, f.idx), same_range(A, O, f.idx, l.idx))
    yield 'moved-in', 'own', FA(1, lambda i: (z3.Implies(inr(w0.idx, i, w.idx), sel(W, i) == sel(O, i - zi(w0.idx) + zi(f0.idx))), [pt(W, i)]))
    yield 'rest-unconstructed', 'own', FA(1, lambda i: (z3.Implies(z3.Not(inr(w0.idx, i, w.idx)), sel(W, i) == sel(V, i)), [pt(W, i)]))
    yield 'outside', 'own', FA(1, lambda i: (z3.Implies(z3.Not(inr(f0.idx, i, l.idx)), sel(A, i) == sel(O, i)), [pt(A, i)]))
REG.loops('cppsort::detail::immovable_vector::insert_back', {0: Loop(insert_loop, lambda L: zi(L.v('last').idx) - zi(L.v('first').idx))})

# ------------------------------------------------------------------ out of place
class AdapterSort(B.RangeSort):
    props = ('C11', 'C03'); stable_sort = True
@contract
class OutOfPlace(AdapterSort):
    fns = ('cppsort::detail::sort_out_of_place',)
    def setup(self, V, fn):
        g = B.range_setup(V)[1]; g['size'] = simp(zi(g['last'].idx) - zi(g['first'].idx)); return g
    def pre(self, c):
        yield from super().pre(c)
        yield 'size', 'mem', c.i('size') == c.i('last') - c.i('first')
@contract
class OutOfPlaceCall(AdapterSort):
    fns = ('cppsort::out_of_place_adapter::operator#call',)
    def matches(self, fn, eng): return len(fn.params) >= 3 and 'first' in [re.sub(r'\.coerce\d*$', '', n) for t, n, a in fn.params]
UNC = z3.Int('uncaught_exceptions_on_entry')
@model('std::uncaught_exceptions')
def _(eng, fr, st, fn, av, loc, ins): return [(st, simp(UNC + (1 if st.ghost.get('unw') and not st.ghost.get('caught') else 0)))]
# a handler: the exception is caught until it is thrown again (elements are in the state the exception left them in)
@model('__cxa_begin_catch')
def _(eng, fr, st, fn, av, loc, ins):
    if st.ghost.get('caught'): raise Unsupported('nested handlers')
    st.ghost['caught'] = True; return [(st, NULL)]
@model('__cxa_rethrow')
def _(eng, fr, st, fn, av, loc, ins): st.ghost['caught'] = False; return [(st, EXC)]
@model('__cxa_end_catch')
def _(eng, fr, st, fn, av, loc, ins):
    if st.ghost.get('caught'): st.ghost['caught'] = False; st.ghost['unw'] = False
    return [(st, None)]

# ------------------------------------------------------------------ indirect: pointers are sorted, then the elements follow the cycles
class IndirectSort(AdapterSort):
    def setup(self, V, fn):
        g = B.range_setup(V)[1]; g['size'] = simp(zi(g['last'].idx) - zi(g['first'].idx)); return g
    def pre(self, c):
        yield from super().pre(c)
        yield 'size', 'mem', c.i('size') == c.i('last') - c.i('first')
class Store:
    """the storage of an immovable_vector local"""
    def __init__(s, L, name):
        p = L.var(name) if isinstance(name, str) else name
        m = L.st.mem[p.obj.id]; s.mem, s.end = m[p.sub + 8][1], m[p.sub + 16][1]; s.o = s.mem.obj; s.n = zi(s.end.idx) - zi(s.mem.idx); s.L = L
        if s.o.kind != 'heap' and s.o.target is None: s.o.target = L.arg('first').obj
        s.ok = s.o.kind != 'heap'; s.P = L.eng.arr(L.st, s.o, 0) if s.ok else None
    def idx(s): return s.L.eng.arr(s.L.st, s.o, 8)
def captured(L):
    """the objects captured by reference by a lambda"""
    p = L.v('this'); m = L.st.mem[p.obj.id]
    return [m[k][1] for k in sorted(m) if k >= p.sub and isinstance(m[k][1], Ptr)]
def captured_store(L):
    for p in captured(L):
        m = L.st.mem.get(p.obj.id, {})
        if all(isinstance(m.get(p.sub + k, (0, 0))[1], Ptr) for k in (8, 16)): return Store(L, p)
    raise MissingVar('no captured storage')
def captured_int(L):
    for p in captured(L):
        c = L.st.mem.get(p.obj.id, {}).get(p.sub)
        if c is not None and c[0] == ('int', 64) and len([k for k in L.st.mem[p.obj.id]]) == 1: return zi(L.eng.num(c[1]))
    raise MissingVar('no captured index')
def pointers(L, v, it, index=None):
    S = Store(L, v); f, n = L.ai('first'), L.i(it) - L.ai('first')
    yield 'count', z3.And(S.n == n, zi(S.mem.idx) == 0, n >= 0, n <= L.ai('last') - f)
    if index is not None: yield 'index', L.i(index) == n
    if S.ok:
        yield 'positions', FA(1, lambda k: (z3.Implies(inr(0, k, n), sel(S.P, k) == f + k), [pt(S.P, k)]))
        if index is not None: X = S.idx(); yield 'indices', FA(1, lambda k: (z3.Implies(inr(0, k, n), sel(X, k) == k), [pt(X, k)]))
class Cycles:
    """A[f+m] is its final value O[f+perm(m)] where done(m), and its initial one elsewhere"""
    def __init__(s, L): s.c = L.ctx; s.f, s.l = L.ai('first'), L.ai('last'); s.n = s.l - s.f; s.A = L.A(L.arg('first')); s.O = s.c.A_old(L.arg('first'))
    def states(s, pi, P, done, but=None):
        def f(m):
            g = inr(0, m, s.n)
            if but is not None: g = z3.And(g, m != but)
            return z3.Implies(g, z3.And(z3.Implies(done(m), sel(s.A, s.f + m) == sel(s.O, s.f + pi(m))), z3.Implies(z3.Not(done(m)), sel(s.A, s.f + m) == sel(s.O, s.f + m)))), [pt(P, m), pt(s.A, s.f + m)]
        def g(x):
            m = x - s.f; b, _ = f(m); return b, [pt(s.A, x)]
        return z3.And(FA(1, f), FA(1, g))
@contract
class SortIndirectly(IndirectSort):
    fns = ('cppsort::detail::sort_indirectly',)
    def matches(self, fn, eng): return True
    loops = {0: Loop(lambda L: pointers(L, 'iterators', 'it'), lambda L: L.ai('last') - L.i('it'))}
def bits_of(L):
    """the std::vector<bool> local: its contents"""
    p = L.var('sorted'); q = L.st.mem[p.obj.id][p.sub][1]; return q.obj, L.eng.arr(L.st, q.obj)
class SI:
    def common(L):
        C = Cycles(L); S = captured_store(L); Bo, Bt = bits_of(L); f = C.f; pi = lambda k: sel(S.P, k) - f
        return C, S, Bo, Bt, pi, lambda k: sel(Bt, k) == 1
    def facts(L, C, S, Bo, Bt, D):
        yield 'bits', 'mem', FA(1, lambda k: (z3.Implies(inr(0, k, C.n), z3.Or(sel(Bt, k) == 0, sel(Bt, k) == 1)), [pt(Bt, k)]))
    def outer(L):
        C, S, Bo, Bt, pi, D = SI.common(L); s = L.i('start')
        yield 'range', z3.And(C.f <= s, s <= C.l)
        yield from SI.facts(L, C, S, Bo, Bt, D)
        yield 'entries', C.states(pi, S.P, D)
        yield 'whole-cycles', FA(1, lambda k: (z3.Implies(z3.And(inr(0, k, C.n), D(pi(k))), D(k)), [pt(S.P, k)]))
        yield 'prefix-done', FA(1, lambda k: (z3.Implies(inr(0, k, s - C.f), D(k)), [pt(Bt, k)]))
        yield 'start-not-done', z3.Implies(s < C.l, z3.Not(D(s - C.f)))
    def cycle(L):
        C, S, Bo, Bt, pi, D = SI.common(L); s, cur, nx = L.i('start') - C.f, L.i('current') - C.f, L.i('next') - C.f; St = L.st.ghost['steps']
        Be = bits_of(L.entry)[1] if L.entry is not None else Bt
        De = lambda k: z3.And(sel(Be, k) == 1, k != s)       # done when the cycle was entered
        Dn = lambda k: z3.And(D(k), k != cur)
        P = lambda k: z3.And(z3.Not(De(k)), Dn(k))
        yield 'range', z3.And(inr(0, s, C.n), inr(0, cur, C.n), inr(0, nx, C.n), nx == pi(cur), nx != cur)
        yield from SI.facts(L, C, S, Bo, Bt, D)
        yield 'hole', z3.And(sel(C.A, C.f + cur) == MOVED, D(cur), z3.Not(De(cur)))
        yield 'saved', zi(L.e('tmp')) == sel(C.O, C.f + s)
        yield 'entries', C.states(pi, S.P, D, cur)
        yield 'done-before-stays', FA(1, lambda k: (z3.Implies(z3.And(inr(0, k, C.n), De(k)), D(k)), [pt(Bt, k), pt(Be, k)]))
        yield 'predecessors-done', FA(1, lambda k: (z3.Implies(z3.And(inr(0, k, C.n), P(pi(k)), pi(k) != s), P(k)), [pt(S.P, k)]))
        yield 'here-by-predecessor', z3.And(FA(1, lambda k: (z3.Implies(z3.And(inr(0, k, C.n), pi(k) == cur, cur != s), P(k)), [pt(S.P, k)])), z3.Implies(cur != s, P(s)), D(s))
        yield 'steps', St(s, cur) > 0
    def nextc(L):
        C, S, Bo, Bt, pi, D = SI.common(L); s = L.i('start')
        yield 'range', z3.And(C.f <= s, s < C.l)
        yield 'here-done', D(s - C.f)
        yield 'prefix-done', FA(1, lambda k: (z3.Implies(inr(0, k, s - C.f), D(k)), [pt(Bt, k)]))
    loops = {0: Loop(outer, lambda L: L.ai('last') - L.i('start')), 1: Loop(cycle, lambda L: L.st.ghost['steps'](L.i('start') - L.ai('first'), L.i('current') - L.ai('first'))), 2: Loop(nextc, lambda L: L.ai('last') - L.i('start'))}
REG.loops('cppsort::detail::sort_indirectly::lambda', SI.loops)
@contract
class Indiesort(IndirectSort):
    fns = ('cppsort::detail::indiesort',)
    loops = {0: Loop(lambda L: pointers(L, 'storage', 'current_element', 'index'), lambda L: L.ai('last') - L.i('current_element'))}
class IS:
    def common(L):
        C = Cycles(L); S = captured_store(L); pi = lambda k: sel(S.P, k) - C.f; X = S.idx()
        return C, S, X, pi
    def outer(L):
        C, S, X, pi = IS.common(L); i = L.i('current_tuple'); D = lambda k: z3.Or(k < i, sel(X, k) == k)
        yield 'range', z3.And(0 <= i, i <= C.n, captured_int(L) == i)
        yield 'indices', FA(1, lambda k: (z3.Implies(inr(i, k, C.n), z3.Or(sel(X, k) == k, sel(X, k) == pi(k))), [pt(X, k)]))
        yield 'entries', C.states(pi, S.P, D)
        yield 'whole-cycles', FA(1, lambda k: (z3.Implies(z3.And(inr(0, k, C.n), D(pi(k))), D(k)), [pt(S.P, k)]))
    def cycle(L):
        C, S, X, pi = IS.common(L); s = captured_int(L); d, q = L.i('destination_index'), L.i('source_index'); St = L.st.ghost['steps']
        Xe = Store(L.entry, [p for p in captured(L.entry) if len(L.entry.st.mem[p.obj.id]) == 3][0]).idx() if L.entry is not None else X
        D = lambda k: z3.Or(k < s, sel(X, k) == k); De = lambda k: z3.Or(k < s, sel(Xe, k) == k); P = lambda k: z3.And(D(k), z3.Not(De(k)))
        yield 'range', z3.And(inr(0, s, C.n), L.i('current_tuple') == s, inr(0, d, C.n), inr(0, q, C.n), q == pi(d), q != s)
        yield 'not-done', z3.And(z3.Not(D(s)), z3.Not(D(q)), z3.Not(De(q)), z3.Not(De(s)), z3.Or(d == s, P(d)))
        yield 'indices', FA(1, lambda k: (z3.Implies(inr(s, k, C.n), z3.Or(sel(X, k) == k, sel(X, k) == pi(k))), [pt(X, k)]))
        yield 'hole', sel(C.A, C.f + q) == MOVED
        yield 'saved', zi(L.e('end_value')) == sel(C.O, C.f + pi(s))
        yield 'entries', C.states(pi, S.P, D, q)
        yield 'done-before-stays', FA(1, lambda k: (z3.Implies(z3.And(inr(0, k, C.n), De(k)), D(k)), [pt(X, k), pt(Xe, k)]))
        yield 'predecessors-done', FA(1, lambda k: (z3.Implies(z3.And(inr(0, k, C.n), P(pi(k))), z3.Or(k == s, P(k))), [pt(S.P, k)]))
        yield 'steps', St(s, q) > 0
    loops = {0: Loop(outer, lambda L: L.ai('last') - L.ai('first') - L.i('current_tuple')), 1: Loop(cycle, lambda L: L.st.ghost['steps'](captured_int(L), L.i('source_index')))}
REG.loops('cppsort::detail::indiesort::lambda', IS.loops)
# std::vector<bool> as far as it is used: n bits, all equal
VB = 'std::vector<bool, std::allocator<bool>>::'
@model(VB + 'vector(unsigned long, bool const&, std::allocator<bool> const&)')
def _(eng, fr, st, fn, av, loc, ins):
    p, n, b, _ = av; sx = st.fork()
    eng.oblige(st, 'vector-size', 'mem', cmpop('ge', eng.num(n), 0), loc)
    o = new_block(eng, st, eng.num(n), 'bits'); o.kind = 'region'; o.etype = ('int', 8); o.lo = 0; o.hi = eng.num(n)
    v = eng.load(st, b, ('int', 8)); v = v if isinstance(v, int) else z3.If(zb(eng.asbool(v)), 1, 0); st.mem[o.id] = {0: z3.K(Int, zi(v))}
    st.mem[p.obj.id] = {p.sub: (('ptr',), Ptr(o, 0))}
    return ([(sx, EXC)] if eng.exc else []) + [(st, None)]
@model(VB + 'operator[](unsigned long)')
def _(eng, fr, st, fn, av, loc, ins):
    q = st.mem[av[0].obj.id][av[0].sub][1]; r = Ptr(q.obj, simp(zi(eng.num(av[1])))); eng.check_ptr(st, r, 'bit', loc); return [(st, [r, 1])]
@model(VB + '~vector()')
def _(eng, fr, st, fn, av, loc, ins):
    q = st.mem[av[0].obj.id].get(av[0].sub)
    release(eng, st, q[1], None, loc); return [(st, None)]
def _bit(eng, st, p): return eng.load(st, p, ('ptr',))
@model('std::_Bit_reference::operator=(bool)')
def _(eng, fr, st, fn, av, loc, ins):
    r = _bit(eng, st, av[0]); v = av[1]
    v = int(v) if isinstance(v, (bool, int)) else simp(z3.If(zb(eng.asbool(v)), 1, 0)); nb = eng.fresh('bits', z3.ArraySort(Int, Int)); eng.assume(st, nb == z3.Store(eng.arr(st, r.obj), zi(r.idx), zi(v))); eng.setarr(st, r.obj, nb); return [(st, av[0])]
@model('std::_Bit_reference::operator bool() const')
def _(eng, fr, st, fn, av, loc, ins):
    r = _bit(eng, st, av[0]); return [(st, simp(sel(eng.arr(st, r.obj), zi(r.idx)) == 1))]
@contract
class IndirectCall(AdapterSort):
    fns = ('cppsort::detail::indirect_adapter_impl::operator#call',)
    def matches(self, fn, eng): return 'first' in [re.sub(r'\.coerce\d*$', '', n) for t, n, a in fn.params]

# ------------------------------------------------------------------ split
@contract
class SplitSort(AdapterSort):
    """a non-decreasing subsequence is isolated in front, the rest is sorted, both are merged"""
    fns = ('cppsort::detail::split_sort',); stable_sort = False
    def lp(L):
        A = L.A(L.arg('first')); f, m, r, l = L.ai('first'), L.i('middle'), L.i('reader_it'), L.ai('last')
        yield 'range', z3.And(f <= m, m < r, r <= l)
        yield 'live', 'own', live(A, f, l)
        yield 'subsequence-sorted', sorted_('plain', A, f, m + 1)
    loops = {0: Loop(lp, lambda L: L.ai('last') - L.i('reader_it'))}
@contract
class SplitCall(AdapterSort):
    fns = ('cppsort::detail::split_adapter_impl::operator#call',); stable_sort = False

# ------------------------------------------------------------------ schwartz, stable: associations are sorted in place
@model('ProjV::operator()(Elem const&) const')
def _(eng, fr, st, fn, av, loc, ins):
    v = eng.get_elem(st, av[1], 'projection', loc); B_live(eng, st, v, 'projection', loc)
    return eng.throws(st, v)
@model('CompV::operator()(KeyV const&, KeyV const&) const')
def _(eng, fr, st, fn, av, loc, ins):
    x, y = (zi(eng.num(eng.load(st, p, ('int', 64)))) for p in av[1:3]); eng.tick(st, 0); return eng.throws(st, simp(R(x) < R(y)))
class Counted(AdapterSort):
    """[first, first+size)"""
    def setup(self, V, fn):
        A = V.elems('A'); return {'first': V.ptr(A, A.lo), 'size': simp(zi(A.hi) - zi(A.lo))}
    def pre(self, c):
        f = c.p('first'); o = f.obj; lo = c.i('first'); n = c.i('size'); A = c.A(f)
        yield 'valid-range', 'mem', z3.And(zi(o.lo) <= lo, 0 <= n, lo + n <= zi(o.hi))
        yield 'elements-live', 'own', live(A, lo, lo + n)
        if c.mode == 'stable': yield 'ghost-order', 'stab', stable_pre(A, lo, lo + n)
    def frame(self, c): return [('perm', c.p('first'), c.i('first'), c.i('first') + c.i('size'))]
    def post(self, c, ret):
        A = c.A(c.p('first')); lo, hi = c.i('first'), c.i('first') + c.i('size')
        yield 'elements-live', 'own', live(A, lo, hi)
        yield 'sorted', 'func', sorted_(c.mode, A, lo, hi)
def associations(L, v, data):
    S = Store(L, v); f, n = L.ai('first'), L.i('count')
    yield 'count', z3.And(S.n == n, zi(S.mem.idx) == 0, 0 <= n, n <= L.ai('size'), L.i('first') == f + n)
    if S.ok:
        X = S.idx()
        yield 'positions', FA(1, lambda k: (z3.Implies(inr(0, k, n), z3.And(sel(S.P, k) == f + k, sel(X, k) == data(L, f, k))), [pt(S.P, k), pt(X, k)]))
def projection_of(L, f, k): return sel(L.A(L.arg('first')), f + k)
@contract
class Schwartz(Counted):
    fns = ('cppsort::detail::sort_with_schwartz',)
    loops = {0: Loop(lambda L: associations(L, 'projected', projection_of), lambda L: L.ai('size') - L.i('count'))}
@contract
class SchwartzCall(AdapterSort):
    fns = ('cppsort::detail::schwartz_adapter_impl::operator#call',)
    def matches(self, fn, eng): return 'first' in [re.sub(r'\.coerce\d*$', '', n) for t, n, a in fn.params]
@contract
class MakeStable(Counted):
    """stable whatever the adapted sorter does with equivalent elements"""
    fns = ('cppsort::detail::make_stable_and_sort',)
    def has_mode(self, mode): return mode in ('stable', 'exc')
    loops = {0: Loop(lambda L: associations(L, 'iterators', lambda L, f, k: k), lambda L: L.ai('size') - L.i('count'))}
@contract
class MakeStableCall(AdapterSort):
    fns = ('cppsort::detail::make_stable_impl::operator#call',)
    def has_mode(self, mode): return mode in ('stable', 'exc')
    def matches(self, fn, eng): return 'first' in [re.sub(r'\.coerce\d*$', '', n) for t, n, a in fn.params]

# ------------------------------------------------------------------ what sorters do with associations
class AscOp(Contract):
    """operations on associations (element designated, associated value): both move together, the iterators stay; self-move is not used"""
    props = ('C11', 'C03'); two = True
    def has_mode(self, mode): return mode == 'plain'
    def assoc(self, V, name, live_=True):
        o = Obj('scalar', name); i = V.int(name + '_i'); x = V.int(name + '_data') if live_ else z3.IntVal(MOVED); A = self.A
        V.eng.assume(V.st, z3.And(inr(A.lo, i, A.hi), x >= 0 if live_ else True, sel(V.st.mem[A.id][0], i) >= 0 if live_ else sel(V.st.mem[A.id][0], i) == MOVED))
        V.st.mem[o.id] = {0: (('ptr',), Ptr(A, i)), 8: (('elem',), x)}; return Ptr(o), i, x
    def value(self, V, name, live_=True):
        o = Obj('scalar', name); v, x = (V.int(name + '_value'), V.int(name + '_data')) if live_ else (z3.IntVal(MOVED), z3.IntVal(MOVED)); V.st.mem[o.id] = {0: (('elem',), v), 8: (('elem',), x)}
        V.eng.assume(V.st, z3.And(v >= 0, x >= 0) if live_ else z3.BoolVal(True)); return Ptr(o), v, x
    def setup(self, V, fn):
        self.A = V.elems('A'); return self.given(V)
    def cell(self, c, n, k, pre=False):
        p = c.p(n); return zi((c.pre_mem if pre else c.st.mem)[p.obj.id][k][1])
    def at(self, c, n): return zi(c.pre_mem[c.p(n).obj.id][0][1].idx)
    def arr2(self, c):
        o = self.A; return c.st.mem[o.id][0], c.pre_mem[o.id][0]
    def stays(self, c, n): q = c.st.mem[c.p(n).obj.id][0][1]; return z3.And(zb(q.obj is self.A), zi(q.idx) == self.at(c, n))
    def fr(self, c, *at): A, O = self.arr2(c); return FA(1, lambda x: (z3.Implies(z3.And(*[x != a for a in at]), sel(A, x) == sel(O, x)), [sel(A, x)]))
    def frame(self, c): return [('any', self.A, self.A.lo, self.A.hi)]
    def frame_cells(self, c): return {('cell', i, k) for i, cells in c.pre_mem.items() for k in cells}
    def post_exc(self, c):
        yield from super().post_exc(c)
        for n in ('a', 'b', 'it'):
            if n not in c.names: continue
            o = c.p(n).obj
            for k, (t, v) in c.st.mem[o.id].items():
                if t == ('elem',): yield 'still-constructed', 'exc', zi(v) > RAW
@contract
class AscSwap(AscOp):
    fns = ('h_asc_swap', 'h_asc_iswap')
    def given(self, V):
        a, i, _ = self.assoc(V, 'a'); b, j, _ = self.assoc(V, 'b'); V.eng.assume(V.st, i != j); return {'a': a, 'b': b}
    def post(self, c, ret):
        A, O = self.arr2(c); i, j = self.at(c, 'a'), self.at(c, 'b')
        yield 'elements-exchanged', z3.And(sel(A, i) == sel(O, j), sel(A, j) == sel(O, i)); yield 'others', 'own', self.fr(c, i, j)
        yield 'associated-exchanged', z3.And(self.cell(c, 'a', 8) == self.cell(c, 'b', 8, True), self.cell(c, 'b', 8) == self.cell(c, 'a', 8, True)); yield 'iterators-stay', z3.And(self.stays(c, 'a'), self.stays(c, 'b'))
@contract
class AscMove(AscOp):
    fns = ('h_asc_move',)
    def given(self, V):
        a, i, _ = self.assoc(V, 'a', False); b, j, _ = self.assoc(V, 'b'); V.eng.assume(V.st, i != j); return {'a': a, 'b': b}
    def post(self, c, ret):
        A, O = self.arr2(c); i, j = self.at(c, 'a'), self.at(c, 'b')
        yield 'element-moved', z3.And(sel(A, i) == sel(O, j), sel(A, j) == MOVED); yield 'others', 'own', self.fr(c, i, j)
        yield 'associated-moved', z3.And(self.cell(c, 'a', 8) == self.cell(c, 'b', 8, True), self.cell(c, 'b', 8) == MOVED); yield 'iterators-stay', z3.And(self.stays(c, 'a'), self.stays(c, 'b'))
@contract
class AscFrom(AscOp):
    fns = ('h_asc_from',)
    def given(self, V): return {'a': self.assoc(V, 'a', False)[0], 'b': self.value(V, 'b')[0]}
    def post(self, c, ret):
        A, O = self.arr2(c); i = self.at(c, 'a')
        yield 'element-moved', z3.And(sel(A, i) == self.cell(c, 'b', 0, True), self.cell(c, 'b', 0) == MOVED); yield 'others', 'own', self.fr(c, i)
        yield 'associated-moved', z3.And(self.cell(c, 'a', 8) == self.cell(c, 'b', 8, True), self.cell(c, 'b', 8) == MOVED); yield 'iterator-stays', self.stays(c, 'a')
@contract
class AsvMove(AscOp):
    fns = ('h_asv_move',)
    def given(self, V): return {'a': self.value(V, 'a', False)[0], 'b': self.value(V, 'b')[0]}
    def post(self, c, ret):
        for k in (0, 8): yield 'moved', z3.And(self.cell(c, 'a', k) == self.cell(c, 'b', k, True), self.cell(c, 'b', k) == MOVED)
class Raw:
    @staticmethod
    def of(V, n='p'):
        o = Obj('scalar', n); V.st.mem[o.id] = {0: (('elem',), z3.IntVal(RAW)), 8: (('elem',), z3.IntVal(RAW))}; return Ptr(o)
@contract
class AsvInit(AscOp):
    fns = ('h_asv_init',)
    def given(self, V): return {'p': Raw.of(V), 'b': self.value(V, 'b')[0]}
    def post(self, c, ret):
        for k in (0, 8): yield 'moved', z3.And(self.cell(c, 'p', k) == self.cell(c, 'b', k, True), self.cell(c, 'b', k) == MOVED)
@contract
class AscTake(AscOp):
    fns = ('h_asc_take',)
    def given(self, V): return {'p': Raw.of(V), 'it': self.assoc(V, 'it')[0]}
    def post(self, c, ret):
        A, O = self.arr2(c); i = self.at(c, 'it')
        yield 'element-moved', z3.And(self.cell(c, 'p', 0) == sel(O, i), sel(A, i) == MOVED); yield 'others', 'own', self.fr(c, i)
        yield 'associated-moved', z3.And(self.cell(c, 'p', 8) == self.cell(c, 'it', 8, True), self.cell(c, 'it', 8) == MOVED); yield 'iterator-stays', self.stays(c, 'it')

# ------------------------------------------------------------------ std::vector<Elem> as far as it is used: a growing block of constructed elements
VE = 'std::vector<Elem, std::allocator<Elem>>::'
class Vec:
    """contents of a std::vector<Elem> object: cells 0 (start) and 8 (finish), as in the implementation"""
    def __init__(s, eng, st, p): s.eng, s.st, s.m = eng, st, (p.obj.id, p.sub); c = st.mem[p.obj.id]; s.start = c[p.sub][1]; s.fin = c[p.sub + 8][1]; s.o = s.start.obj; s.n = zi(s.fin.idx)
    def resize(s, n): i, k = s.m; s.st.mem[i] = {**s.st.mem[i], k + 8: (('ptr',), Ptr(s.o, simp(n)))}
@model(VE + 'vector()')
def _(eng, fr, st, fn, av, loc, ins):
    o = new_block(eng, st, MAXN, 'vector'); o.kind = 'region'; o.etype = ('elem',); o.lo = 0; o.hi = MAXN; st.mem[o.id] = {0: z3.K(Int, z3.IntVal(RAW))}
    p = av[0]; st.mem[p.obj.id] = {**st.mem.get(p.obj.id, {}), p.sub: (('ptr',), Ptr(o, 0)), p.sub + 8: (('ptr',), Ptr(o, 0))}; return [(st, None)]
@model(VE + 'push_back(Elem&&)')
def _(eng, fr, st, fn, av, loc, ins):
    V = Vec(eng, st, av[0]); x = eng.get_elem(st, av[1], 'push_back', loc); B_live(eng, st, x, 'push_back', loc); outs = []
    if eng.exc:       # no memory, or a move which throws while the elements are moved to another block
        sx = st.fork(); W = Vec(eng, sx, av[0]); old = eng.arr(sx, W.o); new = eng.fresh('X', z3.ArraySort(Int, Int)); eng.setarr(sx, W.o, new)
        eng.assume(sx, FA(1, lambda i: (z3.And((sel(new, i) == RAW) == (sel(old, i) == RAW), sel(new, i) >= RAW), [sel(new, i)])))
        outs.append((sx, EXC))
    eng.set_elem(st, av[1], MOVED); eng.setarr(st, V.o, z3.Store(eng.arr(st, V.o), V.n, zi(x))); V.resize(V.n + 1); eng.tick(st, 16)
    return outs + [(st, None)]
@model(VE + 'pop_back()')
def _(eng, fr, st, fn, av, loc, ins):
    V = Vec(eng, st, av[0]); eng.oblige(st, 'pop_back:not-empty', 'mem', V.n > 0, loc)
    if not eng.exc: eng.oblige(st, 'destroy:moved-from', 'own', sel(eng.arr(st, V.o), V.n - 1) == MOVED, loc)
    eng.setarr(st, V.o, z3.Store(eng.arr(st, V.o), V.n - 1, z3.IntVal(RAW))); V.resize(V.n - 1); return [(st, None)]
@model(VE + '~vector()')
def _(eng, fr, st, fn, av, loc, ins):
    V = Vec(eng, st, av[0]); A = eng.arr(st, V.o)
    if not st.ghost.get('unw'): eng.oblige(st, 'destroy:moved-from', 'own', moved(A, 0, V.n), loc)
    B = eng.fresh('A', z3.ArraySort(Int, Int)); eng.setarr(st, V.o, B); eng.assume(st, FA(1, lambda i: (sel(B, i) == z3.If(inr(0, i, V.n), z3.IntVal(RAW), sel(A, i)), [sel(B, i)])))
    release(eng, st, V.start, None, loc); return [(st, None)]
# ------------------------------------------------------------------ drop-merge
def dropped_of(L, name='dropped'): return Vec(L.eng, L.st, L.var(name))
@contract
class DropMerge(AdapterSort):
    """elements breaking the order are moved to a vector which is sorted and merged back; not stable"""
    fns = ('cppsort::detail::drop_merge_sort',); stable_sort = False; first, last = 'begin', 'end'
    def setup(self, V, fn): return B.range_setup(V, 'begin', 'end')[1]
    def common(L):
        V = dropped_of(L); D = L.eng.arr(L.st, V.o); return L.A(L.arg('begin')), D, V.n, L.ai('begin'), L.ai('end')
    def drop(L):
        A, D, n, f, l = DropMerge.common(L); w, r, k = L.i('write'), L.i('read'), L.i('num_dropped_in_row')
        yield 'range', z3.And(f <= w, w <= r, r < l, n == r - w, 0 <= k, k <= 8, k <= n)
        yield 'contents', 'own', z3.And(live(A, f, w), moved(A, w, r), live(A, r, l), live(D, 0, n), raw(D, n, MAXN))
        yield 'prefix-sorted', sorted_('plain', A, f, w)
    def drop_var(L):
        V = dropped_of(L); return (L.ai('end') - L.ai('begin') - V.n + L.i('num_dropped_in_row'), L.ai('end') - L.i('read'))
    def rewind(L):
        A, D, n, f, l = DropMerge.common(L); w, r, k, i = L.i('write'), L.i('read'), L.i('num_dropped_in_row'), L.i('i')
        yield 'range', z3.And(f < w, w <= r, r <= l, n == r - w, 0 <= i, i <= k, k <= 8, k - i <= n)
        if L.entry is not None: yield 'rewound', z3.And(r == L.entry.i('read') - i, k == L.entry.i('num_dropped_in_row'), w == L.entry.i('write'))
        yield 'contents', 'own', z3.And(live(A, f, w), moved(A, w, r), live(A, r, l), live(D, 0, n), raw(D, n, MAXN))
        yield 'prefix-sorted', sorted_('plain', A, f, w)
    def merge(L):
        A, D, n, f, l = DropMerge.common(L); w, b = L.i('write'), L.i('back')
        yield 'range', z3.And(f <= w, w < b, b <= l, n == b - w)
        yield 'contents', 'own', z3.And(live(A, f, w), moved(A, w, b), live(A, b, l), live(D, 0, n), raw(D, n, MAXN))
        yield 'parts-sorted', z3.And(sorted_('plain', A, f, w), sorted_('plain', A, b, l), sorted_('plain', D, 0, n))
        yield 'back-is-last', z3.And(all_le('plain', A, f, w, A, b, l), all_le('plain', D, 0, n, A, b, l))
    def shift(L):
        A, D, n, f, l = DropMerge.common(L); w, b = L.i('write'), L.i('back'); x = sel(D, n - 1)
        yield 'range', z3.And(f <= w, w < b, b <= l, n == b - w)
        yield 'contents', 'own', z3.And(live(A, f, w), moved(A, w, b), live(A, b, l), live(D, 0, n), raw(D, n, MAXN))
        yield 'parts-sorted', z3.And(sorted_('plain', A, f, w), sorted_('plain', A, b, l), sorted_('plain', D, 0, n))
        yield 'back-is-last', z3.And(all_le('plain', A, f, w, A, b, l), all_le('plain', D, 0, n, A, b, l))
    loops = {0: Loop(drop, drop_var), 1: Loop(rewind, lambda L: L.i('num_dropped_in_row') - L.i('i')), 2: Loop(merge, lambda L: dropped_of(L).n), 3: Loop(shift, lambda L: L.i('write'))}
@contract
class DropMergeCall(AdapterSort):
    fns = ('cppsort::detail::drop_merge_adapter_impl::operator#call',); stable_sort = False
    def matches(self, fn, eng): return 'first' in [re.sub(r'\\.coerce\\d*$', '', n) for t, n, a in fn.params]
