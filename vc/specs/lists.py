"""Contracts: the algorithms for linked lists (C17).  std::list and std::forward_list are modelled (trusted): a list is
the sequence AT of its nodes and the position POS of every node; iterators designate nodes; elements live in the nodes.
splice, merge and swap relink nodes as the standard says.  The elements are never touched by that."""
from spec import *
import itertools as IT
AI = z3.ArraySort(Int, Int)
class LState(Obj):
    cnt = IT.count()
    def __init__(s, name, nodes, fwd):
        super().__init__('region', name, ('lnodes',), 0, MAXN); s.nodes = nodes; s.fwd = fwd
        k = next(LState.cnt); s.END = -(2*k + 10); s.BB = -(2*k + 11)      # the end and the position before the beginning
        s.it = Obj('region', name + '.it', ('lnode',), -2**62, 2**62); s.it.list = s; s.it.target = nodes
class LV:
    """the contents of a list in a state"""
    def __init__(v, S, mem):
        v.S = S; m = mem[S.id]; v.AT, v.POS, v.n = m[0], m[8], zi(m[16][1]); v.A = mem[S.nodes.id][0]; v.E = Via(v.A, v.AT)
    def pos(v, p): x = zi(p.idx); return simp(z3.If(x == v.S.END, v.n, z3.If(x == v.S.BB, z3.IntVal(-1), z3.Select(v.POS, x))))
    def node(v, p):
        """p designates an element of the list"""
        x = zi(p.idx); q = z3.Select(v.POS, x); return z3.And(x >= 0, 0 <= q, q < v.n, z3.Select(v.AT, q) == x)
    def valid(v, p): x = zi(p.idx); return z3.Or(x == v.S.END, x == v.S.BB, v.node(p)) if v.S.fwd else z3.Or(x == v.S.END, v.node(p))
    def at(v, q, st, eng):
        """iterator to position q in [-1,n]"""
        r = eng.fresh('it'); q = simp(zi(q))
        eng.assume(st, z3.And(z3.Implies(q == v.n, r == v.S.END), z3.Implies(z3.And(0 <= q, q < v.n), z3.And(r == z3.Select(v.AT, q), r >= 0, z3.Select(v.POS, r) == q)), z3.Implies(q == -1, r == v.S.BB)))
        return Ptr(v.S.it, r)
    def wf(v): return z3.And(v.n >= 0, v.n <= MAXN, FA(1, lambda i: (z3.Implies(inr(0, i, v.n), z3.And(z3.Select(v.AT, i) >= 0, z3.Select(v.AT, i) < zi(v.S.nodes.hi), z3.Select(v.POS, z3.Select(v.AT, i)) == i)), [z3.Select(v.AT, i)])))
    def live(v): return FA(1, lambda i: (z3.Implies(inr(0, i, v.n), sel(v.E, i) >= 0), [pt(v.E, i)]))
def mklist(eng, st, name, fwd, empty=False, nodes=None):
    S = LState(name, nodes or eng.lnodes, fwd)
    st.mem[S.id] = {0: eng.fresh(name + '_AT', AI), 8: eng.fresh(name + '_POS', AI), 16: (('int', 64), 0 if empty else eng.fresh(name + '_n'))}
    v = LV(S, st.mem); eng.assume(st, v.wf()); return S
def of(st, p):
    c = st.mem[p.obj.id].get(p.sub)
    if c is None or not isinstance(c[1], Ptr) or not isinstance(c[1].obj, LState): raise Unsupported('not a list')
    return c[1].obj
def renew(eng, st, S, n=None):
    old = LV(S, st.mem); c = dict(st.mem[S.id]); c[0] = eng.fresh('AT', AI); c[8] = eng.fresh('POS', AI)
    if n is not None: c[16] = (('int', 64), simp(n))
    st.mem[S.id] = c; new = LV(S, st.mem); eng.assume(st, new.wf()); return old, new
def itlist(p):
    S = getattr(p.obj, 'list', None) if isinstance(p, Ptr) and p.obj is not None else None
    if S is None: raise Unsupported('iterator of an unknown list')
    return S
LISTS = ('std::__cxx11::list', 'std::forward_list')
def lmodel(*ms): return model(*['%s::%s' % (l, m) for l in LISTS for m in ms])
@lmodel('begin', 'cbegin')
def _(eng, fr, st, fn, av, loc, ins): v = LV(of(st, av[0]), st.mem); return [(st, v.at(0, st, eng))]
@lmodel('end', 'cend')
def _(eng, fr, st, fn, av, loc, ins): S = of(st, av[0]); return [(st, Ptr(S.it, zi(S.END)))]
@lmodel('before_begin', 'cbefore_begin')
def _(eng, fr, st, fn, av, loc, ins): S = of(st, av[0]); return [(st, Ptr(S.it, zi(S.BB)))]
@lmodel('size')
def _(eng, fr, st, fn, av, loc, ins): return [(st, LV(of(st, av[0]), st.mem).n)]
@lmodel('empty')
def _(eng, fr, st, fn, av, loc, ins): return [(st, LV(of(st, av[0]), st.mem).n == 0)]
@lmodel('get_allocator')
def _(eng, fr, st, fn, av, loc, ins): return [(st, None)]
@lmodel('list', 'forward_list')
def _(eng, fr, st, fn, av, loc, ins):
    if len(av) > 1 and 'allocator<Elem> const&' not in fn.demangled.split('(')[-1]: raise Unsupported('list constructor')
    S = mklist(eng, st, 'list', 'forward_list' in fn.demangled.split('(')[0], True); st.mem[av[0].obj.id] = {**st.mem[av[0].obj.id], av[0].sub: (('ptr',), Ptr(S))}; return [(st, None)]
@lmodel('~list', '~forward_list')
def _(eng, fr, st, fn, av, loc, ins):
    eng.oblige(st, 'list:no-element-destroyed', 'own', LV(of(st, av[0]), st.mem).n == 0, loc)
    c = dict(st.mem[av[0].obj.id]); c.pop(av[0].sub, None); st.mem[av[0].obj.id] = c; return [(st, None)]
def step(eng, st, p, d, loc):
    v = LV(itlist(p), st.mem); q = simp(v.pos(p) + d)
    eng.oblige(st, 'list-iterator:valid', 'mem', v.valid(p), loc)
    eng.oblige(st, 'list-iterator:stays-in-list', 'mem', z3.And(q >= (-1 if v.S.fwd else 0), q <= v.n), loc)
    return v.at(q, st, eng)
def itcell(st, p): return st.mem[p.obj.id][p.sub][1]
ITS = ['std::%s' % x for x in ('_List_iterator', '_List_const_iterator', '_Fwd_list_iterator', '_Fwd_list_const_iterator')]
def setit(st, p, v): st.mem[p.obj.id] = {**st.mem[p.obj.id], p.sub: (('ptr',), v)}
def incdec(d):
    def f(eng, fr, st, fn, av, loc, ins):
        old = itcell(st, av[0]); new = step(eng, st, old, d, loc); setit(st, av[0], new)
        return [(st, old if len(av) > 1 else av[0])]
    return f
for x in ITS:
    for d, o in ((1, '++'), (-1, '--')): model('%s::operator%s' % (x, o))(incdec(d))
@model(*[x + '::operator' + o for x in ITS for o in ('*', '->')])
def _(eng, fr, st, fn, av, loc, ins):
    p = itcell(st, av[0]); v = LV(itlist(p), st.mem); eng.oblige(st, 'list-iterator:designates-an-element', 'mem', v.node(p), loc)
    return [(st, Ptr(v.S.nodes, zi(p.idx)))]
@model('std::next', 'std::prev')
def _(eng, fr, st, fn, av, loc, ins):
    if '_list_iterator' not in fn.demangled and '_List_iterator' not in fn.demangled: return None
    d = zi(eng.num(av[1])); return [(st, step(eng, st, av[0], d if basename(fn.demangled) == 'std::next' else -d, loc))]
def move_one(eng, st, S, q, p):
    """the node at position p goes before position q"""
    O, N = renew(eng, st, S); at = lambda i: z3.Select(O.AT, i); x = eng.fresh('node'); eng.assume(st, x == at(p)); q, p = zi(q), zi(p)
    eng.assume(st, FA(1, lambda i: (z3.Implies(inr(0, i, O.n), z3.Select(N.AT, i) == z3.If(p < q, z3.If(i < p, at(i), z3.If(i < q - 1, at(i + 1), z3.If(i == q - 1, x, at(i)))), z3.If(i < q, at(i), z3.If(i == q, x, z3.If(i <= p, at(i - 1), at(i)))))), [z3.Select(N.AT, i)])))
    def pos(y):
        k = z3.Select(O.POS, y)
        return z3.Implies(z3.And(0 <= k, k < O.n, at(k) == y), z3.Select(N.POS, y) == z3.If(y == x, z3.If(p < q, q - 1, q), z3.If(p < q, z3.If(z3.And(p < k, k < q), k - 1, k), z3.If(z3.And(q <= k, k < p), k + 1, k)))), [z3.Select(N.POS, y)]
    eng.assume(st, FA(1, pos))
def move_range(eng, st, S, q, T, a, b):
    """the nodes at positions [a,b) of T go before position q of S"""
    k = b - a; n1, n2 = LV(S, st.mem).n, LV(T, st.mem).n
    O, N = renew(eng, st, S, n1 + k); P, M = renew(eng, st, T, n2 - k)
    eng.assume(st, FA(1, lambda i: (z3.Implies(inr(0, i, n1 + k), z3.Select(N.AT, i) == z3.If(i < q, z3.Select(O.AT, i), z3.If(i < q + k, z3.Select(P.AT, a + i - q), z3.Select(O.AT, i - k)))), [z3.Select(N.AT, i)])))
    eng.assume(st, FA(1, lambda i: (z3.Implies(inr(0, i, n2 - k), z3.Select(M.AT, i) == z3.If(i < a, z3.Select(P.AT, i), z3.Select(P.AT, i + k))), [z3.Select(M.AT, i)])))
@lmodel('splice', 'splice_after')
def _(eng, fr, st, fn, av, loc, ins):
    after = 1 if basename(fn.demangled).endswith('_after') else 0
    S, T = of(st, av[0]), of(st, av[2]); v, w = LV(S, st.mem), LV(T, st.mem); ip = av[1]
    if len(av) < 4: raise Unsupported('splice of a whole list')
    if itlist(ip) is not S or any(itlist(x) is not T for x in av[3:]): raise Unsupported('iterator of another list')
    eng.oblige(st, 'splice:position-in-list', 'mem', z3.And(v.valid(ip), z3.BoolVal(True) if not after else zi(ip.idx) != S.END), loc)
    q = v.pos(ip) + after; p = w.pos(av[3]) + after
    if len(av) == 4:
        eng.oblige(st, 'splice:element-in-list', 'mem', z3.And(w.valid(av[3]), 0 <= p, p < w.n), loc)
        if S is not T: move_range(eng, st, S, q, T, p, p + 1)
        else: move_one(eng, st, S, simp(q), simp(p))
    else:
        if S is T: raise Unsupported('splice of a range within a list')
        b = w.pos(av[4]); eng.oblige(st, 'splice:range-in-list', 'mem', z3.And(w.valid(av[3]), w.valid(av[4]), 0 <= p, p <= b, b <= w.n), loc)
        move_range(eng, st, S, simp(q), T, simp(p), simp(b))
    return [(st, None)]
@lmodel('swap')
def _(eng, fr, st, fn, av, loc, ins):
    a, b = of(st, av[0]), of(st, av[1]); st.mem[a.id], st.mem[b.id] = st.mem[b.id], st.mem[a.id]; return [(st, None)]
@lmodel('merge')
def _(eng, fr, st, fn, av, loc, ins):
    S, T = of(st, av[0]), of(st, av[1]); v, w = LV(S, st.mem), LV(T, st.mem); m = eng.mode if eng.mode == 'stable' else 'plain'
    # the comparator means "goes strictly before"
    g = None
    for b in fn.order:
        for i in fn.blocks[b]:
            if i.op in ('call', 'invoke'):
                for nm in re.findall(r'@([\w.$]+)', i.text):
                    h = eng.m.funcs.get(nm)
                    if h is not None and (re.search(r'operator\(\)', h.demangled) or re.match(r'_ZN[KR]*[^ ]*cl(I|E|R)', h.demangled)) and len(h.params) == 3: g = h
    if g is None: raise Unsupported('comparator of merge')
    s1 = st.fork(); x, y = eng.fresh('x'), eng.fresh('y'); N = S.nodes; A = st.mem[N.id][0]
    eng.assume(s1, z3.And(x >= 0, y >= 0, x < N.hi, y < N.hi, sel(A, x) >= 0, sel(A, y) >= 0)); cmpo = av[2] if len(av) > 2 else None
    if cmpo is None: cmpo = Ptr(Obj('opaque', 'comparator')); s1.mem[cmpo.obj.id] = {}
    elif not isinstance(cmpo, Ptr) or '__comp.indirect_addr' not in ' '.join(i.text for i in fn.blocks[fn.order[0]]): o = Obj('opaque', 'comparator'); s1.mem[o.id] = {0: (('ptr',) if isinstance(cmpo, Ptr) else ('int', 64), cmpo)}; cmpo = Ptr(o)
    args = [cmpo, Ptr(N, x), Ptr(N, y)]; outs = eng.reg.builtin(eng, fr, s1, g, g.name, args, loc, ins) if g.decl else eng.run_function(g, args, s1, 1, ('merge-comparator',))
    for s2, r in outs:
        if r is EXC: continue
        eng.oblige_only(s2, 'merge:given-the-order-of-the-caller', 'func', zb(eng.asbool(r)) == (R(sel(A, x)) < R(sel(A, y))), loc)
    eng.oblige(st, 'merge:both-lists-sorted', 'func', z3.And(sorted_(m, v.E, 0, v.n), sorted_(m, w.E, 0, w.n)), loc)
    if m == 'stable': eng.oblige(st, 'merge:ghost-order', 'stab', z3.And(FA(2, lambda i, j: (z3.Implies(z3.And(inr(0, i, v.n), inr(0, j, w.n), R(sel(v.E, i)) == R(sel(w.E, j))), ordf(sel(v.E, i)) < ordf(sel(w.E, j))), [(pt(v.E, i), pt(w.E, j))]))), loc)
    O, Q = renew(eng, st, S, v.n + w.n); P, M = renew(eng, st, T, z3.IntVal(0)); k = next(eng.fresh_n); s, p = z3.Function('side!%d' % k, Int, z3.BoolSort()), z3.Function('src!%d' % k, Int, Int)
    eng.assume(st, FA(1, lambda i: (z3.Implies(inr(0, i, Q.n), z3.If(s(i), z3.And(inr(0, p(i), v.n), z3.Select(Q.AT, i) == z3.Select(v.AT, p(i))), z3.And(inr(0, p(i), w.n), z3.Select(Q.AT, i) == z3.Select(w.AT, p(i))))), [z3.Select(Q.AT, i)])))
    eng.assume(st, sorted_(m, Q.E, 0, Q.n))
    return [(st, None)]

# ------------------------------------------------------------------ contracts
class LLoop:
    """view of the list argument in a loop invariant"""
    def __new__(cls, L): S = of(L.st, L.ctx.p(0)); return LV(S, L.st.mem), LV(S, L.ctx.pre_mem)
def pos(L, v, name, k=None): return v.pos(L.v(name, k))
def common(L, its):
    v, o = LLoop(L)
    yield 'list', 'own', v.wf()
    yield 'same-nodes', same_nodes(v, o)
    for x in its: yield x + '-valid', 'mem', v.valid(L.v(x))
def same_nodes(v, o):
    def f(i):
        x = z3.Select(v.AT, i); k = z3.Select(o.POS, x); return z3.Implies(inr(0, i, v.n), z3.And(0 <= k, k < o.n, z3.Select(o.AT, k) == x)), [x]
    return FA(1, f)
class ListContract(Contract):
    """sorts a list by relinking its nodes"""
    props = ('C17',); lists = True; sized = False
    def has_mode(self, mode): return True
    def fwd(self, fn): return 'std::forward_list<' in fn.demangled.split('(', 1)[1]
    def setup(self, V, fn):
        N = V.elems('N', 0); V.eng.lnodes = N; S = mklist(V.eng, V.st, 'collection', self.fwd(fn)); o = Obj('scalar', 'collection', ty=None); V.st.mem[o.id] = {0: (('ptr',), Ptr(S))}
        g = {'collection': Ptr(o)}
        if self.sized: g['size'] = LV(S, V.st.mem).n
        return g
    def S(self, c): return of(c.st, c.p(0))
    def frame_free(self, c): return [self.S(c).id]
    def pre(self, c):
        v = LV(self.S(c), c.st.mem)
        if c.verifying: yield 'list', 'own', v.wf()
        yield 'elements-live', 'own', v.live()
        if self.sized: yield 'size', 'mem', c.i('size') == v.n
        if c.mode == 'stable': yield 'ghost-order', 'stab', stable_pre(v.E, 0, v.n)
    def effects(self, c):
        st, eng = c.st, c.eng; O, N = renew(eng, st, self.S(c)); p = z3.Function('p!%d' % next(eng.fresh_n), Int, Int)
        eng.assume(st, FA(1, lambda i: (z3.Implies(inr(0, i, N.n), z3.And(inr(0, p(i), N.n), z3.Select(N.AT, i) == z3.Select(O.AT, p(i)))), [z3.Select(N.AT, i)])))
    def post(self, c, ret):
        S = self.S(c); v = LV(S, c.st.mem)
        if c.verifying:
            o = LV(S, c.pre_mem)
            yield 'list', 'own', v.wf()
            yield 'same-length', v.n == o.n
            yield 'same-nodes', same_nodes(v, o)
        yield 'sorted', sorted_(c.mode, v.E, 0, v.n)
@contract
class ContainerAware(ListContract):
    """the adapted sorters, called with a comparison and a projection, one of them, or none"""
    fns = ('pub_full', 'pub_comp', 'pub_proj', 'pub_none')
@contract
class ListInsertionSort(ListContract):
    fns = ('cppsort::detail::list_insertion_sort',)
    def lp(L):
        v, o = LLoop(L); s = L.i('size'); yield from common(L, ['it'])
        yield 'size', z3.And(1 <= s, s <= v.n, pos(L, v, 'it') == s)
        yield 'rest', same_range(v.AT, o.AT, s, v.n)
        yield 'prefix', FA(1, lambda i: (z3.Implies(inr(0, i, s), z3.Select(o.POS, z3.Select(v.AT, i)) < s), [z3.Select(v.AT, i)]))
        yield 'sorted', sorted_(L.mode, v.E, 0, s)
    loops = {0: Loop(lp, lambda L: LLoop(L)[0].n - L.i('size'))}
@contract
class ListSelectionSort(ListContract):
    fns = ('cppsort::detail::list_selection_sort',)
    def lp(L):
        v, o = LLoop(L); s = pos(L, v, 'it'); yield from common(L, ['it'])
        yield 'position', z3.And(0 <= s, s <= v.n)
        yield 'sorted', sorted_(L.mode, v.E, 0, s)
        yield 'below-rest', all_le(L.mode, v.E, 0, s, v.E, s, v.n)
        if L.mode == 'stable': yield 'ghost-order', 'stab', stable_pre(v.E, s, v.n)
    loops = {0: Loop(lp, lambda L: LLoop(L)[0].n - pos(L, LLoop(L)[0], 'it'))}
@contract
class ListMergeSort(ListContract):
    fns = ('cppsort::detail::list_merge_sort',); rec_group = 'list_merge_sort'
    def decreases(self, c): return LV(self.S(c), c.st.mem).n
@contract
class FListMergeSort(ListContract):
    fns = ('cppsort::detail::flist_merge_sort',); rec_group = 'flist_merge_sort'; sized = True
    def decreases(self, c): return LV(self.S(c), c.st.mem).n
@contract
class FListInsertionSort(ListContract):
    fns = ('cppsort::detail::flist_insertion_sort',)
    def outer(L):
        v, o = LLoop(L); s = L.i('size'); yield from common(L, ['it'])
        yield 'size', z3.And(1 <= s, s <= v.n, pos(L, v, 'it') == s - 1)
        yield 'rest', same_range(v.AT, o.AT, s, v.n)
        yield 'prefix', FA(1, lambda i: (z3.Implies(inr(0, i, s), z3.Select(o.POS, z3.Select(v.AT, i)) < s), [z3.Select(v.AT, i)]))
        yield 'sorted', sorted_(L.mode, v.E, 0, s)
    def inner(L):
        v, o = LLoop(L); s = L.i('size'); q, k = pos(L, v, 'insertion_point'), L.i('search_size'); x = sel(v.E, s)
        yield 'insertion-point-valid', 'mem', v.valid(L.v('insertion_point'))
        yield 'range', z3.And(-1 <= q, k >= 0, q + k <= s - 1, s < v.n)
        yield 'before', FA(1, lambda i: (z3.Implies(inr(0, i, q + 1), R(sel(v.E, i)) <= R(x)), [pt(v.E, i)]))
        yield 'after', FA(1, lambda i: (z3.Implies(inr(q + 1 + k, i, s), R(sel(v.E, i)) > R(x)), [pt(v.E, i)]))
    loops = {0: Loop(outer, lambda L: LLoop(L)[0].n - L.i('size')), 1: Loop(inner, lambda L: L.i('search_size'))}
@contract
class FListSelectionSort(ListContract):
    fns = ('cppsort::detail::flist_selection_sort',)
    def outer(L):
        v, o = LLoop(L); s = pos(L, v, 'first') + 1; yield from common(L, ['first'])
        yield 'position', z3.And(0 <= s, s <= v.n)
        yield 'sorted', sorted_(L.mode, v.E, 0, s)
        yield 'below-rest', all_le(L.mode, v.E, 0, s, v.E, s, v.n)
        if L.mode == 'stable': yield 'ghost-order', 'stab', stable_pre(v.E, s, v.n)
    def inner(L):
        v, o = LLoop(L); f, i, m = pos(L, v, 'first'), pos(L, v, 'it'), pos(L, v, 'min_it')
        yield 'it-valid', 'mem', v.valid(L.v('it'))
        yield 'min-valid', 'mem', v.valid(L.v('min_it'))
        yield 'range', z3.And(f <= i, i < v.n, f <= m, z3.Or(m < i, z3.And(m == f, i == f)))
        yield 'first-minimum', FA(1, lambda j: (z3.Implies(inr(f + 1, j, i + 1), z3.And(R(sel(v.E, m + 1)) <= R(sel(v.E, j)), z3.Implies(j < m + 1, R(sel(v.E, m + 1)) < R(sel(v.E, j))))), [pt(v.E, j)]))
    loops = {0: Loop(outer, lambda L: LLoop(L)[0].n - pos(L, LLoop(L)[0], 'first')), 1: Loop(inner, lambda L: LLoop(L)[0].n - pos(L, LLoop(L)[0], 'it'))}

class OnIterators(Contract):
    props = ('C17',); lists = True
    def has_mode(self, mode): return True
    def setup(self, V, fn):
        N = V.elems('N', 0); V.eng.lnodes = N; self.sv = S = mklist(V.eng, V.st, 'collection', False)
        g = {'first': Ptr(S.it, z3.Int('first'))}; self.more_args(V, g, S); return g
    def v(self, c): return LV(itlist(c.p('first')), c.st.mem)
    def result(self, c): v = self.v(c); return v.at(c.eng.fresh('q'), c.st, c.eng)
@contract
class ListUpperBoundN(OnIterators):
    """the first position in [first,first+size) whose element goes after value"""
    fns = ('cppsort::detail::upper_bound_n',)
    def more_args(self, V, g, S): g['size'] = V.int('size', 0); g['value'] = V.elem('value')
    def pre(self, c):
        v = self.v(c); f, n = v.pos(c.p('first')), c.i('size')
        yield 'valid-range', 'mem', z3.And(v.valid(c.p('first')), n >= 0, f + n <= v.n)
        if c.verifying: yield 'list', 'own', v.wf()
        yield 'live', 'own', z3.And(v.live(), c.elem(c.p('value')) >= 0)
        yield 'sorted', sorted_('plain', v.E, f, f + n)
    def post(self, c, ret):
        v = self.v(c); f, n, x = v.pos(c.p('first')), c.i('size'), zi(c.elem(c.p('value'))); q = v.pos(ret)
        yield 'result-in-range', z3.And(zb(ret.obj is c.p('first').obj), v.valid(ret), f <= q, q <= f + n)
        yield 'before-result', FA(1, lambda i: (z3.Implies(inr(f, i, q), R(sel(v.E, i)) <= R(x)), [pt(v.E, i)]))
        yield 'from-result', FA(1, lambda i: (z3.Implies(inr(q, i, f + n), R(sel(v.E, i)) > R(x)), [pt(v.E, i)]))
def lower_loop(L):
    """lower_bound_n, when called by upper_bound_n"""
    c = L.ctx; v = LV(itlist(c.p('first')), L.st.mem); f0, l0, x = v.pos(c.p('first')), v.pos(c.p('first')) + c.i('size'), zi(L.elem(c.p('value'))); f, n = v.pos(L.v('first')), L.i('size')
    yield 'range', z3.And(v.valid(L.v('first')), f0 <= f, 0 <= n, f + n <= l0)
    yield 'before', FA(1, lambda i: (z3.Implies(inr(f0, i, f), R(sel(v.E, i)) <= R(x)), [pt(v.E, i)]))
    yield 'after', FA(1, lambda i: (z3.Implies(inr(f + n, i, l0), R(sel(v.E, i)) > R(x)), [pt(v.E, i)]))
REG.list_loops['cppsort::detail::lower_bound_n'] = {0: Loop(lower_loop, lambda L: L.i('size'))}
@contract
class ListMinElement(OnIterators):
    fns = ('cppsort::detail::min_element', 'cppsort::detail::unchecked_min_element')
    def more_args(self, V, g, S): g['last'] = Ptr(S.it, z3.Int('last'))
    def pre(self, c):
        v = self.v(c); f, l = v.pos(c.p('first')), v.pos(c.p('last'))
        yield 'valid-range', 'mem', z3.And(zb(c.p('last').obj is c.p('first').obj), v.valid(c.p('first')), v.valid(c.p('last')), f <= l)
        if 'unchecked' in basename(c.fn.demangled): yield 'not-empty', 'mem', f < l
        if c.verifying: yield 'list', 'own', v.wf()
        yield 'live', 'own', v.live()
    def post(self, c, ret):
        v = self.v(c); f, l = v.pos(c.p('first')), v.pos(c.p('last')); q = v.pos(ret)
        yield 'result-in-range', z3.And(zb(ret.obj is c.p('first').obj), v.valid(ret), f <= q, z3.Or(q < l, f == l), q <= l)
        yield 'first-minimum', z3.Implies(f < l, FA(1, lambda j: (z3.Implies(inr(f, j, l), z3.And(R(sel(v.E, q)) <= R(sel(v.E, j)), z3.Implies(j < q, R(sel(v.E, q)) < R(sel(v.E, j))))), [pt(v.E, j)])))
    def lp(L):
        c = L.ctx; v = LV(itlist(c.p('first')), L.st.mem); f0, l0 = v.pos(c.p('first')), v.pos(c.p('last')); f, m = v.pos(L.v('first')), v.pos(L.v('min'))
        yield 'range', z3.And(v.valid(L.v('first')), v.valid(L.v('min')), f0 <= f, f < l0, f0 <= m, m <= f)
        yield 'first-minimum', FA(1, lambda j: (z3.Implies(inr(f0, j, f + 1), z3.And(R(sel(v.E, m)) <= R(sel(v.E, j)), z3.Implies(j < m, R(sel(v.E, m)) < R(sel(v.E, j))))), [pt(v.E, j)]))
    loops = {0: Loop(lp, lambda L: LV(itlist(L.ctx.p('first')), L.st.mem).n - LV(itlist(L.ctx.p('first')), L.st.mem).pos(L.v('first')))}
