"""Contracts on the number of operations (C20, C21): ghost counters of comparisons, swaps and moves of elements.
`bits(n)` is the number of binary digits of n (floor(log2 n) + 1): bounds are stated with it."""
from spec import *
import basic as B, ranges as RG, perm as PM, merges as MG
bits = z3.Function('bits', Int, Int)
def unf(X, *ts):
    """the definition of bits, at some terms"""
    for t in ts:
        t = zi(t); X.eng.assume(X.st, z3.And(z3.Implies(t <= 0, bits(t) == 0), z3.Implies(t >= 1, z3.And(bits(t) == bits(t / 2) + 1, bits(t) >= 1))))
def mono(X, *ts):
    """bits is monotone (lemma proved by induction, see Lemmas), at consecutive pairs of terms"""
    ts = [zi(t) for t in ts]
    for a, b in zip(ts, ts[1:]): X.eng.assume(X.st, z3.And(z3.Implies(a <= b, bits(a) <= bits(b)), bits(a) >= 0, bits(b) >= 0))
def lemma_mono(c):
    j, x, k, y = z3.Ints('lm_j lm_x lm_k lm_y')
    d = lambda t: z3.And(z3.Implies(t <= 0, bits(t) == 0), z3.Implies(t >= 1, bits(t) == bits(t / 2) + 1))
    ih = z3.ForAll([k, y], z3.Implies(z3.And(k < j, 0 <= y, y <= k), z3.And(bits(y) <= bits(k), bits(y) >= 0)), patterns=[z3.MultiPattern(bits(k), bits(y))])
    c.eng.oblige_only(c.st, 'lemma:bits-is-monotone', 'cost', z3.Implies(z3.And(ih, d(j), d(x), 0 <= x, x <= j), z3.And(bits(x) <= bits(j), bits(x) >= 0)))
def T(k): return 'at-most-this-many-' + {'cmp': 'comparisons', 'swaps': 'exchanges', 'moves': 'element-moves'}[k]
def bound(X, k, e): return T(k), (X.delta(k) if hasattr(X, 'delta') else X.cnt(k)) <= e
def cost(cls, fn, *props, loops=None):
    """attach a bound (and invariants over the counters) to a contract"""
    def post(self, c, ret=None):
        if c.verifying: lemma_mono(c)
        return list(fn(c, ret))
    cls.cost = post; cls.cost_props = props
    for k, f in (loops or {}).items(): cls.loops[k].cost = f
def only(c, cmp=None, swaps=None, moves=None):
    for k, e in (('cmp', cmp), ('swaps', swaps), ('moves', moves)):
        if e is not None: yield bound(c, k, e)

# ------------------------------------------------------------------ heaps
def _sd(c, ret):
    n = c.i('len'); s = c.i('start') - c.i('first')
    unf(c, n, s + 1); mono(c, 0, s + 1, n); yield bound(c, 'cmp', 3 * bits(n))
def _sdl(L):
    f, n, s0, c = L.ai('first'), L.ai('len'), L.ai('start'), L.i('child')
    unf(L, c + 1, s0 - f + 1); mono(L, s0 - f + 1, (c + 1) / 2, c + 1, n); mono(L, 0, s0 - f + 1); yield 'comparisons-by-level', L.cnt('cmp') <= 3 * (bits(c + 1) - bits(s0 - f + 1))
cost(B.SiftDown, _sd, 'C21', loops={0: _sdl})
def _fs(c, ret): n = c.i('len'); mono(c, 0, n); yield bound(c, 'cmp', 2 * bits(n))
def _fsl(L):
    f, n, c = L.ai('first'), L.ai('len'), L.i('child')
    unf(L, c + 1, 2*c + 2, 2*c + 3); mono(L, 0, c + 1, n); mono(L, 2*c + 3, n); mono(L, 2*c + 2, n); yield 'comparisons-by-level', L.cnt('cmp') <= 2 * bits(c + 1)
cost(B.FloydSiftDown, _fs, 'C21', loops={0: _fsl})
def _ph(c, ret): n = c.i('len'); unf(c, n); mono(c, 0, n / 2, n); yield bound(c, 'cmp', 2 * bits(n))
def _phl(L):
    l0 = L.ai('last') - L.ai('first'); n = L.i('len'); unf(L, n + 1, l0, l0 / 2); mono(L, 0, (n + 1) / 2, n + 1, l0 / 2); yield 'comparisons-by-level', L.cnt('cmp') + 2 * bits(n + 1) <= 2 * bits(l0)
cost(B.PushHeap, _ph, 'C21', loops={0: _phl})
def _poph(c, ret): n = c.i('len'); h = c.eng.fresh('h'); mono(c, 0, n); yield bound(c, 'cmp', 4 * bits(n))
cost(B.PopHeap, _poph, 'C21')
B.PopHeap.after = dict(getattr(B.PopHeap, 'after', None) or {}, PushHeap=lambda eng, fr, st, cc, ret: (mono(cc, 0, cc.i('len'), fr.ctx.i('len')), ())[1])
def rng(c): return c.i('last') - c.i('first')
def _mh(c, ret): n = rng(c); mono(c, 0, n); yield bound(c, 'cmp', 3 * n * bits(n))
def _mhl(L):
    n = L.ai('last') - L.ai('first'); s = L.i('start'); mono(L, 0, n); yield 'comparisons-so-far', L.cnt('cmp') <= 3 * (n - 1 - s) * bits(n)
cost(B.MakeHeap, _mh, 'C21', loops={0: _mhl})
def _sh(c, ret): n = rng(c); mono(c, 0, n); yield bound(c, 'cmp', 4 * n * bits(n))
def _shl(L):
    N = L.ai('last') - L.ai('first'); n = L.i('n'); mono(L, 0, n, N)
    L.eng.assume(L.st, z3.Implies(n <= N, z3.And(bits(n) <= bits(N))))
    yield 'comparisons-so-far', L.cnt('cmp') <= 4 * (N - n) * bits(N)
cost(B.SortHeap, _sh, 'C21', loops={0: _shl})
def _hs(c, ret): n = rng(c); mono(c, 0, n); yield bound(c, 'cmp', 16 * n * bits(n))
cost(B.HeapSort, _hs, 'C21')
def mulmono(X, a, x, y):
    """multiplication by a natural number is monotone"""
    a, x, y = zi(a), zi(x), zi(y); X.eng.assume(X.st, z3.Implies(z3.And(a >= 0, x <= y), a * x <= a * y))
# d-ary heaps: at most D comparisons and one exchange by level
def _sdd(c, ret): n = rng(c); D = B.getD(c.fn); mono(c, 0, n); yield bound(c, 'cmp', (D + 2) * bits(n))
def _sddl(L):
    D = B.getD(L.fr.fn); f, l, s0, s = L.ai('first'), L.ai('last'), L.ai('it'), L.i('it')
    p = s - f + 1; par = L.eng.fresh('parent')
    unf(L, p, s0 - f + 1); mono(L, 0, s0 - f + 1, p, l - f)
    h = getattr(L, 'head', None)
    if h is not None:    # one level down: the index at least doubles
        q = h.i('it') - f + 1; unf(L, q, 2 * q); mono(L, q, 2 * q, p)
    yield 'comparisons-by-level', L.cnt('cmp') <= (D + 2) * (bits(p) - 1)
# (the last level costs at most one more round of D comparisons)
cost(B.SiftDownD, _sdd, 'C21', loops={0: _sddl})
def _sud(c, ret): n = c.i('it') - c.i('first') + 1; mono(c, 0, n); yield bound(c, 'cmp', bits(n))
def _sudl(L):
    f, s0, s = L.ai('first'), L.ai('it'), L.i('it'); p = s - f + 1
    unf(L, p, s0 - f + 1); mono(L, 0, p, s0 - f + 1)
    h = getattr(L, 'head', None)
    if h is not None: q = h.i('it') - f + 1; unf(L, q); mono(L, p, q / 2)
    yield 'comparisons-by-level', L.cnt('cmp') + bits(p) <= bits(s0 - f + 1)
cost(B.SiftUpD, _sud, 'C21', loops={0: _sudl})
def _pd(c, ret): n = rng(c); D = B.getD(c.fn); mono(c, 0, n - 1, n); yield bound(c, 'cmp', (D + 2) * bits(n))
cost(B.PopDHeap, _pd, 'C21')
def _md(c, ret): n = rng(c); mono(c, 0, n); yield bound(c, 'cmp', n * bits(n))
def _mdl(L):
    f, l, s = L.ai('first'), L.ai('last'), L.i('it'); n = l - f; mono(L, 0, s - f, n); mono(L, s - f - 1, n); yield 'comparisons-so-far', L.cnt('cmp') <= (s - f - 1) * bits(n)
cost(B.MakeDHeap, _md, 'C21', loops={0: _mdl})
def _ssd(c, ret): n = rng(c); D = B.getD(c.fn); mono(c, 0, n); yield bound(c, 'cmp', (D + 2) * n * bits(n))
def _ssdl(L):
    f, l0, l = L.ai('first'), L.ai('last'), L.i('it'); D = B.getD(L.fr.fn); n = l0 - f; mono(L, 0, l - f, n); yield 'comparisons-so-far', L.cnt('cmp') <= (D + 2) * (l0 - l) * bits(n)
cost(B.SortDHeap, _ssd, 'C21', loops={0: _ssdl})

# ------------------------------------------------------------------ elementary sorts and searches
def _me(c, ret): n = rng(c); yield bound(c, 'cmp', z3.If(n > 0, n - 1, 0)); yield bound(c, 'swaps', 0); yield bound(c, 'moves', 0)
def _mel(L): f0, f = L.ai('first'), L.i('first'); yield 'comparisons-so-far', L.cnt('cmp') <= f - f0; yield 'no-element-moved', z3.And(L.cnt('moves') == 0, L.cnt('swaps') == 0)
cost(B.UncheckedMinElement, _me, 'C20', 'C21', loops={0: _mel})
def _ss(c, ret): n = rng(c); yield bound(c, 'swaps', n); yield bound(c, 'moves', 0)
def _ssl(L): f, s = L.ai('first'), L.i('it'); yield 'one-exchange-by-element', L.cnt('swaps') <= s - f; yield 'no-other-move', L.cnt('moves') == 0
cost(B.SelectionSort, _ss, 'C20', loops={0: _ssl})
def was_sorted(X, mk):
    """a ghost flag which is set only if the unit was given a sorted range"""
    c = X.ctx if hasattr(X, 'fr') else X
    b = c.aux.get('was_sorted')
    if b is None: b = c.aux['was_sorted'] = c.eng.fresh('was_sorted', z3.BoolSort())
    X.eng.assume(X.st, z3.Implies(b, mk)); return b
def srt0(c): return sorted_('plain', c.A_old(c.p('first')), c.i('first'), c.i('last'))
def _is(c, ret):
    n = rng(c); yield 'at-most-quadratic-comparisons', 2 * c.delta('cmp') <= n * n
    s = was_sorted(c, srt0(c)) if c.verifying else srt0(c)
    yield 'linear-on-sorted-input:comparisons', z3.Implies(s, c.delta('cmp') <= n)
    yield 'linear-on-sorted-input:nothing-moved', z3.Implies(s, z3.And(c.delta('moves') == 0, c.delta('swaps') == 0))
def _isl0(L):
    f, c, l = L.ai('first'), L.i('cur'), L.ai('last'); yield 'comparisons-so-far', 2 * L.cnt('cmp') <= (c - f) * (c - f)
    s = was_sorted(L, srt0(L.ctx)); A, O = L.A(L.obj('cur')), L.A0(L.arg('first'))
    yield 'sorted-input', z3.Implies(s, z3.And(L.cnt('cmp') <= c - f, L.cnt('moves') == 0, L.cnt('swaps') == 0))
    yield 'sorted-input-untouched', FA(1, lambda i: (z3.Implies(z3.And(s, inr(f, i, l)), sel(A, i) == sel(O, i)), [pt(A, i)]))
def _isl1(L):
    f, c, s = L.ai('first'), L.i('cur'), L.i('sift'); b = was_sorted(L, srt0(L.ctx))
    yield 'comparisons-of-this-element', L.cnt('cmp') <= L.entry.cnt('cmp') + (c - s); yield 'input-not-sorted', z3.Not(b)
cost(B.InsertionSort, _is, 'C21', loops={0: _isl0, 1: _isl1})
def _bs(c, ret): n = c.i('size'); yield 'at-most-quadratic-comparisons', 2 * c.delta('cmp') <= n * n
def _bsl0(L): n = L.ai('size'); s = L.i('size'); yield 'comparisons-so-far', 2 * L.cnt('cmp') <= (n - s) * (n + s)
def _bsl1(L): yield 'comparisons-of-this-round', L.cnt('cmp') <= L.entry.cnt('cmp') + L.i('i')
cost(B.BubbleSort, _bs, 'C21', loops={0: _bsl0, 1: _bsl1})
def _i3(c, ret): yield bound(c, 'cmp', 3); yield bound(c, 'swaps', 3); yield bound(c, 'moves', 0)
cost(B.IterSort3, _i3, 'C21')
def nomove(X): return 'no-element-moved', z3.And(X.delta('moves') == 0, X.delta('swaps') == 0) if hasattr(X, 'delta') else z3.And(X.cnt('moves') == 0, X.cnt('swaps') == 0)
def _lb(c, ret):
    f, l = REGS(c).bounds(c); unf(c, l - f); mono(c, 0, l - f); yield bound(c, 'cmp', bits(l - f)); yield nomove(c)
def REGS(c): return c.contract
def _lbl(L):
    n0, n = L.ai('size'), L.i('size'); unf(L, n, n0); mono(L, 0, n, n0); mono(L, n, n / 2, n - n / 2 - 1)
    h = getattr(L, 'head', None)
    if h is not None: q = h.i('size'); unf(L, q); mono(L, 0, n, q / 2)
    yield 'comparisons-by-halving', L.cnt('cmp') + bits(n) <= bits(n0); yield nomove(L)
cost(RG.LowerBoundN, _lb, 'C21', loops={0: _lbl})
def _lml(L):
    n0, n = L.ai('size'), L.i('size'); unf(L, n - 1, n0 - 1); mono(L, 0, n - 1, n0 - 1)
    h = getattr(L, 'head', None)
    if h is not None: q = h.i('size'); unf(L, q - 1); mono(L, 0, n - 1, (q - 1) / 2)
    yield 'comparisons-by-halving', L.cnt('cmp') + bits(n - 1) <= bits(n0 - 1); yield nomove(L)
def _lm(c, ret):
    f, l = c.contract.bounds(c); unf(c, l - f - 1, l - f); mono(c, 0, l - f - 1, l - f); yield bound(c, 'cmp', bits(l - f) + 1); yield nomove(c)
cost(RG.LowerMonoboundN, _lm, 'C21', loops={0: _lml})
for k in (RG.LowerBound, RG.UpperBoundN, RG.UpperBound): cost(k, _lb, 'C21')
def _er(c, ret): f, l = c.contract.bounds(c); unf(c, l - f); mono(c, 0, l - f); yield bound(c, 'cmp', 4 * bits(l - f)); yield nomove(c)
def _erl(L):
    n0 = L.ai('last') - L.ai('first'); n = L.i('len'); unf(L, n, n0); mono(L, 0, n / 2, n, n0); mono(L, 0, n - n / 2 - 1, n / 2)
    h = getattr(L, 'head', None)
    if h is not None: q = h.i('len'); unf(L, q); mono(L, 0, n, q / 2)
    yield 'comparisons-by-halving', L.cnt('cmp') + 2 * bits(n) <= 2 * bits(n0); yield nomove(L)
cost(RG.EqualRange, _er, 'C21', loops={0: _erl})
def _su(c, ret): n = rng(c); yield bound(c, 'cmp', n); yield nomove(c)
cost(RG.IsSortedUntil, _su, 'C21', loops={0: lambda L: [('comparisons-so-far', L.cnt('cmp') <= L.i('next') - L.ai('first')), nomove(L)]})
# ------------------------------------------------------------------ rearrangements: no comparison at all
for k, ls in ((RG.Reverse, (0,)), (RG.SwapRanges, (0,)), (RG.Rotate, (0, 1)), (RG.MoveForward, (0,)), (RG.MoveBackward, (0,)), (MG.MoveReversed, (0,)), (MG.DestroyN, (0,)), (MG.UninitializedMove, ())):
    nc = lambda c, ret: [('no-comparison', c.delta('cmp') == 0)]
    cost(k, nc, 'C21', loops={l: (lambda L: [('no-comparison', L.cnt('cmp') == 0)]) for l in ls})
# ------------------------------------------------------------------ merging: linear with storage for the shorter half
def _mm(c, ret): oA, oB, oD, a, b, x, y, r = c.contract.g(c); yield bound(c, 'cmp', (b - a) + (y - x))
cost(MG.MergeMove, _mm, 'C21', loops={0: lambda L: [('comparisons-so-far', L.cnt('cmp') <= (L.i('first1') - L.ai('first1')) + (L.i('first2') - L.ai('first2')))]})
def _him(c, ret): rev, oB, oA, a, b, x, y, g0, g1 = c.contract.g(c); yield bound(c, 'cmp', (b - a) + (y - x))
def _himl(L):
    rev, oB, oA, a, b, x, y, g0, g1 = MG.HalfInplaceMerge.g(REGC(MG.HalfInplaceMerge), L.ctx)
    f1, f2 = [MG.idx(MG.litp(L, n)) for n in ('first1', 'first2')]
    yield 'comparisons-so-far', L.cnt('cmp') <= ((b - f1) + (y - f2) if rev else (f1 - a) + (f2 - x))
cost(MG.HalfInplaceMerge, _him, 'C21', loops={0: _himl, 1: _himl})
def _bim(c, ret): yield bound(c, 'cmp', c.i('len1') + c.i('len2'))
cost(MG.BufferedInplaceMerge, _bim, 'C21')
def fits(X, n1='len1', n2='len2', b='buff_size'):
    g = (lambda k: X.ai(k)) if hasattr(X, 'fr') else (lambda k: X.i(k)); return z3.Or(g(n1) <= g(b), g(n2) <= g(b)) if n2 else g(n1) <= g(b)
LIN = 'linear-with-storage-for-a-half'
def _rec(c, ret): yield LIN, z3.Implies(fits(c), c.delta('cmp') <= c.i('len1') + c.i('len2'))
def first_round(names):
    def f(L):
        yield 'first-round', z3.Implies(fits(L), z3.And(L.cnt('cmp') == 0, *[L.i(n) == L.ai(n) for n in names]))
    return f
cost(MG.Symmerge, _rec, 'C21', loops={0: first_round(('first', 'middle', 'len1', 'len2'))})
cost(MG.RecmergeBidirectional, _rec, 'C21', loops={0: first_round(('first', 'middle', 'last', 'len1', 'len2')), 1: lambda L: [('not-with-enough-storage', z3.Not(fits(L)))]})
def _recf(c, ret): yield LIN, z3.Implies(c.i('n0') <= c.i('buff_size'), c.delta('cmp') <= c.i('n0') + c.i('n1'))
cost(MG.RecmergeForward, _recf, 'C21')
cost(MG.SymmergeBsearch, lambda c, ret: [bound(c, 'cmp', z3.If(c.i('r') > c.i('l'), c.i('r') - c.i('l'), 0))], 'C21', loops={0: lambda L: [('comparisons-so-far', L.cnt('cmp') <= (L.i('l') - L.ai('l')) + (L.ai('r') - L.i('r')))]})
cost(MG.InplaceMergeBuffered, _rec, 'C21')
def _gtb(c, ret):
    n = zi(c.eng.num(ret[1])); yield 'no-comparison', c.delta('cmp') == 0
    yield 'all-the-storage-asked-for-unless-an-allocation-fails', z3.Implies(z3.And(c.delta('nomem') == 0, 0 < c.i('count'), c.i('count') <= MAXN, c.i('count') > c.i('min_count')), n == c.i('count'))
cost(MG.GetTemporaryBuffer, _gtb, 'C21', loops={0: lambda L: [('first-attempt', z3.And(L.cnt('cmp') == 0, L.cnt('nomem') >= 0, z3.Implies(z3.And(L.cnt('nomem') == 0, L.ai('count') <= MAXN), L.i('count') == L.ai('count'))))]})
def merge_bound(c, n):
    """n (3 ceil(log2 n) + 20), unless an allocation failed"""
    a, b = n / 2, n - n / 2; Bn = bits(n - 1)
    unf(c, n - 1); mono(c, a - 1, (n - 1) / 2); mono(c, 0, b - 1); mono(c, 0, n - 1)
    if c.verifying:
        mulmono(c, a, bits(a - 1), Bn - 1); mulmono(c, b, bits(b - 1), Bn - 1)
        mulmono(c, n, 0, Bn); mulmono(c, n, n, 40)
    return z3.Or(c.delta('nomem') > 0, c.delta('cmp') <= 3 * (n * Bn) + 20 * n)
def _ms(c, ret): yield 'n-log-n-comparisons-with-storage', merge_bound(c, c.i('size'))
cost(MG.MergeSortImpl, _ms, 'C21', loops={0: lambda L: [('comparisons-so-far', L.cnt('cmp') <= L.entry.cnt('cmp') + (L.i('first') - L.ai('first')))]})
cost(MG.MergeSort, _ms, 'C21')
# ------------------------------------------------------------------ applying a permutation: cycles with one temporary
disp = z3.Function('displaced', z3.ArraySort(Int, Int), Int, Int)     # number of k < m with I[k] != k
def disp_def(X, I, n):
    """facts about `displaced` (each an instance of lemma_disp): bounds"""
    X.eng.assume(X.st, z3.And(disp(I, n) >= 0, z3.Implies(n >= 0, disp(I, n) <= n)))
def lemma_disp(c):
    """by induction: displaced is at most m, and putting k at k lowers it by one exactly when k was displaced and k < m"""
    I = z3.Const('ld_I', z3.ArraySort(Int, Int)); m, k = z3.Ints('ld_m ld_k'); S = z3.Store(I, k, k)
    d = lambda A: z3.And(disp(A, 0) == 0, z3.Implies(m >= 0, disp(A, m + 1) == disp(A, m) + z3.If(sel(A, m) != m, 1, 0)))
    P = lambda m: z3.And(disp(I, m) >= 0, disp(I, m) <= m, disp(S, m) == disp(I, m) - z3.If(z3.And(0 <= k, k < m, sel(I, k) != k), 1, 0))
    c.eng.oblige_only(c.st, 'lemma:displaced(base)', 'cost', z3.Implies(z3.And(disp(I, 0) == 0, disp(S, 0) == 0), P(z3.IntVal(0))))
    c.eng.oblige_only(c.st, 'lemma:displaced(step)', 'cost', z3.Implies(z3.And(m >= 0, d(I), d(S), P(m)), P(m + 1)))
def disp_stores(X, I, n):
    """the lemma at each store on the way to the current array of indices"""
    while z3.is_store(I):
        J, k, v = I.arg(0), I.arg(1), I.arg(2)
        X.eng.assume(X.st, z3.Implies(z3.And(v == k, n >= 0), disp(I, n) == disp(J, n) - z3.If(z3.And(0 <= k, k < n, sel(J, k) != k), 1, 0))); I = J
    disp_def(X, I, n)
def pe(L):
    c = L.ctx if hasattr(L, 'fr') else L; n = zi(c.p(1).idx); I = L.A(c.p(2)); I0 = c.pre_mem[c.p(2).obj.id][0]
    disp_stores(L, I, n); disp_def(L, I0, n); return c, n, I, I0
def _ap(c, ret):
    if c.verifying: lemma_disp(c)
    _, n, I, I0 = pe(c); yield 'at-most-three-moves-by-two-displaced-elements', z3.And(2 * c.delta('moves') <= 3 * disp(I0, n), disp(I0, n) <= n); yield 'no-exchange', c.delta('swaps') == 0
def _apl(k):
    def f(L):
        c, n, I, I0 = pe(L); yield 'no-exchange', L.cnt('swaps') == 0
        if k == 0: yield 'moves-by-placed-elements', 2 * L.cnt('moves') <= 3 * (disp(I0, n) - disp(I, n))
        else:
            e = L.entry.cnt('moves'); Ie = L.entry.A(c.p(2)); cur = L.i('current_idx')
            yield 'one-move-by-placed-element', z3.And(L.cnt('moves') == e + (disp(Ie, n) - disp(I, n)), disp(Ie, n) >= disp(I, n))
    return f
cost(PM.ApplyPermutation, _ap, 'C20', loops={0: _apl(0), 1: _apl(1)})
