"""Specification language: contracts, loop annotations, builtin models, registry."""
import re, json, os
import z3
import ir
from ir import basename
from sym import *
import sym

# ------------------------------------------------------------------ formula helpers
_q = itertools.count()
def FA(n, f):
    """forall n integers; f returns (body, patterns)"""
    vs = [z3.Int('q%d' % next(_q)) for _ in range(n)]
    body, pats = f(*vs)
    if isinstance(body, bool): return body
    ps = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats if all(_patok(x) for x in (p if isinstance(p, (list, tuple)) else [p]))]
    return z3.ForAll(vs, body, patterns=ps)
def _has_ite(e, seen):
    if e.get_id() in seen: return False
    seen.add(e.get_id())
    return (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE) or any(_has_ite(x, seen) for x in e.children())
def _patok(p): return not _has_ite(p, set()) if z3.is_expr(p) else True
class Hole:
    """array A seen with the value `v` in place of the (moved-from) slot `s`"""
    def __init__(self, A, *subst): self.A = A; self.subst = subst
    def at(self, i):
        e = z3.Select(self.A, i)
        for s, v in self.subst: e = z3.If(i == zi(s), zi(v), e)
        return e
class Via(Hole):
    """the elements of A at the positions listed by P"""
    def __init__(self, A, P): self.A = P; self.E = A
    def at(self, i): return z3.Select(self.E, z3.Select(self.A, i))
def sel(A, i): return A.at(zi(i)) if isinstance(A, Hole) else z3.Select(A, zi(i))
def pt(A, i): return z3.Select(A.A if isinstance(A, Hole) else A, zi(i))
def inr(lo, i, hi): return z3.And(zi(lo) <= i, i < zi(hi))
def live(A, lo, hi, but=None):
    def f(i):
        c = inr(lo, i, hi)
        if but is not None: c = z3.And(c, *[i != zi(b) for b in (but if isinstance(but, (list, tuple)) else [but])])
        return z3.Implies(c, sel(A, i) >= 0), [pt(A, i)]
    return FA(1, f)
def raw(A, lo, hi): return FA(1, lambda i: (z3.Implies(inr(lo, i, hi), sel(A, i) == RAW), [pt(A, i)]))
def moved(A, lo, hi): return FA(1, lambda i: (z3.Implies(inr(lo, i, hi), sel(A, i) == MOVED), [pt(A, i)]))
def nonraw(A, lo, hi): return FA(1, lambda i: (z3.Implies(inr(lo, i, hi), sel(A, i) >= MOVED), [pt(A, i)]))
def R(x): return rk(zi(x))
def le_u(a, b): return R(a) <= R(b)
def le_s(a, b):
    """before-or-equal in the stable (rank, original position) order"""
    return z3.Or(R(a) < R(b), z3.And(R(a) == R(b), ordf(zi(a)) < ordf(zi(b))))
def le(mode, a, b): return le_s(a, b) if mode == 'stable' else le_u(a, b)
def sorted_(mode, A, lo, hi):
    if mode == 'stable':
        return FA(2, lambda i, j: (z3.Implies(z3.And(zi(lo) <= i, i < j, j < zi(hi)), le_s(sel(A, i), sel(A, j))), [(pt(A, i), pt(A, j))]))
    return FA(2, lambda i, j: (z3.Implies(z3.And(zi(lo) <= i, i <= j, j < zi(hi)), le_u(sel(A, i), sel(A, j))), [(pt(A, i), pt(A, j))]))
def stable_pre(A, lo, hi):
    """equivalent elements appear in ascending ghost order"""
    return FA(2, lambda i, j: (z3.Implies(z3.And(zi(lo) <= i, i < j, j < zi(hi), R(sel(A, i)) == R(sel(A, j))), ordf(sel(A, i)) < ordf(sel(A, j))), [(pt(A, i), pt(A, j))]))
def same_range(A, B, lo, hi):
    """A and B agree on [lo,hi)"""
    return FA(1, lambda i: (z3.Implies(inr(lo, i, hi), sel(A, i) == sel(B, i)), [pt(A, i)]))
def all_le(mode, A, l1, h1, B, l2, h2):
    """every element of A[l1,h1) comes before every element of B[l2,h2)"""
    return FA(2, lambda i, j: (z3.Implies(z3.And(inr(l1, i, h1), inr(l2, j, h2)), le(mode, sel(A, i), sel(B, j))), [(pt(A, i), pt(B, j))]))
def allv(A, lo, hi, pred):
    return FA(1, lambda i: (z3.Implies(inr(lo, i, hi), pred(sel(A, i))), [pt(A, i)]))
def alli(A, lo, hi, pred):
    return FA(1, lambda i: (z3.Implies(inr(lo, i, hi), pred(i)), [pt(A, i)]))

_ind = itertools.count()
def induct(eng, st, name, lo, hi, P, pats, hint=None):
    """lemma by strong induction on lo <= j < hi: the step is an obligation, the conclusion is then available"""
    j = z3.Int('ind%d' % next(_ind))
    ih = FA(1, lambda k: (z3.Implies(z3.And(zi(lo) <= k, k < j), P(k)), [p(k) for p in pats]))
    g = P(j)
    if hint is not None:
        hs = hint(j); g = z3.And(*[z3.Implies(z3.And(*hs[:k]) if k else z3.BoolVal(True), h) for k, h in enumerate(hs)], z3.Implies(z3.And(*hs), g))
    eng.oblige_only(st, 'lemma:' + name, 'func', z3.Implies(z3.And(inr(lo, j, hi), ih), g))
    eng.assume(st, FA(1, lambda k: (z3.Implies(inr(lo, k, hi), P(k)), [p(k) for p in pats])))

class Loop:
    """loop annotation: inv(L) yields (name, formula) or (name, tag, formula); variant(L) -> Int or tuple"""
    def __init__(self, inv, variant=None, auto=True): self.inv = inv; self.variant = variant; self.auto = auto
    when = None             # the loop is unrolled where this does not hold
    cost = None             # invariants over the operation counters
    def invs(self, L):
        if L.eng.costs and self.cost is not None:
            for n, f in self.cost(L): yield n, 'cost', f
        for x in self.inv(L):
            if len(x) == 2: yield x[0], 'func', x[1]
            else: yield x
    def var(self, L): return None if self.variant is None else self.variant(L)

class Contract:
    fns = ()
    trusted = False
    stable = False          # has a stable-mode contract
    modes = ('plain',)
    loops = {}
    decreases = None
    maxdepth = None
    props = ()
    variants = (None,)
    @property
    def name(self): return type(self).__name__
    def matches(self, fn, eng): return True
    def has_mode(self, mode): return mode == 'plain'
    def derive(self, c): pass
    def verify_here(self, fn): return True
    def pre(self, c): return ()
    def post(self, c, ret): return ()
    def frame(self, c): return ()
    def result(self, c): return None
    def frame_free(self, c): return ()
    def pres(self, c):
        for x in self.pre(c): yield x if len(x) == 3 else (x[0], 'pre', x[1])
    def posts(self, c, ret):
        for x in self.post(c, ret): yield x if len(x) == 3 else (x[0], 'func', x[1])
    def apply(self, c):
        st, eng = c.st, c.eng
        for fr in self.frame(c):
            kind, o = fr[0], fr[1]
            o = o.obj if isinstance(o, Ptr) else o
            if o is None: continue
            lo, hi = zi(fr[2]), zi(fr[3])
            old = eng.arr(st, o)
            if old.decl().kind() == z3.Z3_OP_STORE or old.num_args() > 0:
                nm = eng.fresh('A', z3.ArraySort(Int, Int)); eng.assume(st, nm == old); old = nm
            new = eng.fresh('A', z3.ArraySort(Int, Int))
            eng.setarr(st, o, new)
            c.aux.setdefault('arrays', {})[o.id] = (old, new)
            if not (same(lo, o.lo) and same(hi, o.hi)):
                eng.assume(st, FA(1, lambda i: (z3.Implies(z3.Or(i < lo, i >= hi), sel(new, i) == sel(old, i)), [sel(new, i)])))
            if kind == 'perm':
                p = z3.Function('p!%d' % next(eng.fresh_n), Int, Int)
                c.aux.setdefault('perm', {})[o.id] = p
                eng.assume(st, FA(1, lambda i: (z3.Implies(inr(lo, i, hi), z3.And(inr(lo, p(i), hi), sel(new, i) == sel(old, p(i)))), [sel(new, i)])))
            elif kind == 'any': pass
            # the post-state view of the old array uses the alias
            c.pre_mem = dict(c.pre_mem); c.pre_mem[o.id] = {**c.pre_mem.get(o.id, {}), 0: old}
        self.effects(c)
        ret = self.result(c)
        for n, tag, f in self.posts(c, ret): eng.assume(st, f)
        return [(st, ret)]
    def effects(self, c): pass
    nothrow = False; throwing = True
    def owned(self, c, ret): return ()   # heap blocks handed to the caller
    def apply_exc(self, c):
        """state after the function exits by an exception: the elements of the frame are constructed, in an unspecified state"""
        st, eng = c.st, c.eng
        for fr in self.frame_exc(c):
            o = fr[1].obj if isinstance(fr[1], Ptr) else fr[1]
            if o is None: continue
            lo, hi = zi(fr[2]), zi(fr[3]); old = eng.arr(st, o); new = eng.fresh('X', z3.ArraySort(Int, Int)); eng.setarr(st, o, new)
            eng.assume(st, FA(1, lambda i: (z3.Implies(z3.Or(i < lo, i >= hi), sel(new, i) == sel(old, i)), [sel(new, i)])))
            eng.assume(st, FA(1, lambda i: (z3.Implies(inr(lo, i, hi), z3.And((sel(new, i) == RAW) == (sel(old, i) == RAW), sel(new, i) >= RAW)), [sel(new, i)])))
    def frame_exc(self, c): return self.frame(c)
    def post_exc(self, c):
        """when the function exits by an exception: constructed elements stay constructed, nothing outside the frame changed"""
        fr = {}
        for f in self.frame_exc(c):
            o = f[1].obj if isinstance(f[1], Ptr) else f[1]
            if o is not None: fr.setdefault(o.id, (o, []))[1].append((zi(f[2]), zi(f[3])))
        for oid, (o, rs) in fr.items():
            if oid not in c.st.mem: continue       # released
            A, O = c.st.mem[oid][0], c.pre_mem[oid].get(0)
            if O is None or A is O: continue
            yield 'every-element-still-constructed-and-none-constructed-twice', 'exc', FA(1, lambda i: (z3.Implies(inr(o.lo, i, o.hi), (sel(A, i) == RAW) == (sel(O, i) == RAW)), [sel(A, i)]))

predf = z3.Function('predf', Int, z3.BoolSort())
def pred_formula(c, param=None):
    """meaning of a unary predicate argument: uninterpreted for the abstract Pred, otherwise the code of the lambda"""
    if 'lambda' not in c.fn.demangled and 'anon' not in c.fn.demangled: return lambda x: predf(zi(x))
    raise Unsupported('predicate')

def lambda_body(m, fn, depth=0):
    """the call operator of the closure a generic algorithm invokes"""
    for b in fn.order:
        for ins in fn.blocks[b]:
            if ins.op in ('call', 'invoke'):
                for nm in re.findall(r'@([\w.$]+)', ins.text):
                    g = m.funcs.get(nm)
                    if g is None or g.decl: continue
                    if re.search(r'Ul[\w]*E\d*_cl', nm): return g
                    if depth < 3 and 'partition' in g.demangled.split('<')[0]:
                        r = lambda_body(m, g, depth + 1)
                        if r is not None: return r
    return None
def closure_pred(c, name='pred'):
    """meaning of a predicate argument at a call: for a closure, its body executed on an arbitrary element value (obligations included)"""
    if not re.search(r'lambda|anon', c.fn.demangled): return lambda x: predf(zi(x))
    key = 'pred_pre' if 'pred_pre' not in c.aux else 'pred_post'
    eng = c.eng; g = lambda_body(eng.m, c.fn)
    if g is None: raise Unsupported('predicate')
    first = 'pred_pre' not in c.aux
    x = eng.fresh('px') if first else c.aux['pred_var']; c.aux['pred_var'] = x
    st = c.st.fork(); o = Obj('scalar', 'pel', ty=('struct', 'struct.Elem')); st.mem[o.id] = {0: (('elem',), x)}; eng.assume(st, x >= 0)
    n0 = len(st.pc); q = eng.quiet
    if not first: eng.quiet = True
    try: outs = eng.run_function(g, [c.p(name), Ptr(o)], st, 1, ('closure',))
    finally: eng.quiet = q
    F = []
    for s2, r in outs:
        if r is EXC: continue
        new = [p for p in s2.pc[n0:] if not eng._hasq(p)]
        F.append(z3.And(*new, zb(eng.asbool(r))))
    F = z3.simplify(z3.Or(*F))
    if first: c.aux['pred_pre'] = F
    else:
        # the elements rearranged by the callee do not influence the predicate
        if not c.aux.get('pred_stable'): c.aux['pred_stable'] = True; eng.oblige_only(c.st, 'predicate-does-not-depend-on-the-rearranged-elements', 'pre', z3.Implies(x >= 0, F == c.aux['pred_pre']))
    P = c.aux['pred_pre']
    return lambda v: z3.substitute(P, (x, zi(v)))
def pred_before(c):
    """the predicate, as it was when the function was called"""
    if 'pred_pre' not in c.aux: return lambda x: predf(zi(x))
    x, P = c.aux['pred_var'], c.aux['pred_pre']; return lambda v: z3.substitute(P, (x, zi(v)))
def REGC(cls):
    for c in REG.contracts:
        if isinstance(c, cls): return c
class Setup:
    """builds the symbolic pre-state when a contract is verified"""
    def __init__(self, eng, st): self.eng = eng; self.st = st
    def elems(self, name='A', lo=None, hi=None):
        """a region of element storage accessible exactly on [lo,hi)"""
        lo = z3.Int(name + '_lo') if lo is None else lo; hi = z3.Int(name + '_hi') if hi is None else hi
        o = Obj('region', name, ('elem',), lo, hi)
        self.st.mem[o.id] = {0: z3.Const(name + '0', z3.ArraySort(Int, Int))}
        self.eng.assume(self.st, z3.And(zi(lo) >= 0, zi(lo) <= zi(hi), zi(hi) <= MAXN))
        return o
    def ints(self, name, lo, hi, ty=('int', 64)):
        o = Obj('region', name, ty, lo, hi); self.st.mem[o.id] = {0: z3.Const(name + '0', z3.ArraySort(Int, Int))}
        return o
    def ptr(self, o, idx): return Ptr(o, zi(idx) if not isinstance(idx, int) else idx)
    def int(self, name, lo=None, hi=None, width=64):
        v = z3.Int(name)
        lo = -(2**(width-1)) if lo is None else lo; hi = 2**(width-1)-1 if hi is None else hi
        self.eng.assume(self.st, z3.And(v >= zi(lo), v <= zi(hi)))
        return v
    def opaque(self, name='fobj'):
        o = Obj('opaque', name); self.st.mem[o.id] = {}; return Ptr(o)
    def elem(self, name, init=None):
        """a stand-alone element object outside any range"""
        o = Obj('scalar', name, ty=('struct', 'struct.Elem')); v = z3.Int(name + '_id') if init is None else init
        self.st.mem[o.id] = {0: (('elem',), v)}
        if init is None: self.eng.assume(self.st, v >= 0)
        return Ptr(o)

def fill_args(eng, fn, st, given):
    """order the given arguments by parameter name; unknown ones become opaque function objects"""
    vals = []; used = set()
    c = CallCtx(eng, None, fn, st, [None]*len(fn.params))
    inv = {k: n for n, k in c.names.items()}
    for k, (t, nm, at) in enumerate(fn.params):
        n = inv[k]
        if n in given: vals.append(given[n]); used.add(n)
        elif k in given: vals.append(given[k]); used.add(k)
        else: vals.append(None)
    rest = [g for g in given if g not in used]
    for g in rest:   # positional fallback through the recorded baseline
        raise MissingVar('no parameter %r in %s' % (g, basename(fn.demangled)))
    for k, (t, nm, at) in enumerate(fn.params):
        if vals[k] is None:
            if t == ('ptr',): 
                o = Obj('opaque', nm); st.mem[o.id] = {}; vals[k] = Ptr(o)
            elif t[0] == 'int': vals[k] = eng.fresh_int(st, nm, t[1]) if t[1] > 1 else eng.fresh(nm, z3.BoolSort())
            else: raise Unsupported('argument %s of type %r' % (nm, t))
    return vals

# ------------------------------------------------------------------ registry
LISTRE = re.compile(r'_(List|Fwd_list)_(const_)?iterator|detail::f?list_\w+_sort')
def on_lists(fn): return bool(LISTRE.search(fn.demangled))
class Registry:
    def __init__(self):
        self.contracts = []; self.byfn = {}; self.inl_loops = {}; self.builtins = []; self.baseline = {}
        self.models = {}; self.list_loops = {}
    def add(self, cls):
        c = cls(); self.contracts.append(c)
        for f in c.fns: self.byfn.setdefault(f, []).append(c)
        return cls
    def loops(self, fname, anns): self.inl_loops[fname] = anns
    def applies(self, c, fn, eng):
        """contracts on linked lists are separate"""
        return on_lists(fn) == bool(getattr(c, 'lists', False)) and c.matches(fn, eng)
    def contract_for(self, fn, eng):
        for c in self.byfn.get(basename(fn.demangled), ()):
            if self.applies(c, fn, eng): return c
        return None
    def loop_annotations(self, base, fn):
        for c in self.byfn.get(base, ()):
            if c.loops and self.applies(c, fn, None): return c.loops
        return (self.list_loops if on_lists(fn) else self.inl_loops).get(base)
    def rename(self, fn, name, m):
        b = self.baseline.get(basename(fn.demangled))
        return None
    def param_alias(self, fn, name, c): return None
    def builtin(self, eng, fr, st, fn, name, av, loc, ins):
        d = fn.demangled
        f = self.models.get(d)
        if f is None: f = self.models.get(basename(d))
        if f is None:
            if name.startswith('llvm.'):
                f = self.models.get('.'.join(name.split('.')[:2]))
            if f is None: return None
        return f(eng, fr, st, fn, av, loc, ins)


REG = Registry()
def contract(cls): return REG.add(cls)
def model(*names):
    def d(f):
        for n in names: REG.models[n] = f
        return f
    return d

# ------------------------------------------------------------------ models of the abstract element type and std primitives
def _live(eng, st, v, what, loc): eng.oblige(st, '%s:live' % what, 'own', cmpop('ge', v, 0), loc)

@model('Elem::Elem(Elem&&)')
def _(eng, fr, st, fn, av, loc, ins):
    d, s = av
    v = eng.get_elem(st, s, 'move-construct source', loc); w = eng.get_elem(st, d, 'move-construct destination', loc)
    _live(eng, st, v, 'move-construct source', loc)
    eng.oblige(st, 'move-construct destination:raw', 'own', cmpop('eq', w, RAW), loc)
    r = eng.throws(st, None)
    eng.tick(st, 16); eng.set_elem(st, s, MOVED); eng.set_elem(st, d, v)
    return r
@model('Elem::operator=(Elem&&)')
def _(eng, fr, st, fn, av, loc, ins):
    d, s = av
    v = eng.get_elem(st, s, 'move-assign source', loc); w = eng.get_elem(st, d, 'move-assign destination', loc)
    if d.obj is s.obj:
        # an element which holds a value is never moved onto itself; assigning a moved-from object to itself has no effect
        same_ = cmpop('eq', d.idx, s.idx) if d.obj.kind == 'region' else d.sub == s.sub
        if same_ is not False:
            eng.oblige(st, 'no-self-move', 'own', Or(Not(same_), cmpop('eq', v, MOVED)), loc)
            eng.oblige(st, 'move-assign source:live', 'own', Or(same_, cmpop('ge', v, 0)), loc)
        else: _live(eng, st, v, 'move-assign source', loc)
    else: _live(eng, st, v, 'move-assign source', loc)
    if st.ghost.get('unw'): eng.oblige(st, 'move-assign destination:constructed', 'own', cmpop('ge', w, MOVED), loc)
    else: eng.oblige(st, 'move-assign destination:moved-from', 'own', cmpop('eq', w, MOVED), loc)
    r = eng.throws(st, d)
    eng.tick(st, 16); eng.set_elem(st, d, v); eng.set_elem(st, s, MOVED)
    return r
@model('Elem::~Elem()')
def _(eng, fr, st, fn, av, loc, ins):
    v = eng.get_elem(st, av[0], 'destroy', loc)
    if st.ghost.get('unw'): eng.oblige(st, 'destroy:constructed', 'own', cmpop('ge', v, MOVED), loc)
    else: eng.oblige(st, 'destroy:moved-from', 'own', cmpop('eq', v, MOVED), loc)
    eng.set_elem(st, av[0], RAW)
    return [(st, None)]
@model('swap(Elem&, Elem&)')
def _(eng, fr, st, fn, av, loc, ins):
    a, b = av
    x = eng.get_elem(st, a, 'swap first', loc); y = eng.get_elem(st, b, 'swap second', loc)
    _live(eng, st, x, 'swap first', loc); _live(eng, st, y, 'swap second', loc)
    r = eng.throws(st, None)
    eng.tick(st, 8); eng.set_elem(st, a, y)
    eng.set_elem(st, b, x)
    return r
@model('Proj::operator()(Elem const&) const')
def _(eng, fr, st, fn, av, loc, ins):
    v = eng.get_elem(st, av[1], 'projection', loc); _live(eng, st, v, 'projection', loc)
    return eng.throws(st, av[1])
@model('Comp::operator()(Key const&, Key const&) const')
def _(eng, fr, st, fn, av, loc, ins):
    a = eng.get_elem(st, av[1], 'comparison left', loc); b = eng.get_elem(st, av[2], 'comparison right', loc)
    _live(eng, st, a, 'comparison left', loc); _live(eng, st, b, 'comparison right', loc)
    eng.tick(st, 0)
    return eng.throws(st, simp(R(a) < R(b)))
def _less(k):
    def f(eng, fr, st, fn, av, loc, ins):
        a = eng.get_elem(st, av[k], 'comparison left', loc); b = eng.get_elem(st, av[k + 1], 'comparison right', loc)
        _live(eng, st, a, 'comparison left', loc); _live(eng, st, b, 'comparison right', loc)
        eng.tick(st, 0); return eng.throws(st, simp(R(a) < R(b)))
    return f
model('CompE::operator()(Elem const&, Elem const&) const')(_less(1))
model('operator<(Elem const&, Elem const&)', 'operator<(Key const&, Key const&)')(_less(0))
@model('Pred::operator()(Elem const&) const')
def _(eng, fr, st, fn, av, loc, ins):
    v = eng.get_elem(st, av[1], 'predicate argument', loc); _live(eng, st, v, 'predicate argument', loc)
    return eng.throws(st, predf(zi(v)))
@model('llvm.memcpy', 'llvm.memmove')
def _(eng, fr, st, fn, av, loc, ins):
    d, s, n, _ = av
    if isinstance(n, int) and isinstance(d, Ptr) and isinstance(s, Ptr) and d.obj.kind in ('scalar', 'opaque') and s.obj.kind in ('scalar', 'opaque', 'global'):
        if s.obj.kind == 'global':
            src = {o: (t, v) for o, t, v in s.obj.size}
        else: src = st.mem[s.obj.id]
        cells = dict(st.mem[d.obj.id])
        for k in list(cells):
            if d.sub <= k < d.sub + n: del cells[k]
        for k, (t, v) in src.items():
            if s.sub <= k < s.sub + n:
                if t == ('elem',): raise Unsupported('memcpy of an element')
                cells[k - s.sub + d.sub] = (t, v)
        st.mem[d.obj.id] = cells
        return [(st, None)]
    if isinstance(n, int) and isinstance(d, Ptr) and isinstance(s, Ptr) and s.obj.kind in ('scalar', 'opaque') and d.obj.kind == 'region' and d.obj.etype != ('elem',):
        for k, (t, v) in sorted(st.mem[s.obj.id].items()):
            if s.sub <= k < s.sub + n:
                if t == ('elem',): raise Unsupported('memcpy of an element')
                eng.store(st, eng.padd(d, k - s.sub), t, v, loc)
        return [(st, None)]
    if isinstance(n, int) and isinstance(d, Ptr) and isinstance(s, Ptr) and d.obj.kind in ('scalar', 'opaque') and s.obj.kind == 'region' and s.obj.etype != ('elem',):
        cells = dict(st.mem[d.obj.id])
        for k in list(cells):
            if d.sub <= k < d.sub + n: del cells[k]
        st.mem[d.obj.id] = cells
        for k, t in eng.m.flat(s.obj.etype):
            if s.sub <= k < s.sub + n: eng.store(st, eng.padd(d, k - s.sub), t, eng.load(st, eng.padd(s, k - s.sub), t, loc), loc)
        return [(st, None)]
    raise Unsupported('memcpy to %r from %r of %r' % (d, s, n))
@model('llvm.memset')
def _(eng, fr, st, fn, av, loc, ins):
    d, v, n, _ = av
    if v == 0 and isinstance(n, int) and d.obj.kind in ('scalar', 'opaque'):
        cells = dict(st.mem[d.obj.id])
        for k in list(cells):
            if d.sub <= k < d.sub + n: del cells[k]
        if d.obj.ty is not None:
            for o, t in eng.m.flat(d.obj.ty):
                if d.sub <= o < d.sub + n: cells[o] = (t, 0 if t[0] == 'int' else (NULL if t == ('ptr',) else UNDEF))
        st.mem[d.obj.id] = cells
        return [(st, None)]
    raise Unsupported('memset')
# ------------------------------------------------------------------ allocation: unconstructed storage, released exactly once
def heap_of(st): return st.ghost.get('heap', frozenset())
def new_block(eng, st, size, name='block'):
    o = Obj('heap', name, size=size); st.mem[o.id] = {}; st.ghost['heap'] = heap_of(st) | {o}; return o
def _new(eng, st, size, loc, nothrow, fr=None):
    if not nothrow and fr is not None and fr.ctx is not None and 'C16' in fr.ctx.contract.props: eng.oblige(st, 'memory-adaptive:no-throwing-allocation', 'mem', False, loc)
    s0 = st.fork() if nothrow or eng.exc else None
    outs = [(st, Ptr(new_block(eng, st, size), 0))]
    if nothrow: eng.tick(s0, 24); outs.append((s0, NULL))
    elif eng.exc: outs.insert(0, (s0, EXC))
    return outs
@model('operator new(unsigned long)')
def _(eng, fr, st, fn, av, loc, ins): return _new(eng, st, av[0], loc, False, fr)
@model('operator new(unsigned long, std::nothrow_t const&)')
def _(eng, fr, st, fn, av, loc, ins): return _new(eng, st, av[0], loc, True)
def bytes_(x): return mul(x.k, x.e) if isinstance(x, Scl) else x
def release(eng, st, p, size, loc):
    if not isinstance(p, Ptr): raise Unsupported('delete of %r' % (p,))
    if p.obj is None: return
    o = p.obj
    if o not in heap_of(st) or o.id not in st.mem:
        eng.oblige(st, 'deallocation:allocated-and-not-yet-released', 'own', False, loc); raise PathEnd()
    eng.oblige(st, 'deallocation:start-of-the-block', 'mem', cmpop('eq', p.idx, 0) if not p.sub else False, loc)
    if size is not None: eng.oblige(st, 'deallocation:size-of-the-block', 'mem', cmpop('eq', bytes_(size), bytes_(o.size)), loc)
    if o.kind == 'region' and o.etype == ('elem',): eng.oblige(st, 'deallocation:no-element-left-in-the-block', 'own', raw(eng.arr(st, o), o.lo, o.hi), loc)
    st.mem.pop(o.id); st.ghost['heap'] = heap_of(st) - {o}
@model('operator delete(void*)', 'operator delete(void*, unsigned long)')
def _(eng, fr, st, fn, av, loc, ins):
    release(eng, st, av[0], av[1] if len(av) > 1 else None, loc); return [(st, None)]
@model('llvm.trap', 'abort', '__clang_call_terminate', 'std::terminate', 'std::__glibcxx_assert_fail', '__assert_fail')
def _(eng, fr, st, fn, av, loc, ins):
    eng.oblige(st, 'no-abnormal-termination', 'mem', False, loc); raise PathEnd()
@model('llvm.expect')
def _(eng, fr, st, fn, av, loc, ins): return [(st, av[0])]
@model('llvm.assume')
def _(eng, fr, st, fn, av, loc, ins):
    b = eng.asbool(av[0]); eng.oblige(st, 'assumed-condition', 'mem', b, loc); return [(st, None)]
@model('llvm.is')
def _(eng, fr, st, fn, av, loc, ins): return [(st, False)]
