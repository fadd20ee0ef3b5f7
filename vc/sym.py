"""Verification-condition generator: symbolic execution of LLVM IR with function contracts and
loop invariants.  See DESIGN.md section 'The verifier' for the semantics and the trusted base."""
import itertools, time, re
import z3
import ir
from ir import basename

Int = z3.IntSort()
RAW, MOVED = -2, -1
MAXN = 2**40            # assumption: no range holds more than 2^40 elements
rk = z3.Function('rk', Int, Int)        # rank of an element id under the caller's strict weak order
ordf = z3.Function('ord', Int, Int)     # ghost: original position (stability)

class Unsupported(Exception): pass
class MissingVar(Unsupported): pass

# ------------------------------------------------------------------ values
class Obj:
    n = itertools.count()
    def __init__(s, kind, name, etype=None, lo=None, hi=None, size=None, ty=None):
        s.id = next(Obj.n); s.kind = kind; s.name = name; s.etype = etype; s.lo = lo; s.hi = hi; s.size = size; s.ty = ty
        s.target = None; s.freed = False
    def __repr__(s): return '%s#%d' % (s.name, s.id)
class Ptr:
    __slots__ = ('obj', 'idx', 'sub')
    def __init__(s, obj, idx=0, sub=0): s.obj = obj; s.idx = idx; s.sub = sub
    def __repr__(s): return 'Ptr(%r,%s,%s)' % (s.obj, s.idx, s.sub)
    @property
    def i(s): return s.idx
NULL = Ptr(None)
class PI:                      # pointer converted to integer
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
class Scl:                     # k * e, remembered for exact division
    __slots__ = ('k', 'e')
    def __init__(s, k, e): s.k = k; s.e = e
class BI:                      # zero-extended boolean
    __slots__ = ('b',)
    def __init__(s, b): s.b = b
class FnPtr:
    __slots__ = ('name',)
    def __init__(s, name): s.name = name
class Opaque:                  # a value the verifier does not interpret (function objects' bytes, ...)
    __slots__ = ('tag',)
    def __init__(s, tag): s.tag = tag
class FPv:
    __slots__ = ('e',)
    def __init__(s, e): s.e = e
class Undef: pass
UNDEF = Undef()
class Exc:                     # 'return value' of a call which ends by an exception
    def __repr__(s): return 'EXC'
EXC = Exc()

def isz(e): return isinstance(e, z3.ExprRef)
def same(a, b):
    if a is b: return True
    if type(a) is not type(b):
        if isz(a) and isz(b): return a.eq(b)
        if isz(a) and isinstance(b, (int, bool)) or isz(b) and isinstance(a, (int, bool)):
            x, y = (a, b) if isz(a) else (b, a)
            x = z3.simplify(x)
            if z3.is_int_value(x): return not isinstance(y, bool) and x.as_long() == y
            if z3.is_true(x): return y is True
            if z3.is_false(x): return y is False
        return False
    if isz(a): return a.eq(b) or z3.simplify(a).eq(z3.simplify(b))
    if isinstance(a, (int, bool)): return a == b
    if isinstance(a, Ptr): return a.obj is b.obj and same(a.idx, b.idx) and a.sub == b.sub
    if isinstance(a, PI): return same(a.p, b.p)
    if isinstance(a, Scl): return a.k == b.k and same(a.e, b.e)
    if isinstance(a, BI): return same(a.b, b.b)
    if isinstance(a, FnPtr): return a.name == b.name
    if isinstance(a, FPv): return same(a.e, b.e)
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False

def norm(e):
    """fold constants / simplify small terms"""
    if isz(e):
        if z3.is_int_value(e): return e.as_long()
        if z3.is_true(e): return True
        if z3.is_false(e): return False
    return e
def simp(e):
    return norm(z3.simplify(e)) if isz(e) else e
def add(a, b): return a + b if not (isz(a) or isz(b)) else simp(a + b)
def sub(a, b): return a - b if not (isz(a) or isz(b)) else simp(a - b)
def mul(a, b): return a * b if not (isz(a) or isz(b)) else simp(a * b)
def zb(b): return z3.BoolVal(b) if isinstance(b, bool) else b
def zi(i): return z3.IntVal(i) if isinstance(i, int) else i
def And(*l):
    l = [x for x in l if x is not True]
    if any(x is False for x in l): return False
    return True if not l else (l[0] if len(l) == 1 else z3.And(*l))
def Or(*l):
    l = [x for x in l if x is not False]
    if any(x is True for x in l): return True
    return False if not l else (l[0] if len(l) == 1 else z3.Or(*l))
def Not(a): return (not a) if isinstance(a, bool) else simp(z3.Not(a))
def Implies(a, b): return Or(Not(a), b)
def cmpop(op, a, b):
    if not (isz(a) or isz(b)):
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
    a, b = zi(a), zi(b)
    r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[op]()
    return simp(r)
def hasq(e):
    """does the formula contain a quantifier"""
    if not isz(e): return False
    seen = set(); st = [e]
    while st:
        x = st.pop()
        if z3.is_quantifier(x): return True
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st.extend(x.children())
    return False

class Ob:
    __slots__ = ('unit', 'name', 'tag', 'goal', 'pc', 'loc', 'status', 'backend', 'time', 'detail')
    def __init__(s, unit, name, tag, goal, pc, loc):
        s.unit = unit; s.name = name; s.tag = tag; s.goal = goal; s.pc = pc; s.loc = loc; s.status = None; s.backend = None; s.time = 0; s.detail = ''

class State:
    __slots__ = ('mem', 'pc', 'ghost', 'trail')
    def __init__(s): s.mem = {}; s.pc = []; s.ghost = {}; s.trail = ()
    def fork(s):
        t = State(); t.mem = dict(s.mem); t.pc = list(s.pc); t.ghost = dict(s.ghost); t.trail = s.trail; return t

class Frame:
    __slots__ = ('fn', 'regs', 'vars', 'depth', 'path', 'contract', 'ctx', 'visits', 'allocas')
    def __init__(s, fn, depth, path):
        s.fn = fn; s.regs = {}; s.depth = depth; s.path = path; s.contract = None; s.ctx = None; s.visits = {}; s.allocas = {}
    def fork(s):
        f = Frame(s.fn, s.depth, s.path); f.regs = dict(s.regs); f.contract = s.contract; f.ctx = s.ctx; f.visits = dict(s.visits); f.allocas = s.allocas.copy(); return f

# ------------------------------------------------------------------ engine
class Engine:
    def __init__(self, module, registry, mode='plain', log=None):
        self.exc = mode == 'exc'        # operations of the user may throw
        self.costs = mode == 'cost'     # operations of the user are counted (ghost counters)
        if self.exc or self.costs: mode = 'plain'
        self.cobj = Obj('scalar', 'cost-counters')
        self.m = module; self.reg = registry; self.mode = mode
        self.obs = []; self.fresh_n = itertools.count(); self.unit = '?'
        self.quiet = 0; self.wcache = {}; self.used_contracts = set(); self.assumed = set(); self.inlined = set(); self.inlined_fns = set()
        self.qtime = 0; self.nq = 0; self.paths = 0; self.maxpaths = 60000; self.log = log
        self.deadline = None; self.vcache = {}
        self.globobjs = {}
    # -- fresh
    def fresh(self, name, sort=Int): return z3.Const('%s!%d' % (name, next(self.fresh_n)), sort)
    def fresh_int(self, st, name, width=64):
        v = self.fresh(name); st.pc.append(z3.And(v >= -(2**(width-1)), v <= 2**(width-1)-1)); return v
    # -- feasibility
    def _solve(self, facts, timeout=400):
        t = time.time()
        s = z3.SimpleSolver() if False else z3.Solver()
        s.set('timeout', timeout); s.set('auto_config', False); s.set('smt.mbqi', False)
        for f in facts: s.add(f)
        r = s.check(); self.qtime += time.time()-t; self.nq += 1
        return r
    def qf(self, st): return [f for f in st.pc if isz(f) and not self._hasq(f)]
    _hq = {}
    def _hasq(self, f):
        k = f.get_id()
        r = self._hq.get(k)
        if r is None or not r[0].eq(f):
            r = (f, hasq(f)); self._hq[k] = r
        return r[1]
    def feasible(self, st, cond=True):
        if cond is False: return False
        fs = self.qf(st)
        if isz(cond) and not self._hasq(cond): fs = fs + [cond]
        key = tuple(sorted(f.get_id() for f in fs))
        c = self.vcache.get(key)
        if c is not None: return c[0]
        r = self._solve(fs) != z3.unsat
        self.vcache[key] = (r, fs)
        return r
    def valid(self, st, f):
        if isinstance(f, bool): return f
        f = simp(f)
        if isinstance(f, bool): return f
        return not self.feasible(st, z3.Not(f))
    def assume(self, st, f):
        if f is True or f is None: return
        if f is False: st.pc.append(z3.BoolVal(False)); return
        if z3.is_and(f):
            for c in f.children(): self.assume(st, c)
            return
        f2 = f
        if z3.is_true(f2): return
        st.pc.append(f2)
    def oblige(self, st, name, tag, goal, loc=None):
        """emit obligation pc |- goal, then assume it"""
        if self.exc and st.ghost.get('unw'): tag = 'exc'; name = 'unwinding:' + name
        if not self.quiet:
            if not isinstance(goal, bool): 
                g = z3.simplify(goal) if not self._hasq(goal) else goal
                if z3.is_true(g): goal2 = True
                else: goal2 = goal
            else: goal2 = goal
            self.obs.append(Ob(self.unit, name, tag, goal2, list(st.pc) if goal2 is not True else [], loc))
        if goal is not True: self.assume(st, goal)
    def oblige_only(self, st, name, tag, goal, loc=None):
        if not self.quiet: self.obs.append(Ob(self.unit, name, tag, goal, list(st.pc), loc))
    # -- memory
    def alloc(self, st, kind, name, **kw):
        o = Obj(kind, name, **kw); st.mem[o.id] = {}; return o
    def alloca(self, st, fr, ins):
        t = ins.ty; nm = ins.res
        if ins.args[1] is not None:
            n = self.val(st, fr, *ins.args[1])
            if n != 1: raise Unsupported('dynamic alloca')
        o = fr.allocas.get(nm)
        if o is None or True:
            o = Obj('scalar', nm, size=self.m.sizeof(t), ty=t)
        st.mem[o.id] = self.initcells(t)
        return Ptr(o)
    def initcells(self, t):
        cells = {}
        for off in self.elem_offsets(t): cells[off] = (('elem',), RAW)
        return cells
    def elem_offsets(self, t, base=0):
        if t == ('struct', 'struct.Elem'): return [base]
        k = t[0]
        if k in ('struct', 'lit'):
            if k == 'struct' and t[1].startswith('union.') : return []
            offs, _, _, fields = self.m.layout(t); r = []
            for o, ft in zip(offs, fields): r += self.elem_offsets(ft, base+o)
            return r
        if k == 'arr' and t[1] <= 4096:
            sz = self.m.sizeof(t[2]); r = []
            e0 = self.elem_offsets(t[2], 0)
            if not e0: return []
            for i in range(t[1]): r += [base+i*sz+x for x in e0]
            return r
        return []
    def tick(self, st, k, n=1):
        """ghost counters of the user's operations"""
        if self.costs:
            c = st.mem[self.cobj.id]; st.mem[self.cobj.id] = {**c, k: (('elem',), add(c[k][1], n))}
    def throws(self, st, v):
        """results of an operation of the user: normal, or (in exc mode) by an exception, leaving the state unchanged"""
        if not self.exc: return [(st, v)]
        s2 = st.fork(); return [(s2, EXC), (st, v)]
    def check_ptr(self, st, p, what, loc, n=1):
        if not isinstance(p, Ptr): raise Unsupported('%s through non-pointer %r' % (what, p))
        if p.obj is None:
            self.oblige(st, 'null-dereference(%s)' % what, 'mem', False, loc); raise PathEnd()
        o = p.obj
        if o.id not in st.mem:
            self.oblige(st, 'access-to-dead-object(%s)' % what, 'mem', False, loc); raise PathEnd()
        if o.kind == 'region':
            self.oblige(st, 'in-bounds(%s)' % what, 'mem', And(cmpop('ge', p.idx, o.lo), cmpop('lt', p.idx, o.hi)), loc)
    def esize(self, o):
        return 8 if o.etype == ('elem',) else (self.m.sizeof(o.etype) if o.etype else 1)
    def settle(self, o, ty):
        """give an untyped heap block its element type on first typed use"""
        if o.kind == 'heap':
            if ty == ('struct', 'struct.Elem') or ty == ('elem',): ty = ('elem',); k = 8
            else: k = self.m.sizeof(ty)
            sz = o.size
            if isinstance(sz, Scl) and sz.k == k: n = sz.e
            elif isinstance(sz, Scl) and sz.k % k == 0: n = mul(sz.e, sz.k//k)
            elif isinstance(sz, int): n = sz // k
            elif k == 1: n = sz if not isinstance(sz, Scl) else mul(sz.e, sz.k)
            else: raise Unsupported('heap block of unknown element count')
            o.kind = 'region'; o.etype = ty; o.lo = 0; o.hi = n
    def arr(self, st, o, sub=0):
        c = st.mem[o.id]
        if sub not in c:
            if o.etype == ('elem',): a = z3.K(Int, z3.IntVal(RAW))
            else: a = self.fresh('mem_%s' % o.name, z3.ArraySort(Int, Int))
            st.mem[o.id] = {**c, sub: a}
            return a
        return c[sub]
    def setarr(self, st, o, a, sub=0): st.mem[o.id] = {**st.mem[o.id], sub: a}
    def get_elem(self, st, p, what, loc):
        self.check_ptr(st, p, what, loc)
        o = p.obj
        if o.kind == 'heap': self.settle(o, ('elem',)); self.check_ptr(st, p, what, loc)
        if o.kind == 'region':
            if o.etype != ('elem',) : raise Unsupported('element access to non-element region %r' % o)
            return simp(z3.Select(self.arr(st, o), zi(p.idx)))
        c = st.mem[o.id].get(p.sub)
        if c is None:
            raise Unsupported('element access to untyped storage %r+%s' % (o, p.sub))
        if c[0] != ('elem',): raise Unsupported('element access to scalar cell')
        return c[1]
    def set_elem(self, st, p, v):
        o = p.obj
        if o.kind == 'region': self.setarr(st, o, z3.Store(self.arr(st, o), zi(p.idx), zi(v)))
        else: st.mem[o.id] = {**st.mem[o.id], p.sub: (('elem',), v)}
    def load(self, st, p, ty, loc=None):
        if ty[0] in ('struct', 'lit'):
            offs, _, _, fields = self.m.layout(ty)
            return [self.load(st, self.padd(p, o), ft, loc) for o, ft in zip(offs, fields)]
        if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'heap': self.settle(p.obj, ty)
        self.check_ptr(st, p, 'load', loc); o = p.obj
        if o.kind == 'region':
            if o.etype == ('elem',): raise Unsupported('raw load from element storage')
            a = self.arr(st, o, p.sub); v = simp(z3.Select(a, zi(p.idx)))
            if ty[0] == 'ptr':
                tg = o.target
                if isinstance(tg, dict): tg = tg.get(p.sub)
                if tg is None: raise Unsupported('pointer load from region without target')
                return Ptr(tg, v)
            if ty[0] == 'int':
                if isz(v): self.assume(st, z3.And(v >= -(2**(ty[1]-1)), v <= 2**(ty[1]-1)-1))
                return v
            raise Unsupported('load %r from region' % (ty,))
        if o.kind == 'global':
            return self.load_global(o, p.sub, ty)
        c = st.mem[o.id].get(p.sub)
        if c is None:
            if o.kind == 'opaque':
                v = self.fresh_typed(st, 'opq_' + o.name, ty); st.mem[o.id] = {**st.mem[o.id], p.sub: (ty, v)}; return v
            # partial / never written
            r = self.load_partial(st, o, p.sub, ty)
            if r is not None: return r
            return UNDEF
        cty, v = c
        if cty == ty or cty == ('elem',) and False: return v
        if cty[0] == 'int' and ty[0] == 'int':
            if isinstance(v, BI) or cty[1] == ty[1]: return v
            if cty[1] > ty[1] and isinstance(v, int):
                w = v & (2**ty[1]-1); return w - 2**ty[1] if w >= 2**(ty[1]-1) else w
            if isinstance(v, int) and cty[1] < ty[1]:
                r = self.load_partial(st, o, p.sub, ty)
                if r is not None: return r
        if cty == ('ptr',) and ty == ('int', 64): return PI(v)
        if ty == ('ptr',) and isinstance(v, PI): return v.p
        if ty == ('ptr',) and v == 0 and isinstance(v, int): return NULL
        if cty == ('zero',): return NULL if ty == ('ptr',) else (UNDEF if ty[0] == 'float' else 0)
        if v is UNDEF: return UNDEF
        raise Unsupported('load %r from cell of type %r (%s)' % (ty, cty, o))
    def load_partial(self, st, o, off, ty):
        if ty[0] == 'int':
            n = self.m.sizeof(ty); tot = 0; any_ = False
            pos = 0
            while pos < n:
                c = st.mem[o.id].get(off+pos)
                if c is None or c[0][0] != 'int': return None
                w = c[0][1]; v = c[1]
                if isinstance(v, BI): v = simp(z3.If(zb(v.b), 1, 0))
                if w == 1: w = 8
                u = v if isinstance(v, int) and v >= 0 else (v + 2**w if isinstance(v, int) else z3.If(v < 0, v + 2**w, v))
                tot = add(tot, mul(u, 2**(8*pos))); pos += w//8
            if isinstance(tot, int): return tot - 2**ty[1] if tot >= 2**(ty[1]-1) else tot
            return simp(z3.If(tot >= 2**(ty[1]-1), tot - 2**ty[1], tot))
        return None
    def store(self, st, p, ty, v, loc=None):
        if ty[0] in ('struct', 'lit'):
            offs, _, _, fields = self.m.layout(ty)
            for i, (o, ft) in enumerate(zip(offs, fields)):
                self.store(st, self.padd(p, o), ft, v[i] if isinstance(v, (list, tuple)) else UNDEF, loc)
            return
        if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'heap': self.settle(p.obj, ty)
        self.check_ptr(st, p, 'store', loc); o = p.obj
        if o.kind == 'region':
            if o.etype == ('elem',): raise Unsupported('raw store to element storage')
            if ty[0] == 'ptr':
                if o.target is None: o.target = v.obj
                if v.obj is not o.target: raise Unsupported('pointer store to region: mixed targets')
                v = v.idx
            if isinstance(v, BI): v = simp(z3.If(zb(v.b), 1, 0))
            if isinstance(v, bool): v = int(v)
            if isinstance(v, Scl): v = mul(v.k, v.e)
            if not (isz(v) or isinstance(v, int)): raise Unsupported('store of %r to region' % (v,))
            self.setarr(st, o, z3.Store(self.arr(st, o, p.sub), zi(p.idx), zi(v)), p.sub)
            return
        if o.kind == 'global': raise Unsupported('store to global')
        cells = dict(st.mem[o.id]); n = self.m.sizeof(ty)
        for k in list(cells):
            if k != p.sub:
                kn = 8 if cells[k][0] == ('elem',) else (1 if cells[k][0] == ('zero',) else self.m.sizeof(cells[k][0]))
                if k < p.sub + n and p.sub < k + kn: del cells[k]
        cells[p.sub] = (ty, v); st.mem[o.id] = cells
    def padd(self, p, off):
        if off == 0: return p
        return Ptr(p.obj, p.idx, p.sub + off)
    def fresh_typed(self, st, name, ty):
        if ty[0] == 'int':
            if ty[1] == 1: return self.fresh(name, z3.BoolSort())
            return self.fresh_int(st, name, ty[1])
        if ty == ('ptr',):
            o = Obj('opaque', name); st.mem[o.id] = {}; return Ptr(o)
        raise Unsupported('fresh value of type %r' % (ty,))
    def load_global(self, o, sub_, ty):
        init = o.size   # parsed initialiser: list of (off, type, value)
        for off, t, v in init:
            if off == sub_ and t == ty: return v
        if not init: return Opaque('global')
        for off, t, v in init:
            if t[0] == 'int' and ty[0] == 'int' and off == sub_: return v
        raise Unsupported('load from global %s' % o.name)
    def globptr(self, st, name):
        if name in self.m.funcs: return FnPtr(name)
        o = self.globobjs.get(name)
        if o is None:
            txt = self.m.globals.get(name)
            if txt is None: raise Unsupported('unknown global ' + name)
            cells = self.parse_global(txt)
            mut = re.search(r'\bglobal\b', txt.split('{')[0]) is not None
            o = Obj('global', name, size=cells); o.mut = mut; self.globobjs[name] = o
        st.mem.setdefault(o.id, {})
        return Ptr(o)
    def parse_global(self, txt):
        m = re.search(r'\b(?:constant|global) (.*)$', txt)
        if not m or re.search(r'\bexternal\b', txt): return []
        body = re.sub(r'(, comdat(\([^)]*\))?)?, align \d+.*$', '', m.group(1)); body = re.sub(r', !dbg !\d+', '', body)
        try:
            p = ir.P(ir.tokenize(body)); t = p.type(); v = p.value(t)
        except Exception: return []
        out = []
        def rec(t, v, base):
            if v[0] in ('zero', 'undef'):
                for o, ft in self.m.flat(t, base): out.append((o, ft, 0 if ft[0] == 'int' else NULL))
            elif v[0] == 'agg':
                if t[0] == 'arr':
                    for i, (et, ev) in enumerate(v[1]): rec(et, ev, base + i*self.m.sizeof(t[2]))
                else:
                    offs, _, _, fields = self.m.layout(t)
                    for o, (et, ev) in zip(offs, v[1]): rec(et, ev, base+o)
            elif v[0] == 'const': out.append((base, t, v[1]))
            elif v[0] == 'null': out.append((base, t, NULL))
        try: rec(t, v, 0)
        except Exception: return []
        return out
    # -- operand evaluation
    def val(self, st, fr, ty, v):
        k = v[0]
        if k == 'reg':
            if v[1] not in fr.regs: raise Unsupported('undefined register %' + v[1])
            return fr.regs[v[1]]
        if k == 'const':
            if ty == ('int', 1): return bool(v[1] & 1)
            return v[1]
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'glob': return self.globptr(st, v[1])
        if k == 'zero':
            if ty[0] in ('struct', 'lit'): return [self.val(st, fr, ft, ('zero',)) for ft in self.m.layout(ty)[3]]
            return NULL if ty == ('ptr',) else (0 if ty != ('int', 1) else False)
        if k == 'agg': return [self.val(st, fr, t, x) for t, x in v[1]]
        if k == 'cgep':
            ops = v[2]; return self.gep(st, fr, v[1], self.val(st, fr, *ops[0]), [(t, self.val(st, fr, t, x)) for t, x in ops[1:]], False, None)
        if k == 'fconst': return ('fconst', ty, v[1])
        raise Unsupported('operand %r' % (v,))
    def num(self, v, width=64):
        if isinstance(v, BI): return simp(z3.If(zb(v.b), z3.IntVal(1), z3.IntVal(0)))
        if isinstance(v, Scl): return mul(v.k, v.e)
        if isinstance(v, bool): return int(v)
        if isz(v) and z3.is_bool(v): return simp(z3.If(v, z3.IntVal(1), z3.IntVal(0)))
        if isz(v) or isinstance(v, int): return v
        raise Unsupported('not a number: %r' % (v,))
    def gep(self, st, fr, bt, base, idx, inb, loc):
        if not isinstance(base, Ptr): raise Unsupported('gep on %r' % (base,))
        if base.obj is None:
            if all(isinstance(i, int) and i == 0 for _, i in idx): return base
            raise Unsupported('gep on null')
        o = base.obj; first = self.num(idx[0][1])
        if o.kind == 'heap' and bt != ('int', 8): self.settle(o, bt)
        esz = self.m.sizeof(bt)
        isub = base.sub; iidx = base.idx
        if o.kind in ('region',):
            osz = self.esize(o)
            if bt == ('struct', 'struct.Elem'): esz = osz if o.etype == ('elem',) else esz
            if isinstance(first, int) and first == 0: pass
            elif esz == osz and (o.etype == ('elem',) or base.sub == 0 or True): iidx = add(iidx, first)
            elif bt == ('int', 8) and isinstance(first, int) and first % osz == 0: iidx = add(iidx, first // osz)
            elif isinstance(first, int): isub += first * esz
            elif isinstance(idx[0][1], Scl) and idx[0][1].k * esz % osz == 0:
                iidx = add(iidx, mul(idx[0][1].e, idx[0][1].k * esz // osz))
            elif esz % osz == 0: iidx = add(iidx, mul(first, esz // osz))
            else: raise Unsupported('gep stride %d on region of stride %d' % (esz, osz))
            if inb and not same(iidx, base.idx):
                self.oblige(st, 'pointer-in-range', 'mem', And(cmpop('ge', iidx, o.lo), cmpop('le', iidx, o.hi)), loc)
        elif o.kind == 'heap':
            if not (isinstance(first, int) and first == 0): raise Unsupported('byte gep on untyped heap block')
        else:
            if isz(first):
                raise Unsupported('symbolic index into scalar object %r' % o)
            isub += first * esz
        t = bt
        for it, i in idx[1:]:
            i = self.num(i)
            if t[0] in ('struct', 'lit'):
                offs, _, _, fields = self.m.layout(t)
                if t == ('struct', 'struct.Elem'): return Ptr(o, iidx, isub)   # the key of an element
                isub += offs[i]; t = fields[i]
            elif t[0] == 'arr':
                t = t[2]
                if isz(i):
                    if o.kind == 'region' and self.m.sizeof(t) == self.esize(o): iidx = add(iidx, i)
                    else: raise Unsupported('symbolic array index')
                else: isub += i * self.m.sizeof(t)
            else: raise Unsupported('gep into %r' % (t,))
        return Ptr(o, iidx, isub)
    def rng(self, st, e, w):
        return And(cmpop('ge', e, -(2**(w-1))), cmpop('le', e, 2**(w-1)-1))
    def uns(self, st, a, w):
        """unsigned reading of canonical signed value"""
        if isinstance(a, int): return a if a >= 0 else a + 2**w
        if self.valid(st, a >= 0): return a
        return z3.If(a < 0, a + 2**w, a)
    def canon(self, st, e, w):
        """bring mathematical value into the canonical signed range (single wrap)"""
        if isinstance(e, int):
            e &= 2**w - 1
            return e - 2**w if e >= 2**(w-1) else e
        if self.valid(st, self.rng(st, e, w)): return e
        m = z3.IntVal(2**w)
        if self.valid(st, z3.And(e >= -(2**w), e < 2**w)):
            return z3.If(e > 2**(w-1)-1, e - m, z3.If(e < -(2**(w-1)), e + m, e))
        r = e % m
        return z3.If(r >= 2**(w-1), r - m, r)
    def binop(self, st, ins, a, b, loc):
        op, _, _, fl = ins.args; w = ins.ty[1] if ins.ty[0] == 'int' else 0
        if ins.ty[0] == 'float': return self.fpbin(op, a, b)
        if w == 1:
            A, B = self.asbool(a), self.asbool(b)
            if op == 'and': return And(A, B)
            if op == 'or': return Or(A, B)
            if op in ('xor', 'add', 'sub'):
                if B is True: return Not(A)
                if A is True: return Not(B)
                if isinstance(A, bool) and isinstance(B, bool): return A != B
                return simp(z3.Xor(zb(A), zb(B)))
            raise Unsupported('i1 ' + op)
        if a is UNDEF or b is UNDEF: raise Unsupported('arithmetic on undefined value')
        if isinstance(a, PI) or isinstance(b, PI):
            if op == 'sub' and isinstance(a, PI) and isinstance(b, PI):
                if a.p.obj is not b.p.obj: 
                    raise Unsupported('difference of pointers into different objects')
                o = a.p.obj
                if o is None: return 0
                if o.kind == 'region':
                    if a.p.sub == b.p.sub: return Scl(self.esize(o), sub(a.p.idx, b.p.idx))
                elif o.kind == 'heap': 
                    if a.p.sub == b.p.sub: return 0
                return add(mul(sub(a.p.idx, b.p.idx), self.esize(o)), a.p.sub - b.p.sub)
            raise Unsupported('pointer integer arithmetic ' + op)
        if isinstance(a, BI) and isinstance(b, BI) and op in ('and', 'or', 'xor'):
            return BI({'and': lambda: And(a.b, b.b), 'or': lambda: Or(a.b, b.b), 'xor': lambda: simp(z3.Xor(zb(a.b), zb(b.b)))}[op]())
        if op in ('sdiv', 'udiv') and isinstance(a, Scl) and isinstance(b, int) and b and a.k % b == 0:
            return a.e if a.k == b else Scl(a.k // b, a.e)
        if op == 'ashr' and isinstance(a, Scl) and isinstance(b, int) and a.k % 2**b == 0:
            return a.e if a.k == 2**b else Scl(a.k >> b, a.e)
        if op == 'mul' and (isinstance(a, int) or isinstance(b, int)) and not isinstance(a, (BI, Scl)) and not isinstance(b, (BI, Scl)):
            k, e = (a, b) if isinstance(a, int) else (b, a)
            if isz(e) and k in (8, 16, 24, 32, 4, 2) and w == 64:
                if not ('nsw' in fl): 
                    if not self.valid(st, self.rng(st, e * k, w)): return self.canon(st, simp(e * k), w)
                else: self.oblige(st, 'no-signed-overflow(mul)', 'arith', self.rng(st, e * k, w), loc)
                return Scl(k, e)
        if op == 'shl' and isinstance(b, int) and isz(a) and w == 64 and b in (3, 4, 5) and not isinstance(a, (BI, Scl)):
            if self.valid(st, self.rng(st, a * 2**b, w)): return Scl(2**b, a)
        a = self.num(a); b = self.num(b)
        if op in ('add', 'sub', 'mul'):
            r = {'add': add, 'sub': sub, 'mul': mul}[op](a, b)
            if 'nsw' in fl:
                self.oblige(st, 'no-signed-overflow(%s)' % op, 'arith', self.rng(st, r, w), loc); return r
            return self.canon(st, r, w)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            self.oblige(st, 'divisor-nonzero', 'arith', cmpop('ne', b, 0), loc)
            if op[0] == 'u': a = self.uns(st, a, w); b = self.uns(st, b, w)
            if isinstance(a, int) and isinstance(b, int):
                if b == 0: raise PathEnd()
                q = abs(a)//abs(b); q = q if (a >= 0) == (b >= 0) else -q
                return q if op.endswith('div') else a - q*b
            A, B = zi(a), zi(b)
            if op[0] == 's' and not isinstance(b, int): self.oblige(st, 'no-signed-overflow(div)', 'arith', z3.Or(A > -(2**(w-1)), B != -1), loc)
            pos = self.valid(st, A >= 0); bpos = self.valid(st, B > 0)
            if pos and bpos: q = A / B
            elif bpos: q = z3.If(A >= 0, A / B, -((-A) / B))
            else:
                absA = z3.If(A >= 0, A, -A); absB = z3.If(B >= 0, B, -B); q = z3.If((A >= 0) == (B >= 0), absA / absB, -(absA / absB))
            if op.endswith('div'): r = q
            else: r = (A % B) if pos and bpos else A - q*B
            if op[0] == 'u': r = self.canon(st, simp(r), w)
            return simp(r)
        if op == 'shl':
            if not isinstance(b, int):
                if isinstance(a, int) and a == 1:
                    self.oblige(st, 'shift-in-range', 'arith', And(cmpop('ge', b, 0), cmpop('lt', b, w)), loc)
                    r = z3.IntVal(2**(w-1)) if False else None
                    e = z3.IntVal(-(2**(w-1)))
                    for k in range(w-2, -1, -1): e = z3.If(b == k, z3.IntVal(2**k), e)
                    return e
                raise Unsupported('shl by symbolic amount')
            return self.canon(st, mul(a, 2**b), w)
        if op == 'lshr' or op == 'ashr':
            if not isinstance(b, int): raise Unsupported('shift by symbolic amount')
            if op == 'lshr': a = self.uns(st, a, w)
            return a >> b if isinstance(a, int) else simp(a / z3.IntVal(2**b))
        if op in ('and', 'or', 'xor'):
            if isinstance(a, int) and isinstance(b, int):
                r = {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]; return r
            if op == 'and':
                k, e = (a, b) if isinstance(a, int) else (b, a)
                if isinstance(k, int) and k >= 0 and (k & (k+1)) == 0: return simp(zi(e) % z3.IntVal(k+1))
                if isinstance(k, int) and k < 0 and ((-k) & (-k-1)) == 0: return simp(zi(e) - zi(e) % z3.IntVal(-k))
            if op == 'xor' and (isinstance(b, int) and b == -1): return sub(-1, a)
            # bit-vector semantics through int2bv (rarely needed)
            f = self.bvfun(op, w)
            return f(zi(a), zi(b))
        raise Unsupported('binop ' + op)
    def bvfun(self, op, w):
        def f(a, b):
            A = z3.Int2BV(a, w); B = z3.Int2BV(b, w)
            r = {'and': A & B, 'or': A | B, 'xor': A ^ B}[op]
            return z3.BV2Int(r, True)
        return f
    def fpbin(self, op, a, b): raise Unsupported('floating point')
    def asbool(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, BI): return v.b
        if isz(v):
            if z3.is_bool(v): return v
            return simp(v != 0)
        if isinstance(v, int): return bool(v & 1)
        if v is UNDEF: raise Unsupported('branch on undefined value')
        raise Unsupported('bool of %r' % (v,))
    def icmp(self, st, pr, ty, a, b, loc=None):
        if ty[0] == 'ptr':
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                return e if pr == 'eq' else not e
            if a is UNDEF or b is UNDEF: raise Unsupported('comparison of undefined pointer')
            if a.obj is not b.obj:
                if pr == 'eq': return False
                if pr == 'ne': return True
                raise Unsupported('ordering pointers into different objects')
            if a.obj is None: return {'eq': True, 'ne': False, 'ule': True, 'uge': True, 'ult': False, 'ugt': False}[pr]
            op = {'eq': 'eq', 'ne': 'ne', 'ult': 'lt', 'ule': 'le', 'ugt': 'gt', 'uge': 'ge'}[pr]
            if a.sub == b.sub: return cmpop(op, a.idx, b.idx)
            if same(a.idx, b.idx): return cmpop(op, a.sub, b.sub)
            if a.obj.kind == 'region':
                k = self.esize(a.obj)
                return cmpop(op, add(mul(a.idx, k), a.sub), add(mul(b.idx, k), b.sub))
            raise Unsupported('pointer comparison')
        if ty == ('int', 1) or isinstance(a, BI) and isinstance(b, BI):
            A, B = self.asbool(a), self.asbool(b)
            if pr in ('eq', 'ne'):
                r = simp(zb(A) == zb(B)); return r if pr == 'eq' else Not(r)
            a, b = BI(A), BI(B)
        if isinstance(a, PI) or isinstance(b, PI):
            if isinstance(a, PI) and isinstance(b, PI): return self.icmp(st, pr, ('ptr',), a.p, b.p)
            if isinstance(a, PI) and b == 0 and pr in ('eq', 'ne'): return self.icmp(st, pr, ('ptr',), a.p, NULL)
            raise Unsupported('pointer/integer comparison')
        if isinstance(a, BI) and isinstance(b, int) and pr in ('eq', 'ne') and b in (0, 1):
            r = a.b if b == 1 else Not(a.b)
            return r if pr == 'eq' else Not(r)
        if isinstance(a, Scl) and isinstance(b, Scl) and a.k == b.k and a.k > 0: a, b = a.e, b.e
        elif isinstance(a, Scl) and isinstance(b, int) and b % a.k == 0: a, b = a.e, b // a.k
        a, b = self.num(a), self.num(b); w = ty[1]
        if pr[0] in 'u':
            a, b = self.uns(st, a, w), self.uns(st, b, w)
        op = {'eq': 'eq', 'ne': 'ne'}.get(pr) or pr[1:]
        return cmpop(op, a, b)
    def cast(self, st, ins, v, loc):
        op, ft, _ = ins.args; tt = ins.ty
        if op == 'bitcast' and ft == tt: return v
        if v is UNDEF: return UNDEF
        if op == 'ptrtoint': return PI(v)
        if op == 'inttoptr':
            if isinstance(v, PI): return v.p
            if v == 0: return NULL
            raise Unsupported('inttoptr')
        if op == 'zext':
            if ft == ('int', 1):
                b = self.asbool(v); return int(b) if isinstance(b, bool) else BI(b)
            if isinstance(v, (BI, Scl)): return v if isinstance(v, BI) else self.uns(st, self.num(v), ft[1])
            return self.uns(st, v, ft[1])
        if op == 'sext':
            if ft == ('int', 1):
                b = self.asbool(v); return -int(b) if isinstance(b, bool) else z3.If(b, z3.IntVal(-1), z3.IntVal(0))
            return v
        if op == 'trunc':
            if tt == ('int', 1): 
                if isinstance(v, BI): return v.b
                if isinstance(v, int): return bool(v & 1)
                return simp(self.num(v) % 2 == 1)
            if isinstance(v, BI): return v
            return self.canon(st, self.num(v), tt[1])
        raise Unsupported('cast ' + op)
    # -- running functions
    def run_function(self, fn, args, st, depth=0, path=(), contract=None, ctx=None):
        """symbolically execute fn; returns list of (state, return value)"""
        if depth > 40: raise Unsupported('inlining too deep at ' + fn.demangled)
        if fn.decl: raise Unsupported('no body and no contract: ' + fn.demangled)
        fr = Frame(fn, depth, path + (basename(fn.demangled),)); fr.contract = contract; fr.ctx = ctx
        for (t, nm, at), a in zip(fn.params, args): fr.regs[nm] = a
        return self.explore(fr, st, fn.order[0], None, [], None)
    def explore(self, fr, st, block, prev, loopstack, stop):
        """Run from `block`.  `stop`=(header, body) when exploring a loop body: paths reaching header are
        returned as ('back',...), paths leaving body as ('exit',...).  Results: list of
        (state, retval) when stop is None, else list of tagged tuples."""
        work = [(fr, st, block, prev)]; out = []
        loops = self.m.find_loops(fr.fn)
        first = True
        while work:
            if self.deadline and time.time() > self.deadline: raise Unsupported('time limit for the symbolic execution')
            fr, st, block, prev = work.pop()
            if stop is not None and not first:
                if block == stop[0]: out.append(('back', st, fr, prev)); continue
                if block not in stop[1]: out.append(('exit', st, fr, block, prev)); continue
            if block in loops and not (first and stop is not None and block == stop[0]):
                first = False
                res = self.loop(fr, st, block, prev, loopstack)
                if res is not None:
                    for r in res:
                        if r[0] == 'ret':
                            out.append((r[1], r[2]) if stop is None else r)
                        else: work.append((r[2], r[1], r[3], r[4]))
                    continue
                # unroll
                n = fr.visits.get(block, 0) + 1; fr.visits[block] = n
                if n > 400: raise Unsupported('loop without invariant in %s (%s)' % (basename(fr.fn.demangled), block))
            first = False
            try:
                nxt = self.run_block(fr, st, block, prev)
            except PathEnd:
                self.paths += 1; continue
            for k in nxt:
                if k[0] == 'ret':
                    self.paths += 1
                    if self.paths > self.maxpaths: raise Unsupported('too many paths')
                    out.append((k[1], k[2]) if stop is None else ('ret', k[1], k[2]))
                else: work.append((k[2], k[1], k[3], block))
        return out
    def run_block(self, fr, st, block, prev):
        """returns list of ('ret',st,val) / ('go',st,fr,next)"""
        instrs = fr.fn.blocks[block]
        return self.run_from(fr, st, block, instrs, 0, prev)
    def run_from(self, fr, st, block, instrs, i, prev):
        # phis are simultaneous
        if i == 0 and instrs and instrs[0].op == 'phi' and prev is not None:
            vals = {}
            while instrs[i].op == 'phi':
                ins = instrs[i]
                if ('phi', ins.res) in fr.regs: vals[ins.res] = fr.regs.pop(('phi', ins.res))
                else:
                    for v, b in ins.args:
                        if b == prev: vals[ins.res] = self.val(st, fr, ins.ty, v); break
                    else: raise Unsupported('phi without matching predecessor')
                i += 1
            fr.regs.update(vals)
        while i < len(instrs):
            ins = instrs[i]; op = ins.op
            loc = ins.dbg
            if op in ('nop', 'dbgdecl'): i += 1; continue
            if op == 'alloca': fr.regs[ins.res] = self.alloca(st, fr, ins)
            elif op == 'store':
                v = self.val(st, fr, ins.ty, ins.args[0]); p = self.val(st, fr, ('ptr',), ins.args[1])
                self.store(st, p, ins.ty, v, loc)
            elif op == 'load':
                fr.regs[ins.res] = self.load(st, self.val(st, fr, ('ptr',), ins.args[0]), ins.ty, loc)
            elif op == 'gep':
                b = self.val(st, fr, ('ptr',), ins.args[0])
                fr.regs[ins.res] = self.gep(st, fr, ins.ty, b, [(t, self.val(st, fr, t, x)) for t, x in ins.args[1]], ins.args[2], loc)
            elif op == 'bin':
                fr.regs[ins.res] = self.binop(st, ins, self.val(st, fr, ins.ty, ins.args[1]), self.val(st, fr, ins.ty, ins.args[2]), loc)
            elif op == 'icmp':
                fr.regs[ins.res] = self.icmp(st, ins.args[0], ins.ty, self.val(st, fr, ins.ty, ins.args[1]), self.val(st, fr, ins.ty, ins.args[2]), loc)
            elif op == 'cast':
                fr.regs[ins.res] = self.cast(st, ins, self.val(st, fr, ins.args[1], ins.args[2]), loc)
            elif op == 'freeze': fr.regs[ins.res] = self.val(st, fr, ins.ty, ins.args[0])
            elif op == 'extractvalue':
                v = self.val(st, fr, ins.ty, ins.args[0])
                for k in ins.args[1]: v = v[k]
                fr.regs[ins.res] = v
            elif op == 'insertvalue':
                v = self.val(st, fr, ins.ty, ins.args[0]); e = self.val(st, fr, ('int', 64) if False else self.fieldty(ins.ty, ins.args[2]), ins.args[1])
                fr.regs[ins.res] = self.insv(ins.ty, v, e, ins.args[2])
            elif op == 'select':
                c = self.asbool(self.val(st, fr, ('int', 1), ins.args[0]))
                if isinstance(c, bool): fr.regs[ins.res] = self.val(st, fr, ins.ty, ins.args[1 if c else 2])
                else:
                    a = self.val(st, fr, ins.ty, ins.args[1]); b = self.val(st, fr, ins.ty, ins.args[2])
                    fr.regs[ins.res] = self.ite(c, a, b)
            elif op in ('call', 'invoke'):
                res = self.call(fr, st, ins)
                nb = ins.args[2][0] if op == 'invoke' else None
                outs = []
                if any(v is EXC for _, v in res):
                    for s2, v in res:
                        if v is not EXC: continue
                        s2.ghost['unw'] = True
                        if op == 'invoke': outs.append(('go', s2, fr.fork(), ins.args[2][1]))
                        else:
                            self.leave(fr, s2, loc); outs.append(('ret', s2, EXC))
                    res = [(s2, v) for s2, v in res if v is not EXC]
                    if not res: return outs
                    if nb is None:
                        for k, (s2, v) in enumerate(res):
                            f2 = fr.fork()
                            if ins.res is not None: f2.regs[ins.res] = v
                            try: outs += self.run_from(f2, s2, block, instrs, i+1, prev)
                            except PathEnd: self.paths += 1
                        return outs
                for k, (s2, v) in enumerate(res):
                    f2 = fr if k == len(res)-1 else fr.fork()
                    f2 = fr.fork() if len(res) > 1 else fr
                    if ins.res is not None: f2.regs[ins.res] = v
                    if nb is not None: outs.append(('go', s2, f2, nb))
                    elif len(res) == 1: st = s2; fr = f2
                    else:
                        try: outs += self.run_from(f2, s2, block, instrs, i+1, prev)
                        except PathEnd: self.paths += 1
                if nb is not None or len(res) != 1: return outs
            elif op == 'br': return [('go', st, fr, ins.args[0])]
            elif op == 'cbr':
                c = self.asbool(self.val(st, fr, ('int', 1), ins.args[0]))
                c = simp(c)
                if isinstance(c, bool): return [('go', st, fr, ins.args[1 if c else 2])]
                outs = []
                t = self.feasible(st, c); f = self.feasible(st, z3.Not(c))
                if t and f:
                    s2 = st.fork(); f2 = fr.fork()
                    s2.pc.append(simp2(z3.Not(c))); st.pc.append(c)
                    return [('go', s2, f2, ins.args[2]), ('go', st, fr, ins.args[1])]
                if t: st.pc.append(c); return [('go', st, fr, ins.args[1])]
                if f: st.pc.append(simp2(z3.Not(c))); return [('go', st, fr, ins.args[2])]
                return []
            elif op == 'switch':
                v = self.num(self.val(st, fr, ins.ty, ins.args[0])); outs = []
                if isinstance(v, int):
                    for cv, b in ins.args[2]:
                        if cv[1] == v: return [('go', st, fr, b)]
                    return [('go', st, fr, ins.args[1])]
                neg = []
                for cv, b in ins.args[2]:
                    if self.feasible(st, v == cv[1]):
                        s2 = st.fork(); s2.pc.append(v == cv[1]); outs.append(('go', s2, fr.fork(), b))
                    neg.append(v != cv[1])
                c = z3.And(*neg) if neg else z3.BoolVal(True)
                if self.feasible(st, c):
                    st.pc += neg; outs.append(('go', st, fr, ins.args[1]))
                return outs
            elif op == 'ret':
                v = None if ins.args[0] is None else self.val(st, fr, ins.ty, ins.args[0])
                self.leave(fr, st, loc)
                return [('ret', st, v)]
            elif op == 'landingpad': fr.regs[ins.res] = [Opaque('exn'), Opaque('sel')]
            elif op == 'resume':
                self.leave(fr, st, loc); return [('ret', st, EXC)]
            elif op == 'unreachable':
                self.oblige(st, 'unreachable-code-not-reached', 'mem', False, loc); return []
            elif op == 'icmp': pass
            else: raise Unsupported('%s: %s' % (op, ins.text.strip()[:120] + (' ' + str(ins.args[0]) if op == 'unsupported' else '')))
            i += 1
        raise Unsupported('fell off block')
    def fieldty(self, t, ix):
        for k in ix:
            t = self.m.layout(t)[3][k] if t[0] in ('struct', 'lit') else t[2]
        return t
    def insv(self, t, v, e, ix):
        n = len(self.m.layout(t)[3])
        v = list(v) if isinstance(v, (list, tuple)) else [UNDEF]*n
        if len(ix) == 1: v[ix[0]] = e
        else: v[ix[0]] = self.insv(self.m.layout(t)[3][ix[0]], v[ix[0]], e, ix[1:])
        return v
    def ite(self, c, a, b):
        if same(a, b): return a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj and a.sub == b.sub: return Ptr(a.obj, simp(z3.If(c, zi(a.idx), zi(b.idx))), a.sub)
            raise Unsupported('select between objects')
        if isinstance(a, bool) or (isz(a) and z3.is_bool(a)): return simp(z3.If(c, zb(self.asbool(a)), zb(self.asbool(b))))
        return simp(z3.If(c, zi(self.num(a)), zi(self.num(b))))
    def leave(self, fr, st, loc):
        """on return: every element-typed local must have been destroyed; drop locals"""
        for b in fr.fn.order:
            for ins in fr.fn.blocks[b]:
                if ins.op == 'alloca' and ins.res in fr.regs:
                    p = fr.regs[ins.res]; o = p.obj
                    for off, (t, v) in list(st.mem.get(o.id, {}).items()):
                        if t == ('elem',): self.oblige(st, 'local-element-destroyed', 'own', cmpop('eq', v, RAW), loc)
                    st.mem.pop(o.id, None)
    # -- loops
    def loop(self, fr, st, head, prev, loopstack):
        loops = self.m.find_loops(fr.fn); ordn, body = loops[head]
        ann = self.find_annotation(fr, ordn, head)
        if ann is None: return None
        if ann.when is not None and not ann.when(LoopCtx(self, fr, st, ordn, entry=None)): return None
        key = (self.unit, fr.path, head)
        phis = [i for i in fr.fn.blocks[head] if i.op == 'phi']
        L0 = LoopCtx(self, fr, st, ordn, entry=None)
        entry_state = st
        entry_phi = {}
        for ins in phis:
            for v, b in ins.args:
                if b == prev: entry_phi[ins.res] = self.val(st, fr, ins.ty, v)
        # ghost bindings on entry
        Lentry = LoopCtx(self, fr, st, ordn, entry=None, phi=entry_phi)
        Lentry.entry = Lentry
        snap = st.fork(); Lsnap = LoopCtx(self, fr.fork(), snap, ordn, entry=None, phi=entry_phi); Lsnap.entry = Lsnap
        Lentry.entry = Lsnap
        lname = '%s/loop%d' % (basename(fr.fn.demangled).replace('cppsort::detail::', ''), ordn)
        hloc = fr.fn.blocks[head][0].dbg
        for nm, tag, f in ann.invs(Lentry):
            self.oblige(st, '%s:inv-init:%s' % (lname, nm), tag, f, hloc)
        W = set(self.wcache.get(key, ()))
        nobs = len(self.obs)
        for attempt in range(12):
            del self.obs[nobs:]
            st1 = st.fork(); fr1 = fr.fork()
            phiv = {}
            for (oid, subk) in sorted(W, key=str):
                if oid == 'phi': continue
                self.havoc_cell(st1, oid, subk, ann, Lsnap)
            for ins in phis:
                v = entry_phi[ins.res]
                if ('phi', ins.res) in W: v = self.havoc_val(st1, 'phi_' + ins.res, v, ins.ty)
                phiv[ins.res] = v; fr1.regs[('phi', ins.res)] = v
            L1 = LoopCtx(self, fr1, st1, ordn, entry=Lsnap, phi=phiv)
            for nm, tag, f in ann.invs(L1): self.assume(st1, f)
            for nm, tag, f in self.auto_frame(fr1, st1, W): self.assume(st1, f)
            hsnap = st1.fork(); Lh = LoopCtx(self, fr1.fork(), hsnap, ordn, entry=Lsnap, phi=phiv)
            var0 = ann.var(Lh)
            if not self.feasible(st1):   # unreachable loop under this path
                return []
            try:
                res = self.explore(fr1, st1, head, prev, loopstack + [head], (head, body))
            except NeedHavoc as nh:
                W.add(nh.cell); continue
            newW = set()
            exits = []
            for r in res:
                if r[0] == 'back':
                    s2, f2, pb = r[1], r[2], r[3]
                    for oid, cells in hsnap.mem.items():
                        c2 = s2.mem.get(oid)
                        if c2 is None: continue
                        if c2 is cells: continue
                        for k, cv in cells.items():
                            a = cv[1] if isinstance(cv, tuple) else cv
                            if k not in c2: newW.add((oid, k)); continue
                            bv = c2[k][1] if isinstance(c2[k], tuple) else c2[k]
                            if not same(a, bv): newW.add((oid, k))
                        for k in c2:
                            if k not in cells: newW.add((oid, k))
                    for ins in phis:
                        for v, b in ins.args:
                            if b == pb:
                                nv = self.val(s2, f2, ins.ty, v)
                                if not same(nv, phiv[ins.res]): newW.add(('phi', ins.res))
            if newW - W:
                W |= newW; continue
            break
        else: raise Unsupported('loop effect analysis did not converge')
        self.wcache[key] = set(W)
        for nm, tag, f in self.auto_frame(fr, st, W):
            if not st is entry_state: break
            self.oblige(entry_state, '%s:inv-init:%s' % (lname, nm), tag, f, hloc)
        for r in res:
            if r[0] == 'back':
                s2, f2, pb = r[1], r[2], r[3]
                nphi = {}
                for ins in phis:
                    for v, b in ins.args:
                        if b == pb: nphi[ins.res] = self.val(s2, f2, ins.ty, v)
                L2 = LoopCtx(self, f2, s2, ordn, entry=Lsnap, phi=nphi); L2.head = Lh
                if s2.ghost.get('heap', frozenset()) != hsnap.ghost.get('heap', frozenset()): self.oblige(s2, '%s:no-block-left-by-an-iteration' % lname, 'own', False, hloc)
                for nm, tag, f in ann.invs(L2):
                    self.oblige(s2, '%s:inv-preserved:%s' % (lname, nm), tag, f, hloc)
                for nm, tag, f in self.auto_frame(f2, s2, W):
                    self.oblige(s2, '%s:inv-preserved:%s' % (lname, nm), tag, f, hloc)
                if var0 is not None:
                    v2 = ann.var(L2)
                    if isinstance(var0, tuple):
                        dec = False
                        for x, y in zip(reversed(var0), reversed(v2)):
                            dec = Or(And(cmpop('lt', y, x), cmpop('ge', x, 0)), And(cmpop('eq', x, y), dec))
                        self.oblige(s2, '%s:variant-decreases' % lname, 'term', dec, hloc)
                    else:
                        self.oblige(s2, '%s:variant-decreases' % lname, 'term', And(cmpop('lt', v2, var0), cmpop('ge', var0, 0)), hloc)
                self.paths += 1
            elif r[0] == 'ret': exits.append(('ret', r[1], r[2]))
            else: exits.append(('exit', r[1], r[2], r[3], r[4]))
        return exits
    def auto_frame(self, fr, st, W):
        """implicit invariant: element storage outside the declared frame of the unit is unchanged"""
        c = fr.ctx
        if c is None or c.contract is None: return
        rs = {}; objs = {}
        for f in c.contract.frame(c):
            o = f[1].obj if isinstance(f[1], Ptr) else f[1]
            if o is None: continue
            objs[o.id] = o; rs.setdefault(o.id, []).append((zi(f[2]), zi(f[3])))
        for oid, l in rs.items():
            if (oid, 0) not in W or oid not in st.mem or 0 not in st.mem[oid]: continue
            o = objs[oid]
            if len(l) == 1 and same(l[0][0], o.lo) and same(l[0][1], o.hi): continue
            A0 = c.pre_mem.get(oid, {}).get(0)
            if A0 is None: continue
            A = st.mem[oid][0]; i = z3.Int('af')
            yield 'auto-frame', 'frame', z3.ForAll([i], z3.Or(*[z3.And(a <= i, i < b) for a, b in l], z3.Select(A, i) == z3.Select(A0, i)), patterns=[z3.Select(A, i)])
    def havoc_val(self, st, name, v, ty):
        if isinstance(v, Ptr):
            if v.obj is None: raise Unsupported('loop changes a null pointer variable ' + name)
            if v.obj.kind != 'region': raise Unsupported('loop changes pointer to non-region (%s)' % name)
            return Ptr(v.obj, self.fresh_int(st, name), v.sub)
        if isinstance(v, PI): return PI(self.havoc_val(st, name, v.p, ('ptr',)))
        if isinstance(v, BI) or (ty == ('int', 8) and isinstance(v, int) and False): return BI(self.fresh(name, z3.BoolSort()))
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): return self.fresh(name, z3.BoolSort())
        if ty == ('elem',): return self.fresh(name)
        if isinstance(v, Scl): return self.fresh_int(st, name, 64)
        if isinstance(v, int) or isz(v):
            return self.fresh_int(st, name, ty[1] if ty and ty[0] == 'int' else 64)
        if v is UNDEF: return UNDEF
        raise Unsupported('havoc of %r' % (v,))
    def havoc_cell(self, st, oid, k, ann, Lsnap):
        cells = st.mem.get(oid)
        if cells is None: return
        if k not in cells: return
        c = cells[k]; nm = self.objname(oid)
        if isinstance(c, tuple):
            ty, v = c
            # a boolean byte holding constant 0/1 may become symbolic boolean
            nv = self.havoc_val(st, nm, v, ty)
            if isinstance(v, int) and not isinstance(v, bool) and ty == ('int', 8): nv = self.fresh_int(st, nm, 8)
            st.mem[oid] = {**cells, k: (ty, nv)}
        else:
            st.mem[oid] = {**cells, k: self.fresh('A_' + nm, z3.ArraySort(Int, Int))}
    _names = {}
    def objname(self, oid): return 'o%d' % oid
    def find_annotation(self, fr, ordn, head):
        # annotations of the unit under verification, keyed by function base name; any frame
        base = basename(fr.fn.demangled)
        ov = getattr(fr.ctx, 'loop_overrides', None) if fr.ctx else None
        anns = self.reg.loop_annotations(base, fr.fn)
        if anns is None: return None
        return anns.get(ordn)
    # -- calls
    def call(self, fr, st, ins):
        callee, args, _ = ins.args
        if callee[0] != 'glob':
            v = self.val(st, fr, ('ptr',), callee)
            if isinstance(v, FnPtr): name = v.name
            else: raise Unsupported('indirect call')
        else: name = callee[1]
        fn = self.m.funcs.get(name)
        if fn is None: raise Unsupported('call to unknown ' + name)
        av = []
        for t, v, at in args:
            x = self.val(st, fr, t, v)
            if 'byval' in at:
                x = self.copy_object(st, x, at['byval'])
            av.append(x)
        loc = ins.dbg
        r = self.reg.builtin(self, fr, st, fn, name, av, loc, ins)
        if r is not None: return r
        c = self.reg.contract_for(fn, self)
        if c is not None and not getattr(c, 'inline_in', lambda *_: False)(self.unit, fr):
            return self.apply_contract(c, fr, st, fn, av, loc)
        if name in (getattr(fr, 'path', ()) ): pass
        if sum(1 for p in fr.path if p == basename(fn.demangled)) > 6: raise Unsupported('recursion without contract: ' + fn.demangled)
        self.inlined.add(basename(fn.demangled)); self.inlined_fns.add(fn.name)
        return self.run_function(fn, av, st, fr.depth+1, fr.path, ctx=fr.ctx)
    def copy_object(self, st, p, ty):
        o = Obj('scalar', 'byval'); st.mem[o.id] = dict(st.mem[p.obj.id])
        return Ptr(o, 0, p.sub)
    def apply_contract(self, c, fr, st, fn, av, loc):
        self.used_contracts.add(c.name)
        if c.trusted: self.assumed.add(c.name)
        cc = CallCtx(self, c, fn, st, av)
        nm = basename(fn.demangled).replace('cppsort::detail::', '')
        for n, tag, f in c.pres(cc):
            self.oblige(st, 'call-%s:pre:%s' % (nm, n), tag, f, loc)
        if getattr(c, 'decreases', None) and fr.ctx is not None and (c is fr.ctx.contract or (getattr(c, 'rec_group', None) and c.rec_group == getattr(fr.ctx.contract, 'rec_group', None))):
            d0 = fr.ctx.dec; d1 = c.decreases(cc)
            self.oblige(st, 'call-%s:recursion-decreases' % nm, 'term', And(cmpop('lt', d1, d0), cmpop('ge', d1, 0)), loc)
        if self.costs:
            if not hasattr(c, 'cost'): raise Unsupported('no cost contract for ' + c.name)
            outs = []
            for s1, r1 in c.apply(cc):
                cc.st = s1; d = {}
                for k, off in CNT.items():
                    d[k] = self.fresh('n_' + k); s1.pc.append(d[k] >= 0); self.tick(s1, off, d[k])
                cc.aux['cost'] = d
                for n, f in c.cost(cc, r1): self.assume(s1, f)
                outs.append((s1, r1))
            return self.hinted(c, cc, fr, outs)
        if self.exc and not fn.nounwind and not c.nothrow:
            sx = st.fork(); cx = CallCtx(self, c, fn, sx, av); c.apply_exc(cx)
            return [(sx, EXC)] + self.hinted(c, cc, fr, c.apply(cc))
        return self.hinted(c, cc, fr, c.apply(cc))
    def hinted(self, c, cc, fr, outs):
        """intermediate assertions of the unit's contract after a call: proved, then available"""
        u = fr.ctx.contract if fr.ctx is not None else None
        h = getattr(u, 'after', None) and u.after.get(c.name)
        if h:
            for st, ret in outs:
                if ret is EXC: continue
                cc.st = st
                self.lemmas(st, h(self, fr, st, cc, ret))
        return outs
    def lemmas(self, st, hs):
        """assertions proved in order; (name, tag, formula, [names]) is proved from the quantifier-free facts and the named assertions only"""
        known = {}
        for x in hs:
            n, tag, f = x[:3]
            if len(x) > 3:
                s2 = st.fork(); s2.pc = [p for p in st.pc if not (isz(p) and self._hasq(p))]
                for d in x[3]: self.assume(s2, known[d])
                self.oblige_only(s2, 'lemma:%s' % n, tag, f)
            else: self.oblige_only(st, 'lemma:%s' % n, tag, f)
            self.assume(st, f); known[n] = f

class PathEnd(Exception): pass
class NeedHavoc(Exception):
    def __init__(s, cell): s.cell = cell
def simp2(e):
    return z3.simplify(e)

# ------------------------------------------------------------------ contexts given to specifications
def comp_dir(fn):
    """how the comparator argument of a template instance relates to the abstract comparator"""
    d = fn.demangled
    i = d.find('<'); a = d[i:]
    # template arguments only (up to the parameter list)
    depth = 0; k = 0
    for k, ch in enumerate(a):
        if ch == '<': depth += 1
        elif ch == '>': 
            depth -= 1
            if depth == 0: break
    a = a[:k+1]
    flips = len(re.findall(r'\bflip_t<', a)); nots = len(re.findall(r'\bnot_fn_t<', a))
    return flips % 2, nots % 2
CNT = {'cmp': 0, 'swaps': 8, 'moves': 16, 'nomem': 24}
class Base:
    def cnt(self, k):
        """number of operations of kind k performed since the unit was entered"""
        return zi(self.st.mem[self.eng.cobj.id][CNT[k]][1])
    def lt(self, a, b):
        fn = self.fn if hasattr(self, 'fn') else self.fr.fn
        fl, nt = comp_dir(fn)
        if fl: a, b = b, a
        r = rk(zi(a)) < rk(zi(b))
        return z3.Not(r) if nt else r
    def A(self, o):
        """current array of ids of element region o"""
        o = o.obj if isinstance(o, Ptr) else o
        if o.id not in self.st.mem: raise MissingVar('dead region')
        if o.kind == 'heap': self.eng.settle(o, ('elem',))
        return self.eng.arr(self.st, o)
    def elem(self, p):
        """id stored at a (scalar) element variable"""
        o = p.obj
        if o.kind == 'region': return z3.Select(self.eng.arr(self.st, o), zi(p.idx))
        c = self.st.mem[o.id].get(p.sub)
        return c[1] if c else None

class LoopCtx(Base):
    def __init__(s, eng, fr, st, ordn, entry, phi=None):
        s.eng = eng; s.fr = fr; s.st = st; s.ordn = ordn; s.entry = entry; s.phi = phi or {}; s.head = None
        s.ctx = fr.ctx; s.mode = eng.mode
    def has(s, name): 
        try: s.var(name); return True
        except MissingVar: return False
    def var(s, name, k=None):
        """pointer to local variable `name` of the current frame"""
        vs = [r for (n, a, r) in s.eng.m.vars(s.fr.fn) if n == name and r in s.fr.regs]
        if not vs:
            alt = s.eng.reg.rename(s.fr.fn, name, s.eng.m)
            if alt is not None and alt in s.fr.regs: vs = [alt]
        if not vs: raise MissingVar('no variable %r in %s' % (name, basename(s.fr.fn.demangled)))
        p = s.fr.regs[vs[k if k is not None else -1]]
        return p
    def v(s, name, k=None, deref=False):
        p = s.var(name, k)
        c = s.st.mem[p.obj.id]
        if p.sub in c: val = c[p.sub][1]
        else: raise MissingVar('variable %r not initialised' % name)
        if deref: val = s.eng.load(s.st, val, ('ptr',))
        return val
    def i(s, name, k=None):
        x = s.v(name, k)
        if isinstance(x, Ptr): return zi(x.idx)
        return zi(s.eng.num(x))
    def at(s, name, off, k=None):
        p = s.var(name, k); c = s.st.mem[p.obj.id].get(p.sub + off)
        if c is None: raise MissingVar('field %d of %r' % (off, name))
        return zi(c[1].idx) if isinstance(c[1], Ptr) else zi(s.eng.num(c[1]))
    def obj(s, name, k=None): return s.v(name, k).obj
    def init(s, name):
        try: s.v(name); return True
        except MissingVar: return False
    def e(s, name, k=None):
        """id held by element-typed local"""
        return s.elem(s.var(name, k))
    def arg(s, name): return s.ctx.p(name)
    def ai(s, name): return s.ctx.i(name)
    def A0(s, o): return s.ctx.A_old(o)

class CallCtx(Base):
    """view of a function's parameters, in verification and at call sites"""
    def __init__(s, eng, contract, fn, st, av):
        s.eng = eng; s.contract = contract; s.fn = fn; s.st = st; s.av = av; s.mode = eng.mode
        s.pre_mem = dict(st.mem); s.dec = None; s.aux = {}; s.verifying = False
        if contract is not None and not contract.has_mode(s.mode): s.mode = 'plain'
        s.names = {}
        vs = {r: n for (n, a, r) in eng.m.vars(fn)} if not fn.decl else {}
        for k, (t, nm, at) in enumerate(fn.params):
            n = nm[:-7] if nm.endswith('.coerce') else nm
            n = re.sub(r'\.coerce\d+$', lambda m: m.group(0)[7:], n)
            s.names[n] = k
    def p(s, name):
        if isinstance(name, int): return s.av[name]
        if name in s.names: return s.av[s.names[name]]
        alt = s.eng.reg.param_alias(s.fn, name, s.contract)
        if alt is not None and alt < len(s.av): return s.av[alt]
        raise MissingVar('no parameter %r in %s' % (name, basename(s.fn.demangled)))
    def it(s, name):
        """iterator parameter: pointer, whether passed directly or as a one-pointer struct by reference"""
        x = s.p(name)
        return x
    def i(s, name):
        x = s.p(name)
        if isinstance(x, Ptr): return zi(x.idx)
        return zi(s.eng.num(x))
    def delta(s, k):
        """number of operations of kind k performed by the function"""
        d = s.aux.get('cost')
        if d is not None and not s.verifying: return d[k]
        return zi(s.st.mem[s.eng.cobj.id][CNT[k]][1]) - zi(s.pre_mem[s.eng.cobj.id][CNT[k]][1])
    def A_old(s, o):
        o = o.obj if isinstance(o, Ptr) else o
        c = s.pre_mem.get(o.id)
        if c is None: raise MissingVar('no pre-state')
        if 0 not in c: 
            a = z3.K(Int, z3.IntVal(RAW)) if o.etype == ('elem',) else s.eng.arr(s.st, o)
            return a
        return c[0]
