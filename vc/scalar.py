"""Bit-precise symbolic execution of loop-free or constant-bounded functions of /repo (clang IR -> z3).

A harness function vc_<name> in /verif/harness/<tu>.cpp states a contract: it makes arbitrary inputs
(__vc_any_*), assumes the precondition, calls the real function and asserts the postcondition
(__vc_assert).  Every path is explored; integers are machine integers, floating-point values are bit
patterns compared with IEEE semantics.  Undefined behaviour is instrumented by clang
(-fsanitize=... -fsanitize-trap) and every reachable trap is a failed obligation.  Loops are unrolled
until their exit condition is decided: there is no bound that is silently cut, exceeding the budget is
an error (undecided).  Functions named __vc_uf_* are uninterpreted: they stand for arbitrary user
comparisons and projections.
"""
import sys, re, time, hashlib
import z3
import ir
FLAGS = ('-std=c++17 -S -emit-llvm -O0 -Xclang -disable-O0-optnone -Xclang -disable-llvm-passes -fno-discard-value-names -g -gno-column-info -w '
         '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,unreachable,return,builtin,bool '
         '-fsanitize-trap=all').split()
class Unsup(Exception): pass
class Stop(Exception): pass
FPW = {'float': 32, 'double': 64, 'x86_fp80': 80, 'half': 16}
def fpsort(n): return {'float': z3.FPSort(8, 24), 'double': z3.FPSort(11, 53), 'x86_fp80': z3.FPSort(15, 64), 'half': z3.FPSort(5, 11)}[n]
def tofp(v, n):
    if n == 'x86_fp80': v = z3.Concat(z3.Extract(79, 64, v), z3.Extract(62, 0, v))
    return z3.fpBVToFP(v, fpsort(n))
RNE = z3.RNE()
class Ptr:
    __slots__ = ('o', 'off')
    def __init__(s, o, off=0): s.o = o; s.off = off
    def __eq__(s, t): return isinstance(t, Ptr) and s.o == t.o and s.off == t.off
    def __hash__(s): return hash((s.o, s.off))
    def __repr__(s): return '&%s+%s' % (s.o, s.off)
NULL = Ptr(None, 0)
UNDEF = object()
def width(m, t):
    if t[0] == 'int': return t[1]
    if t[0] == 'float': return FPW[t[1]]
    raise Unsup('width of %r' % (t,))
class Frame:
    __slots__ = ('f', 'env', 'blk', 'pc', 'prev', 'call', 'allocas')
    def __init__(s, f): s.f = f; s.env = {}; s.blk = f.order[0]; s.pc = 0; s.prev = None; s.call = None; s.allocas = []
    def copy(s):
        g = Frame(s.f); g.env = dict(s.env); g.blk = s.blk; g.pc = s.pc; g.prev = s.prev; g.call = s.call; g.allocas = list(s.allocas); return g
class State:
    __slots__ = ('fr', 'mem', 'size', 'pc', 'nobj', 'log', 'steps', 'ninp', 'shared', 'heap')
    def copy(s):
        t = State(); t.fr = [f.copy() for f in s.fr]; t.mem = dict(s.mem); t.size = dict(s.size); t.pc = list(s.pc); t.nobj = s.nobj; t.log = list(s.log); t.steps = s.steps; t.ninp = s.ninp; t.heap = set(s.heap)
        t.shared = set(s.mem); s.shared = set(s.mem); return t
class Exec:
    def __init__(s, module, hooks=None, maxsteps=3000000, maxpaths=60000, deadline=None, qlimit=120000):
        s.m = module; s.hooks = hooks or []; s.obs = {}; s.models = []; s.solver = z3.SolverFor('QF_FP') if False else z3.Solver(); s.visited = set(); s.inputs = {}; s.cex = None; s.npaths = 0; s.fnids = {}; s.fnnames = {}
        s.maxsteps = maxsteps; s.maxpaths = maxpaths; s.steps = 0; s.deadline = deadline; s.qt = 0; s.nq = 0; s.qlimit = qlimit; s.assumed = set(); s.ends = []
    # ------------------------------------------------------------ solver
    def sat(s, pc, extra=None):
        # a recent model which satisfies everything is a witness: no query needed
        for mdl in s.models[-3:]:
            try:
                if all(z3.is_true(mdl.eval(c, model_completion=True)) for c in ([extra] if extra is not None else [])) and all(z3.is_true(mdl.eval(c, model_completion=True)) for c in reversed(pc)): return mdl
            except z3.Z3Exception: pass
        mdl = s.sat_(pc, extra)
        if mdl is not None: s.models.append(mdl); del s.models[:-3]
        return mdl
    def sat_(s, pc, extra=None):
        s.nq += 1; t = time.time(); s.solver.push()
        for c in pc: s.solver.add(c)
        if extra is not None: s.solver.add(extra)
        s.solver.set('timeout', s.qlimit); r = s.solver.check(); model = s.solver.model() if r == z3.sat else None; s.solver.pop(); s.qt += time.time() - t
        if r == z3.unknown: raise Unsup('solver: unknown')
        return model
    def ob(s, name, tag, ok, detail='', loc='', cex=None):
        o = s.obs.setdefault((name, tag), dict(name=name, tag=tag, status='proved', backend='z3', time=0, detail='', loc=loc, n=0, cex=None))
        o['n'] += 1
        if not ok and o['status'] == 'proved': o['status'] = 'failed'; o['detail'] = detail; o['loc'] = loc; o['cex'] = cex
    def model_inputs(s, model):
        r = []
        for k, (v, ty) in s.inputs.items():
            x = model.eval(v, model_completion=True); r.append((k, ty, x.as_long()))
        return r
    # ------------------------------------------------------------ memory
    def new(s, st, size, name='o'):
        st.nobj += 1; o = '%s%d' % (name, st.nobj); st.mem[o] = {}; st.size[o] = size; return Ptr(o, 0)
    def wr(s, st, o):
        if getattr(st, 'shared', None) and o in st.shared: st.mem[o] = dict(st.mem[o]); st.shared.discard(o)
        return st.mem[o]
    def chk(s, st, p, n):
        if not isinstance(p, Ptr): raise Unsup('access through a non-concrete pointer')
        if p.o is None or not isinstance(p.off, int) or p.o not in st.mem or p.off < 0 or (p.off + n > st.size[p.o] if isinstance(st.size[p.o], int) else s.sat(st.pc, z3.ULT(st.size[p.o], p.off + n)) is not None):
            fr = st.fr[-1]; s.ob('memory access inside the object', 'mem', False, 'access of %d bytes at %s (size %s)' % (n, p, st.size.get(p.o)), s.loc(st), s.cexof(st)); raise Stop()
    def store(s, st, p, t, v):
        if t[0] in ('struct', 'lit', 'arr'):
            if v is UNDEF: return
            offs = s.offsets(t)
            for i, (o, ft) in enumerate(offs): s.store(st, Ptr(p.o, p.off + o), ft, v[i])
            return
        n = (width(s.m, t) + 7) // 8 if t[0] != 'ptr' else 8
        if t == ('float', 'x86_fp80'): n = 10
        s.chk(st, p, n); M = s.wr(st, p.o)
        for k in [k for k in M if k < p.off + n and k + M[k][0] > p.off and k != p.off]:
            # partial overlap: split into bytes
            w, ov = M.pop(k)
            if isinstance(ov, Ptr) or ov is UNDEF or not z3.is_bv(ov): continue
            for j in range(w):
                if not (p.off <= k + j < p.off + n): M[k + j] = (1, z3.simplify(z3.Extract(8*j+7, 8*j, s.ext(ov, 8*w))))
        if p.off in M and M[p.off][0] > n:
            w, ov = M[p.off]
            if z3.is_bv(ov):
                for j in range(n, w): M[p.off + j] = (1, z3.simplify(z3.Extract(8*j+7, 8*j, s.ext(ov, 8*w))))
        if z3.is_expr(v) and v.size() % 8: v = z3.ZeroExt(8 * n - v.size(), v)
        M[p.off] = (n, v)
    def ext(s, v, w): return v if v.size() == w else z3.ZeroExt(w - v.size(), v)
    def offsets(s, t):
        if t[0] == 'arr': sz = s.m.sizeof(t[2]); return [(i * sz, t[2]) for i in range(t[1])]
        offs, _, _, fields = s.m.layout(t); return list(zip(offs, fields))
    def load(s, st, p, t):
        if t[0] in ('struct', 'lit', 'arr'): return [s.load(st, Ptr(p.o, p.off + o), ft) for o, ft in s.offsets(t)]
        w = 64 if t[0] == 'ptr' else width(s.m, t); n = 10 if t == ('float', 'x86_fp80') else (w + 7) // 8
        s.chk(st, p, n); M = st.mem[p.o]
        e = M.get(p.off)
        if e and e[0] == n:
            v = e[1]
            if t[0] == 'ptr': return v
            if v is UNDEF: return z3.FreshConst(z3.BitVecSort(w), 'undef')
            if isinstance(v, Ptr): return v
            return v if v.size() == w else z3.simplify(z3.Extract(w - 1, 0, v))
        if t[0] == 'ptr':
            if e is None: return UNDEF
            raise Unsup('pointer composed of bytes')
        bs = []
        for j in range(n):
            b = None
            for k in range(p.off + j, p.off + j - 17, -1):
                if k in M:
                    ww, ov = M[k]
                    if k + ww > p.off + j:
                        if not z3.is_bv(ov): raise Unsup('bytes of a pointer')
                        d = p.off + j - k; b = z3.Extract(8*d+7, 8*d, s.ext(ov, 8*ww))
                    break
            if b is None: b = z3.FreshConst(z3.BitVecSort(8), 'undef')
            bs.append(b)
        v = bs[0] if n == 1 else z3.Concat(*reversed(bs)); v = z3.simplify(v)
        return v if v.size() == w else z3.simplify(z3.Extract(w - 1, 0, v))
    def memcpy(s, st, d, a, n):
        if n == 0: return
        s.chk(st, d, n); s.chk(st, a, n); A = dict(st.mem[a.o]); M = s.wr(st, d.o)
        for k in [k for k in M if d.off <= k < d.off + n and k + M[k][0] <= d.off + n]: del M[k]
        for k, (w, v) in A.items():
            if a.off <= k and k + w <= a.off + n: M[d.off + k - a.off] = (w, v)
            elif k < a.off + n and k + w > a.off:
                if not z3.is_bv(v): raise Unsup('partial copy of a pointer')
                for j in range(w):
                    if a.off <= k + j < a.off + n: M[d.off + k + j - a.off] = (1, z3.simplify(z3.Extract(8*j+7, 8*j, s.ext(v, 8*w))))
    # ------------------------------------------------------------ values
    def const(s, st, t, v):
        k = v[0]
        if k == 'const': return z3.BitVecVal(v[1], t[1])
        if k == 'null': return NULL
        if k == 'undef':
            if t[0] == 'ptr': return UNDEF
            if t[0] in ('struct', 'lit', 'arr'): return [s.const(st, ft, v) for _, ft in s.offsets(t)]
            return z3.FreshConst(z3.BitVecSort(width(s.m, t)), 'undef')
        if k == 'zero':
            if t[0] == 'ptr': return NULL
            if t[0] in ('struct', 'lit', 'arr'): return [s.const(st, ft, v) for _, ft in s.offsets(t)]
            return z3.BitVecVal(0, width(s.m, t))
        if k == 'fconst': return s.fconst(t[1], v[1])
        if k == 'agg': return [s.const(st, et, ev) for et, ev in v[1]]
        if k == 'cstr':
            b = []; x = v[1]; i = 0
            while i < len(x):
                if x[i] == '\\': b.append(int(x[i+1:i+3], 16)); i += 3
                else: b.append(ord(x[i])); i += 1
            return [z3.BitVecVal(c, 8) for c in b]
        if k == 'glob': return s.glob(st, v[1])
        if k == 'cgep':
            bt, ops = v[1], v[2]; base = s.const(st, ops[0][0], ops[0][1]); return s.gep(base, bt, [(it, s.const(st, it, iv)) for it, iv in ops[1:]])
        if k == 'ccast':
            x = s.const(st, v[2], v[3])
            if isinstance(x, tuple) and x[0] == 'fn' and t[0] == 'int': return s.fnaddr(x[1])
            return x
        raise Unsup('constant %r' % (v,))
    def fnaddr(s, name):
        k = s.fnids.setdefault(name, len(s.fnids)); s.fnnames[0x400000 + 16 * k] = name; return z3.BitVecVal(0x400000 + 16 * k, 64)
    def fconst(s, n, x):
        import struct
        if x.startswith('0xK'): return z3.BitVecVal(int(x[3:], 16), 80)
        if x.startswith('0x'): d = struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]; raw = int(x[2:], 16)
        else: d = float(x); raw = struct.unpack('>Q', struct.pack('>d', d))[0]
        if n == 'double': return z3.BitVecVal(raw, 64)
        if n == 'float':
            if d != d: return z3.BitVecVal((raw >> 63 << 31) | 0x7f800000 | ((raw >> 29) & 0x7fffff), 32)
            return z3.BitVecVal(struct.unpack('>I', struct.pack('>f', d))[0], 32)
        raise Unsup('float constant %s %s' % (n, x))
    def glob(s, st, name):
        if name in s.m.funcs: return ('fn', name)
        key = 'g:' + name
        if key not in st.mem:
            txt = s.m.globals.get(name)
            if txt is None: raise Unsup('global ' + name)
            m = re.search(r'\b(constant|global)\b (.*)', txt)
            p = ir.P(ir.tokenize(m.group(2))); t = p.type(); st.mem[key] = {}; st.size[key] = s.m.sizeof(t)
            if m.group(1) == 'constant' and p.peek() not in (None, ','): s.store(st, Ptr(key, 0), t, s.const(st, t, p.value(t)))
            elif 'internal' in txt or 'linkonce' in txt or 'private' in txt: s.store(st, Ptr(key, 0), t, s.const(st, t, p.value(t)))
            else: raise Unsup('mutable global ' + name)
        return Ptr(key, 0)
    def val(s, st, t, v):
        if v[0] == 'reg': return st.fr[-1].env[v[1]]
        return s.const(st, t, v)
    def cint(s, v):
        v = z3.simplify(v) if z3.is_expr(v) else v
        if isinstance(v, int): return v
        if z3.is_bv_value(v): return v.as_signed_long()
        return None
    def gep(s, base, bt, ix):
        if isinstance(base, tuple): raise Unsup('gep on a function')
        if base is UNDEF: return UNDEF
        off = base.off; t = bt
        for n, (it, iv) in enumerate(ix):
            i = s.cint(iv)
            if n == 0:
                if i is None: off = s.soff(off, iv, s.m.sizeof(t)); continue
                off = off + i * s.m.sizeof(t)
            elif t[0] == 'arr':
                if i is None: off = s.soff(off, iv, s.m.sizeof(t[2])); t = t[2]; continue
                off = off + i * s.m.sizeof(t[2]); t = t[2]
            else:
                offs, _, _, fields = s.m.layout(t); off = off + offs[i]; t = fields[i]
        return Ptr(base.o, off)
    def soff(s, off, iv, sz):
        if isinstance(off, int): off = z3.BitVecVal(off, 64)
        if iv.size() < 64: iv = z3.SignExt(64 - iv.size(), iv)
        return z3.simplify(off + iv * sz)
    def loc(s, st):
        for fr in reversed(st.fr):
            b = fr.f.blocks[fr.blk]; i = b[min(fr.pc, len(b) - 1)]; f, l = s.m.loc(i.dbg)
            if 'include/cpp-sort' in f or '/repo/' in f: return '%s:%s' % (f.split('include/')[-1], l)
        return '%s' % st.fr[0].f.demangled
    def cexof(s, st):
        m = s.sat(st.pc); return None if m is None else s.model_inputs(m)
    # ------------------------------------------------------------ run
    def run(s, fname):
        f = s.m.funcs[fname]; st = State(); st.fr = [Frame(f)]; st.mem = {}; st.size = {}; st.pc = []; st.nobj = 0; st.log = []; st.steps = 0; st.ninp = 0; st.shared = None; st.heap = set()
        work = [st]
        while work:
            st = work.pop(); s.npaths += 1
            if s.npaths > s.maxpaths: raise Unsup('more than %d paths' % s.maxpaths)
            try:
                while True:
                    r = s.step(st)
                    if r is None: continue
                    if r == 'end':
                        s.ends.append(st.log); s.ob('all memory is released', 'own', not st.heap, 'not released: %s' % sorted(st.heap), '', s.cexof(st) if st.heap else None); break
                    work.extend(r); break
            except Stop: pass
        s.ob('every path ends', 'term', True)
        return s
    def branch(s, st, conds):
        """conds: list of (condition or None, block); returns list of states or None when one is taken in place"""
        live = []
        for c, b in conds:
            if c is None: live.append((c, b)); continue
            c = z3.simplify(c)
            if z3.is_false(c): continue
            if z3.is_true(c): live.append((None, b)); continue
            live.append((c, b))
        if len(live) > 1:
            live = [(c, b) for c, b in live if c is None or s.sat(st.pc, c) is not None]
        elif len(live) == 1 and live[0][0] is not None and False: pass
        if not live: raise Stop()
        if len(live) == 1:
            c, b = live[0]
            if c is not None: st.pc.append(c)
            s.goto(st, b); return None
        out = []
        for c, b in live:
            t = st.copy()
            if c is not None: t.pc.append(c)
            s.goto(t, b); out.append(t)
        return out
    def goto(s, st, b):
        fr = st.fr[-1]; fr.prev = fr.blk; fr.blk = b; fr.pc = 0
        # phis in parallel
        ins = fr.f.blocks[b]; vals = []; k = 0
        while k < len(ins) and ins[k].op in ('phi', 'nop', 'dbgdecl'):
            if ins[k].op == 'phi':
                for v, pb in ins[k].args:
                    if pb == fr.prev: vals.append((ins[k].res, s.val(st, ins[k].ty, v))); break
                else: raise Unsup('phi')
            k += 1
        for r, v in vals: fr.env[r] = v
        fr.pc = k
    def step(s, st):
        fr = st.fr[-1]; i = fr.f.blocks[fr.blk][fr.pc]; s.steps += 1
        if s.steps > s.maxsteps: raise Unsup('step budget exceeded')
        if s.deadline and (s.steps & 1023) == 0 and time.time() > s.deadline: raise Unsup('time budget exceeded')
        op = i.op; E = fr.env; s.visited.add(fr.f.name)
        def adv(v=None):
            if i.res is not None: E[i.res] = v
            fr.pc += 1
        if op in ('nop', 'dbgdecl', 'fence'): fr.pc += 1; return None
        if op == 'alloca':
            n = 1
            if i.args[1]: n = s.cint(s.val(st, *i.args[1]))
            adv(s.new(st, s.m.sizeof(i.args[0]) * n)); return None
        if op in ('load', 'store'):
            q = s.val(st, ('ptr',), i.args[0 if op == 'load' else 1]); v = i.args[0 if op == 'load' else 1]
            if isinstance(q, Ptr) and q.o in st.mem and not isinstance(q.off, int) and v[0] == 'reg':
                r = s.concretize(st, q, v[1], s.m.sizeof(i.ty))
                if r is not None: return r
        if op == 'load': adv(s.load(st, s.val(st, ('ptr',), i.args[0]), i.ty)); return None
        if op == 'store': s.store(st, s.val(st, ('ptr',), i.args[1]), i.ty, s.val(st, i.ty, i.args[0])); fr.pc += 1; return None
        if op == 'gep':
            adv(s.gep(s.val(st, ('ptr',), i.args[0]), i.ty, [(it, s.val(st, it, iv)) for it, iv in i.args[1]])); return None
        if op == 'bin': adv(s.binop(st, i)); return None
        if op == 'fneg': v = s.val(st, i.ty, i.args[0]); w = v.size(); adv(v ^ z3.BitVecVal(1 << (w - 1), w)); return None
        if op == 'icmp': adv(s.icmp(st, i)); return None
        if op == 'fcmp': adv(s.fcmp(i.args[0], s.val(st, i.ty, i.args[1]), s.val(st, i.ty, i.args[2]), i.ty[1])); return None
        if op == 'br': s.goto(st, i.args[0]); return None
        if op == 'cbr':
            c = s.val(st, ('int', 1), i.args[0]); return s.branch(st, [(c == 1, i.args[1]), (c == 0, i.args[2])])
        if op == 'switch':
            v = s.val(st, i.ty, i.args[0]); cs = [(v == s.const(st, i.ty, cv), b) for cv, b in i.args[2]]
            d = z3.And([z3.Not(c) for c, _ in cs]) if cs else z3.BoolVal(True)
            return s.branch(st, cs + [(d, i.args[1])])
        if op == 'ret':
            v = None if i.args[0] is None else s.val(st, i.ty, i.args[0]); st.fr.pop()
            if not st.fr: return 'end'
            g = st.fr[-1]; ci = g.f.blocks[g.blk][g.pc]
            if ci.res is not None: g.env[ci.res] = v
            if ci.op == 'invoke': s.goto(st, ci.args[2][0])
            else: g.pc += 1
            return None
        if op == 'unreachable':
            s.ob('no path reaches unreachable code', 'arith', False, 'reachable', s.loc(st), s.cexof(st)); raise Stop()
        if op == 'select':
            c = s.val(st, ('int', 1), i.args[0]); a = s.val(st, i.ty, i.args[1]); b = s.val(st, i.ty, i.args[2])
            c = z3.simplify(c == 1)
            if z3.is_true(c): adv(a); return None
            if z3.is_false(c): adv(b); return None
            if z3.is_expr(a) and z3.is_expr(b): adv(z3.If(c, a, b)); return None
            if isinstance(a, Ptr) and a == b: adv(a); return None
            out = []
            for cc, v in ((c, a), (z3.Not(c), b)):
                if s.sat(st.pc, cc) is not None: t = st.copy(); t.pc.append(cc); t.fr[-1].env[i.res] = v; t.fr[-1].pc += 1; out.append(t)
            return out
        if op == 'cast': adv(s.cast(st, i)); return None
        if op == 'freeze': adv(s.val(st, i.ty, i.args[0])); return None
        if op == 'extractvalue':
            v = s.val(st, i.ty, i.args[0])
            for k in i.args[1]: v = v[k]
            adv(v); return None
        if op == 'insertvalue':
            v = s.val(st, i.ty, i.args[0]); e = s.val(st, s.ity(i.ty, i.args[2]), i.args[1]); adv(s.ins(v, i.args[2], e)); return None
        if op in ('call', 'invoke'): return s.call(st, i)
        raise Unsup('instruction %s in %s' % (i.text.strip()[:120], fr.f.demangled[:80]))
    def concretize(s, st, q, reg, n):
        """an access at a symbolic offset inside an object of known size: one path per possible offset"""
        z = st.size[q.o]
        if not isinstance(z, int) or z > 8192: return None
        c = s.cint(q.off)
        if c is not None: st.fr[-1].env[reg] = Ptr(q.o, c); return None
        if s.sat(st.pc, z3.Or(q.off < 0, q.off > z - n)) is not None: return None
        out = []; ex = []
        while len(out) < 300:
            m = s.sat(st.pc, z3.And(ex) if ex else None)
            if m is None: break
            v = m.eval(q.off, model_completion=True); c = v.as_signed_long(); ex.append(q.off != v)
            t = st.copy(); t.pc.append(q.off == v); t.fr[-1].env[reg] = Ptr(q.o, c); out.append(t)
        else: raise Unsup('more than 300 possible offsets')
        if not out: raise Stop()
        return out
    def ity(s, t, ix):
        for k in ix: t = t[2] if t[0] == 'arr' else s.m.layout(t)[3][k]
        return t
    def ins(s, v, ix, e):
        v = list(v); v[ix[0]] = e if len(ix) == 1 else s.ins(v[ix[0]], ix[1:], e); return v
    def binop(s, st, i):
        op, a, b, fl = i.args; t = i.ty; x = s.val(st, t, a); y = s.val(st, t, b)
        if t[0] == 'float':
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]; r = f(RNE, tofp(x, t[1]), tofp(y, t[1]))
            if t[1] == 'x86_fp80': raise Unsup('fp80 arithmetic')
            q = z3.FreshConst(z3.BitVecSort(FPW[t[1]]), 'fp'); st.pc.append(z3.Or(tofp(q, t[1]) == r, z3.And(z3.fpIsNaN(r), z3.fpIsNaN(tofp(q, t[1]))))); return q
        if not z3.is_expr(x) or not z3.is_expr(y): raise Unsup('arithmetic on pointers')
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
             'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}.get(op)
        if r is None: raise Unsup('operator ' + op)
        return z3.simplify(r())
    def icmp(s, st, i):
        pr, a, b = i.args; x = s.val(st, i.ty, a); y = s.val(st, i.ty, b); B = lambda c: z3.simplify(z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
        if isinstance(x, (Ptr, tuple)) or isinstance(y, (Ptr, tuple)):
            if isinstance(x, tuple) or isinstance(y, tuple): e = x == y
            elif x.o == y.o and not (isinstance(x.off, int) and isinstance(y.off, int)):
                a_, b_ = [v if z3.is_expr(v) else z3.BitVecVal(v, 64) for v in (x.off, y.off)]
                return B({'eq': lambda: a_ == b_, 'ne': lambda: a_ != b_, 'ult': lambda: a_ < b_, 'ule': lambda: a_ <= b_, 'ugt': lambda: a_ > b_, 'uge': lambda: a_ >= b_}[pr]())
            elif x.o == y.o: return B(z3.BoolVal({'eq': x.off == y.off, 'ne': x.off != y.off, 'ult': x.off < y.off, 'ule': x.off <= y.off, 'ugt': x.off > y.off, 'uge': x.off >= y.off}[pr]))
            else: e = False
            if pr == 'eq': return B(z3.BoolVal(e))
            if pr == 'ne': return B(z3.BoolVal(not e))
            raise Unsup('order of unrelated pointers')
        c = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pr]()
        return B(c)
    def fcmp(s, pr, a, b, n):
        x, y = tofp(a, n), tofp(b, n); un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        base = {'eq': lambda: z3.fpEQ(x, y), 'ne': lambda: z3.Not(z3.fpEQ(x, y)), 'lt': lambda: z3.fpLT(x, y), 'le': lambda: z3.fpLEQ(x, y), 'gt': lambda: z3.fpGT(x, y), 'ge': lambda: z3.fpGEQ(x, y)}
        if pr == 'true': c = z3.BoolVal(True)
        elif pr == 'false': c = z3.BoolVal(False)
        elif pr == 'ord': c = z3.Not(un)
        elif pr == 'uno': c = un
        elif pr[0] == 'o': c = z3.And(z3.Not(un), base[pr[1:]]())
        else: c = z3.Or(un, base[pr[1:]]())
        return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    def cast(s, st, i):
        op, ft, v = i.args; x = s.val(st, ft, v); t = i.ty
        if op == 'trunc': return z3.simplify(z3.Extract(t[1] - 1, 0, x))
        if op == 'zext': return z3.simplify(z3.ZeroExt(t[1] - ft[1], x))
        if op == 'sext': return z3.simplify(z3.SignExt(t[1] - ft[1], x))
        if op == 'bitcast': return x
        if op == 'inttoptr':
            c = s.cint(x)
            if c in s.fnnames: return ('fn', s.fnnames[c])
            if c == 0: return NULL
            raise Unsup('inttoptr')
        if op == 'ptrtoint':
            if isinstance(x, tuple) and x[0] == 'fn': return s.fnaddr(x[1])
            if isinstance(x, Ptr): return z3.simplify((z3.BitVec('addr_%s' % x.o, 64) if x.o else z3.BitVecVal(0, 64)) + x.off)
            raise Unsup('ptrtoint')
        if op in ('fpext', 'fptrunc'):
            r = z3.fpFPToFP(RNE, tofp(x, ft[1]), fpsort(t[1])); w = FPW[t[1]]; q = z3.FreshConst(z3.BitVecSort(w), 'fp'); 
            st.pc.append(tofp(q, t[1]) == r); st.pc.append(z3.Extract(w - 1, w - 1, q) == z3.Extract(x.size() - 1, x.size() - 1, x))
            if t[1] == 'x86_fp80': st.pc.append(z3.Extract(63, 63, q) == z3.If(z3.Extract(78, 64, q) == 0, z3.BitVecVal(0, 1), z3.BitVecVal(1, 1)))
            return q
        if op in ('sitofp', 'uitofp'):
            r = (z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP)(RNE, x, fpsort(t[1])); w = FPW[t[1]]; q = z3.FreshConst(z3.BitVecSort(w), 'fp'); st.pc.append(tofp(q, t[1]) == r)
            if t[1] == 'x86_fp80': st.pc.append(z3.Extract(63, 63, q) == z3.If(z3.Extract(78, 64, q) == 0, z3.BitVecVal(0, 1), z3.BitVecVal(1, 1)))
            return q
        if op in ('fptosi', 'fptoui'):
            return (z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(z3.RTZ(), tofp(x, ft[1]), z3.BitVecSort(t[1]))
        raise Unsup('cast ' + op)
    def call(s, st, i):
        callee, args, extra = i.args; fr = st.fr[-1]
        av = [s.val(st, t, v) for t, v, at in args] 
        if callee[0] == 'glob': name = callee[1]
        else:
            fv = s.val(st, ('ptr',), callee)
            if not (isinstance(fv, tuple) and fv[0] == 'fn'): raise Unsup('indirect call')
            name = fv[1]
        f = s.m.funcs.get(name)
        def ret(v=None):
            if i.res is not None: fr.env[i.res] = v
            if i.op == 'invoke': s.goto(st, i.args[2][0])
            else: fr.pc += 1
        dem = f.demangled if f else name
        for pat, h in s.hooks:
            if pat(name, dem):
                r = h(s, st, i, av, ret)
                if r is not NotImplemented: return r
        if name.startswith('__vc_any_'):
            k = '%s#%d' % (name[9:], st.ninp); st.ninp += 1; w = width(s.m, i.ty); v = z3.BitVec('in_' + k, w); s.inputs[k] = (v, name[9:]); 
            if i.ty == ('float', 'x86_fp80'): st.pc.append(z3.Extract(63, 63, v) == z3.If(z3.Extract(78, 64, v) == 0, z3.BitVecVal(0, 1), z3.BitVecVal(1, 1)))
            if name == '__vc_any_bool': pass
            ret(v); return None
        if name == '__vc_assume':
            c = z3.simplify(av[0] != 0)
            if z3.is_false(c): raise Stop()
            if not z3.is_true(c):
                st.pc.append(c)
                if s.sat(st.pc) is None: raise Stop()
            ret(); return None
        if name == '__vc_assert':
            nm = s.cstr(st, av[1]); c = z3.simplify(av[0] != 0)
            m = None if z3.is_true(c) else s.sat(st.pc, z3.Not(c))
            s.ob(nm, 'func', m is None, 'counterexample: %s' % (m and ', '.join('%s=0x%x' % (k, x) for k, t, x in s.model_inputs(m))), s.loc(st), m and s.model_inputs(m))
            if m is not None: raise Stop()
            ret(); return None
        if name.startswith('__vc_uf_'):
            sorts = []; vs = []
            for (t, v, at), x in zip(args, av):
                if isinstance(x, Ptr): x = z3.BitVecVal(s.addr(x), 64)
                vs.append(x); sorts.append(x.sort())
            F = z3.Function(name, *sorts, z3.BitVecSort(width(s.m, i.ty))); ret(F(*vs)); return None
        if name == '__vc_log': st.log.append(tuple(s.cint(a) if z3.is_expr(a) else a for a in av)); ret(); return None
        if name.startswith('llvm.'): return s.intrinsic(st, i, name, av, ret)
        if f is None or f.decl: return s.extern(st, i, name, av, ret)
        if len(st.fr) > 200: raise Unsup('recursion')
        g = Frame(f)
        for (pt, pn, at), x in zip(f.params, av):
            if 'byval' in at:
                bt = ir.P(at['byval']).type() if isinstance(at['byval'], list) else None; n = s.m.sizeof(bt); p = s.new(st, n); s.memcpy(st, p, x, n); x = p
            g.env[pn] = x
        st.fr.append(g); return None
    def addr(s, p): return (int(hashlib.sha1(str(p.o).encode()).hexdigest()[:10], 16) << 12) + p.off if p.o else 0
    def cstr(s, st, p):
        r = ''
        while True:
            b = s.cint(s.load(st, p, ('int', 8)))
            if not b: return r
            r += chr(b & 255); p = Ptr(p.o, p.off + 1)
    def extern(s, st, i, name, av, ret):
        if name in ('_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
            n = s.cint(av[0]); p = s.new(st, av[0] if n is None else n, 'heap'); st.heap.add(p.o); ret(p); return None
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvRKSt9nothrow_t'):
            p = av[0]
            if p == NULL: ret(); return None
            ok = isinstance(p, Ptr) and p.o in st.heap and p.off == 0 if isinstance(p.off, int) else False
            s.ob('memory is released once', 'own', ok, 'release of %s' % p, s.loc(st), None if ok else s.cexof(st))
            if not ok: raise Stop()
            st.heap.discard(p.o); st.mem.pop(p.o); ret(); return None
        if name in ('_ZNSt6localeC1Ev', '_ZNSt6localeC2Ev'): s.store(st, av[0], ('int', 64), z3.BitVecVal(0, 64)); ret(); return None   # a locale is an opaque handle; the global one is 0
        if name in ('_ZNSt6localeC1ERKS_', '_ZNSt6localeC2ERKS_', '_ZNSt6localeaSERKS_'): s.memcpy(st, av[0], av[1], 8); ret(av[0] if i.res is not None else None); return None
        if name in ('_ZNSt6localeD1Ev', '_ZNSt6localeD2Ev'): ret(); return None
        if name == 'isdigit':
            x = av[0]; s.ob('no undefined behaviour', 'arith', s.sat(st.pc, z3.Or(x < -1, x > 255)) is None, 'argument of isdigit', s.loc(st)); ret(z3.If(z3.And(x >= 48, x <= 57), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))); return None
        if name in ('__cxa_guard_acquire', '__cxa_guard_release'): raise Unsup(name)
        if name in ('sqrt', 'sqrtf', 'log', 'logf'): raise Unsup('library function ' + name)
        raise Unsup('call of the external function ' + name)
    def intrinsic(s, st, i, name, av, ret):
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias')): ret(); return None
        if name.startswith('llvm.ubsantrap') or name == 'llvm.trap':
            s.ob('no undefined behaviour', 'arith', False, 'undefined behaviour (kind %s)' % (s.cint(av[0]) if av else ''), s.loc(st), s.cexof(st)); raise Stop()
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            n = s.cint(av[2])
            if n is None: raise Unsup('memcpy of a symbolic size')
            s.memcpy(st, av[0], av[1], n); ret(); return None
        if name.startswith('llvm.memset'):
            n = s.cint(av[2]); b = av[1]
            if n is None:
                z = st.size.get(av[0].o)
                if not z3.is_expr(z) or st.mem[av[0].o]: raise Unsup('memset of a symbolic size')
                mm = s.sat(st.pc, z3.Or(z3.UGT(av[2], z), av[0].off != 0) if not isinstance(av[0].off, int) or av[0].off else z3.UGT(av[2], z)); s.ob('memory access inside the object', 'mem', mm is None, 'memset', s.loc(st), mm and s.model_inputs(mm)); ret(); return None
            for k in range(n): s.store(st, Ptr(av[0].o, av[0].off + k), ('int', 8), b)
            ret(); return None
        m = re.match(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow', name)
        if m:
            x, y = av; w = x.size(); sg = m.group(1) == 's'; e = w if m.group(2) == 'mul' else 1
            X, Y = (z3.SignExt(e, x), z3.SignExt(e, y)) if sg else (z3.ZeroExt(e, x), z3.ZeroExt(e, y))
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[m.group(2)]; R = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[m.group(2)]
            o = R != (z3.SignExt(e, r) if sg else z3.ZeroExt(e, r)); ret([z3.simplify(r), z3.simplify(z3.If(o, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))])
            s.ob('no undefined behaviour', 'arith', True); return None
        if name.startswith('llvm.fabs'): v = av[0]; w = v.size(); ret(v & z3.BitVecVal((1 << (w - 1)) - 1, w)); return None
        if name.startswith('llvm.copysign'): v, g = av; w = v.size(); ret(z3.Concat(z3.Extract(w-1, w-1, g), z3.Extract(w-2, 0, v))); return None
        if name.startswith(('llvm.ctlz', 'llvm.cttz')):
            v = av[0]; w = v.size(); r = z3.BitVecVal(w, w)
            for k in (range(w) if name.startswith('llvm.ctlz') else range(w - 1, -1, -1)): r = z3.If(z3.Extract(k, k, v) == 1, z3.BitVecVal(w - 1 - k if name.startswith('llvm.ctlz') else k, w), r)
            if s.cint(av[1]) not in (0, None):
                m = s.sat(st.pc, v == 0); s.ob('no undefined behaviour', 'arith', m is None, 'count of leading/trailing zeros of 0', s.loc(st), m and s.model_inputs(m))
            ret(z3.simplify(r)); return None
        if name.startswith('llvm.ctpop'):
            v = av[0]; w = v.size(); r = z3.BitVecVal(0, w)
            for k in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, v))
            ret(z3.simplify(r)); return None
        m = re.match(r'llvm\.(smax|smin|umax|umin)', name)
        if m: x, y = av; c = {'smax': x > y, 'smin': x < y, 'umax': z3.UGT(x, y), 'umin': z3.ULT(x, y)}[m.group(1)]; ret(z3.If(c, x, y)); return None
        if name.startswith('llvm.abs'): ret(z3.If(av[0] < 0, -av[0], av[0])); return None
        if name.startswith('llvm.is.fpclass'):
            v = av[0]; n = i.args[1][0][0][1]; k = s.cint(av[1]); x = tofp(v, n); neg = z3.Extract(v.size()-1, v.size()-1, v) == 1; c = []
            if k & 3: c.append(z3.fpIsNaN(x))
            for bit, cc in ((4, z3.And(z3.fpIsInf(x), neg)), (8, z3.And(z3.fpIsNormal(x), neg)), (16, z3.And(z3.fpIsSubnormal(x), neg)), (32, z3.And(z3.fpIsZero(x), neg)), (64, z3.And(z3.fpIsZero(x), z3.Not(neg))), (128, z3.And(z3.fpIsSubnormal(x), z3.Not(neg))), (256, z3.And(z3.fpIsNormal(x), z3.Not(neg))), (512, z3.And(z3.fpIsInf(x), z3.Not(neg)))):
                if k & bit: c.append(cc)
            ret(z3.If(z3.Or(c), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))); return None
        if name.startswith('llvm.fmuladd'): raise Unsup(name)
        if name.startswith(('llvm.expect',)): ret(av[0]); return None
        if name.startswith('llvm.is.constant'): ret(z3.BitVecVal(0, 1)); return None
        raise Unsup('intrinsic ' + name)

def fingerprint(m, names):
    h = hashlib.sha1()
    for n in sorted(names):
        for l in m.funcs[n].text[1:]: h.update(re.sub(r',? ![\w.]+ !\d+', '', l).encode())
    return h.hexdigest()[:16]
def verify(module, fname, limit=240, qlimit=120000, hooks=None):
    t = time.time(); e = Exec(module, deadline=t + limit, qlimit=qlimit, hooks=hooks); err = None
    try: e.run(fname)
    except Unsup as x: err = str(x)
    except RecursionError: err = 'recursion'
    if err is None and e.ends == [] and not any(o['status'] != 'proved' for o in e.obs.values()): err = 'vacuous: no path satisfies the precondition'
    if err is None and not any(o['tag'] == 'func' for o in e.obs.values()): err = 'vacuous: no assertion reached'
    obs = []
    for o in e.obs.values():
        o = dict(o); o['unit'] = fname; o['time'] = 0; obs.append(o)
    if obs: obs[0]['time'] = round(e.qt, 3)
    return dict(error=err, obs=obs, time=round(time.time() - t, 2), gen=0, used=[], assumed=sorted(e.assumed), inlined=sorted({module.funcs[n].demangled[:120] for n in e.visited if n != fname})[:60], fp=fingerprint(module, e.visited), paths=e.npaths, queries=e.nq)
TUFLAGS = {}
HOOKS = {}
def flags_for(tu): return FLAGS + TUFLAGS.get(tu, [])
def hooks_for(tu): return HOOKS.get(tu)
if __name__ == '__main__':
    import subprocess, multiprocessing as mp
    tu = sys.argv[1]; pat = sys.argv[2] if len(sys.argv) > 2 else ''
    ll = '/tmp/w/sc_%s.ll' % tu
    r = subprocess.run(['/usr/lib/llvm-18/bin/clang++'] + flags_for(tu) + ['-I/verif/harness', '-I/repo/include', '/verif/harness/%s.cpp' % tu, '-o', ll], capture_output=True, text=True)
    if r.returncode: print(r.stderr[:2000]); sys.exit(1)
    M = ir.Module(open(ll).read())
    names = [n for n in M.funcs if n.startswith('vc_') and not M.funcs[n].decl and pat in n]
    def go(n): return n, verify(M, n, hooks=hooks_for(tu))
    with mp.get_context('fork').Pool(8) as pool:
        for n, r in pool.imap_unordered(go, names):
            bad = [o for o in r['obs'] if o['status'] != 'proved']
            print('%-50s %s %d obs paths=%d q=%d %.1fs %s' % (n, 'ERROR ' + r['error'] if r['error'] else 'FAILED' if bad else 'ok', len(r['obs']), r['paths'], r['queries'], r['time'], [(o['name'], o['detail'][:300], o['loc']) for o in bad]))
