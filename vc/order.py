"""Complete verification of fixed-size sorters over every weak order of their N elements.

The compiled function is executed on N opaque elements whose order is abstract: a comparison forks on
`a < b` / `b <= a` and the answer is added to the partial order known so far (closure of < and <=), so a
path stands for every weak order compatible with it.  States equal up to a renaming of the elements
(same program point, memory, locals and known order) are merged: the result is a finite graph which
covers every input of the size.  Costs are summed over all permutations: a state met with multiplicity
m whose known order has e linear extensions is crossed by m*e permutations.
Harness interface: E has an abstract identity obtained from __vc_new(); moves call __vc_move(); the
comparison calls __vc_lt(id, id); __vc_sorted(array, n, name) states the postcondition.
"""
import re, time, sys
import z3, ir, scalar
from scalar import Exec, Ptr, Frame, State, Unsup, Stop, NULL, UNDEF
class OState(State):
    __slots__ = ('lt', 'le', 'nid', 'ev', 'mul')
    def copy(s):
        t = OState(); b = State.copy(s)
        for k in State.__slots__: setattr(t, k, getattr(b, k))
        t.lt = list(s.lt); t.le = list(s.le); t.nid = s.nid; t.ev = list(s.ev); t.mul = 1; return t
def isid(v): return isinstance(v, Ptr) and v.o == '#id'
DEAD = Ptr('#dead', 0)
class OExec(Exec):
    def __init__(s, module, **kw):
        Exec.__init__(s, module, **kw); s.live = {}; s.nodes = {}; s.order = []; s.hookf = kw.get('hookf')
    # ---- order
    def add_lt(s, st, a, b, strict):
        n = st.nid
        for x in range(n):
            if x == a or (st.le[x] >> a) & 1 or (st.lt[x] >> a) & 1:
                sx = (st.lt[x] >> a) & 1
                for y in range(n):
                    if y == b or (st.le[b] >> y) & 1 or (st.lt[b] >> y) & 1:
                        if x == y: continue
                        if strict or sx or (st.lt[b] >> y) & 1: st.lt[x] |= 1 << y
                        st.le[x] |= 1 << y
    def known(s, st, a, b):
        if a == b: return False
        if (st.lt[a] >> b) & 1: return True
        if (st.le[b] >> a) & 1: return False
        return None
    def extensions(s, st):
        n = st.nid; pred = [0] * n
        for a in range(n):
            for b in range(n):
                if (st.le[a] >> b) & 1: pred[b] |= 1 << a
        key = tuple(sorted(pred)) ; c = s.ecache.get(tuple(pred))
        if c is not None: return c
        memo = {0: 1}; full = (1 << n) - 1
        # count orders by removing maximal elements; only down-sets are visited
        sys.setrecursionlimit(10000)
        succ = [0] * n
        for b in range(n):
            for a in range(n):
                if (pred[b] >> a) & 1: succ[a] |= 1 << b
        def cnt(S):
            r = memo.get(S)
            if r is not None: return r
            r = 0; T = S
            while T:
                l = T & -T; x = l.bit_length() - 1; T ^= l
                if not (succ[x] & S): r += cnt(S ^ l)
            memo[S] = r; return r
        r = cnt(full); s.ecache[tuple(pred)] = r; return r
    ecache = {}
    # ---- liveness of registers
    def liveness(s, f):
        if f.name in s.live: return s.live[f.name]
        use = {}; defs = {}; succ = {}; rx = re.compile(r'%("[^"]*"|[\w.$-]+)')
        per = {}
        for b in f.order:
            per[b] = []
            for i in f.blocks[b]:
                t = i.text; d = None
                names = [x.strip('"') for x in rx.findall(t)]
                if i.res is not None: d = i.res; names = names[1:] if names and names[0] == i.res.strip('"') else names
                per[b].append((set(names), d))
        labels = set(x.strip('"') for x in f.order)
        out = {b: set() for b in f.order}; inn = {b: set() for b in f.order}; ch = True
        sc = {b: [n for n in per[b][-1][0] if n in labels] if per[b] else [] for b in f.order}
        nm = {b.strip('"'): b for b in f.order}
        while ch:
            ch = False
            for b in reversed(f.order):
                o = set()
                for q in sc[b]: o |= inn[nm[q]]
                cur = set(o)
                for u, d in reversed(per[b]):
                    if d is not None: cur.discard(d.strip('"'))
                    cur |= u
                if o != out[b] or cur != inn[b]: out[b] = o; inn[b] = cur; ch = True
        at = {}
        for b in f.order:
            cur = set(out[b]); l = [None] * (len(per[b]) + 1); l[len(per[b])] = frozenset(cur)
            for k in range(len(per[b]) - 1, -1, -1):
                u, d = per[b][k]
                if d is not None: cur.discard(d.strip('"'))
                cur = cur | u; l[k] = frozenset(cur)
            at[b] = l
        s.live[f.name] = at; return at
    # ---- canonical form of a state
    def key(s, st):
        ids = {}; objs = {}; out = []; queue = []
        def v(x):
            if isinstance(x, Ptr):
                if x.o == '#id': return ('i', ids.setdefault(x.off, len(ids)))
                if x.o is None or x.o == '#dead' or x.o.startswith('g:'): return ('p', x.o, x.off)
                if x.o not in objs: objs[x.o] = len(objs); queue.append(x.o)
                return ('o', objs[x.o], x.off)
            if isinstance(x, list): return tuple(v(y) for y in x)
            if z3.is_expr(x):
                x = z3.simplify(x)
                if z3.is_bv_value(x): return x.as_long()
                if 'undef' in str(x): return 'u'
                raise Unsup('symbolic value in an order unit')
            if x is UNDEF: return 'u'
            return x
        for k, fr in enumerate(st.fr):
            top = k == len(st.fr) - 1; pc = fr.pc if top else fr.pc + 1
            lv = s.liveness(fr.f)[fr.blk][min(pc, len(fr.f.blocks[fr.blk]))]
            call = fr.f.blocks[fr.blk][fr.pc]
            out.append((fr.f.name, fr.blk, fr.pc, fr.prev if call.op == 'phi' else None))
            for r in sorted(x for x in fr.env if x.strip('"') in lv): out.append((r, v(fr.env[r])))
        i = 0
        while i < len(queue):
            o = queue[i]; i += 1; M = st.mem.get(o)
            if M is None: out.append((objs[o], 'gone')); continue
            out.append((objs[o], tuple((k, M[k][0], v(M[k][1])) for k in sorted(M))))
        inv = sorted(ids, key=lambda x: ids[x]); n = len(inv)
        if n != st.nid: inv += [x for x in range(st.nid) if x not in ids]
        rel = tuple(tuple(((st.lt[a] >> b) & 1) * 2 + ((st.le[a] >> b) & 1) for b in inv) for a in inv)
        return (tuple(out), rel, n)
    def run(s, fname):
        f = s.m.funcs[fname]; st = OState(); st.fr = [Frame(f)]; st.mem = {}; st.size = {}; st.pc = []; st.nobj = 0; st.log = []; st.steps = 0; st.ninp = 0; st.shared = None; st.heap = set(); st.lt = []; st.le = []; st.nid = 0; st.ev = [0, 0]; st.mul = 1
        nodes = {}; work = []
        def node(st):
            k = s.key(st); n = nodes.get(k)
            if n is None: n = nodes[k] = dict(st=st, out=None, e=None, i=len(nodes)); work.append(n)
            return n
        root = node(st)
        while work:
            n = work.pop(); st = n['st']; st.ev = [0, 0]; s.npaths += 1
            if s.npaths > s.maxpaths: raise Unsup('more than %d states' % s.maxpaths)
            n['st'] = None; n['out'] = []; n['pre'] = None
            try:
                while True:
                    r = s.step(st)
                    if r is None: continue
                    n['pre'] = (list(st.ev), s.extensions(st) if s.count and st.ev != [0, 0] else 0)
                    if r == 'end': s.ends.append(1); break
                    for t in r: n['out'].append((node(t), t.mul))
                    break
            except Stop: pass
        s.ob('every path ends', 'term', True)
        # multiplicities in topological order
        order = []; seen = {}
        stack = [(root, iter([c for c, _ in root['out']]))]; seen[root['i']] = 1
        while stack:
            n, it = stack[-1]
            for c in it:
                if c['i'] not in seen: seen[c['i']] = 1; stack.append((c, iter([d for d, _ in c['out']]))); break
                if seen[c['i']] == 1: raise Unsup('cyclic state graph')
            else: seen[n['i']] = 2; order.append(n); stack.pop()
        mult = {root['i']: 1}; tot = [0, 0]
        for n in reversed(order):
            m = mult[n['i']]
            if n['pre']:
                (c, v), e = n['pre']; tot[0] += m * e * c; tot[1] += m * e * v  # c, v may be fractions (average of a called sorter)
            for c, w in n['out']: mult[c['i']] = mult.get(c['i'], 0) + m * w
        s.totals = tot; s.nstates = len(nodes); return s
    def extern(s, st, i, name, av, ret):
        if name == '__vc_new':
            k = st.nid; st.nid += 1; st.lt.append(0); st.le.append(0); ret(Ptr('#id', k)); return None
        if name in ('__vc_net', '__vc_same'): return net_extern(s, st, i, name, av, ret)
        if name == '__vc_dead': ret(DEAD); return None
        if name == '__vc_move':
            p = av[0]; s.ob('a moved element holds a value', 'own', isid(p), 'move of a moved-from element', s.loc(st))
            if not isid(p): raise Stop()
            st.ev[1] += 1; ret(); return None
        if name == '__vc_uncount': st.ev[1] -= 1; ret(); return None
        if name == '__vc_lt':
            a, b = av; ok = isid(a) and isid(b); s.ob('a compared element holds a value', 'own', ok, 'comparison of a moved-from element', s.loc(st))
            if not ok: raise Stop()
            st.ev[0] += 1; k = s.known(st, a.off, b.off)
            if k is not None: ret(int(k)); return None
            e0 = list(st.ev); out = []
            for val in (1, 0):
                t = st.copy()
                if val: s.add_lt(t, a.off, b.off, True)
                else: s.add_lt(t, b.off, a.off, False)
                fr = t.fr[-1]; fr.env[i.res] = val
                if i.op == 'invoke': s.goto(t, i.args[2][0])
                else: fr.pc += 1
                out.append(t)
            return out
        if name == '__vc_sorted':
            p, n, nm = av; n = s.cint(n); nm = s.cstr(st, nm); sz = s.esize; ids = []
            for k in range(n):
                e = st.mem[p.o].get(p.off + k * sz); ids.append(e[1] if e else None)
            perm = all(isid(x) for x in ids) and sorted(x.off for x in ids) == list(range(n))
            s.ob(nm + ': the array holds every element once', 'func', perm, 'final content %s' % [x.off if isid(x) else '?' for x in ids], s.loc(st), s.witness(st))
            if perm:
                bad = [k for k in range(n - 1) if not ((st.le[ids[k].off] >> ids[k + 1].off) & 1)]
                s.ob(nm + ': the array is sorted', 'func', not bad, 'positions %s not known to be in order' % bad, s.loc(st), s.witness(st, [(ids[k + 1].off, ids[k].off) for k in bad[:1]]))
            ret(); return None
        return Exec.extern(s, st, i, name, av, ret)
    # ---- concrete machine integers: plain Python numbers (modulo 2^width)
    def const(s, st, t, v):
        k = v[0]
        if k == 'const': return v[1] & ((1 << t[1]) - 1)
        if k in ('undef', 'zero'):
            if t[0] in ('struct', 'lit', 'arr'): return [s.const(st, ft, v) for _, ft in s.offsets(t)]
            if k == 'undef': return UNDEF
            return NULL if t[0] == 'ptr' else 0
        if k == 'cstr': return [s.cint(x) & 255 if z3.is_expr(x) else x for x in Exec.const(s, st, t, v)]
        return Exec.const(s, st, t, v)
    def cint(s, v): return v if isinstance(v, int) else Exec.cint(s, v)
    def sg(s, v, w): return v - (1 << w) if v >> (w - 1) else v
    def gep(s, base, bt, ix): return Exec.gep(s, base, bt, [(it, s.sg(iv, it[1]) if isinstance(iv, int) else iv) for it, iv in ix])
    def store(s, st, p, t, v):
        if t[0] in ('struct', 'lit', 'arr'):
            if v is UNDEF: return
            for i, (o, ft) in enumerate(s.offsets(t)): s.store(st, Ptr(p.o, p.off + o), ft, v[i])
            return
        n = 8 if t[0] == 'ptr' else (scalar.width(s.m, t) + 7) // 8
        s.chk(st, p, n); M = s.wr(st, p.o); e = M.get(p.off)
        if e is None or e[0] != n:
            for k in [k for k in M if k < p.off + n and k + M[k][0] > p.off]:
                w, ov = M.pop(k)
                if isinstance(ov, int):
                    for j in range(w):
                        if not (p.off <= k + j < p.off + n): M[k + j] = (1, (ov >> 8 * j) & 255)
        M[p.off] = (n, v)
    def load(s, st, p, t):
        if t[0] in ('struct', 'lit', 'arr'): return [s.load(st, Ptr(p.o, p.off + o), ft) for o, ft in s.offsets(t)]
        w = 64 if t[0] == 'ptr' else scalar.width(s.m, t); n = (w + 7) // 8
        s.chk(st, p, n); M = st.mem[p.o]; e = M.get(p.off)
        if e and e[0] == n: return e[1] & ((1 << w) - 1) if isinstance(e[1], int) else e[1]
        r = 0
        for j in range(n):
            b = None
            for k in range(p.off + j, p.off + j - 9, -1):
                if k in M:
                    ww, ov = M[k]
                    if k + ww > p.off + j:
                        if not isinstance(ov, int): return UNDEF
                        b = (ov >> 8 * (p.off + j - k)) & 255
                    break
            if b is None: return UNDEF
            r |= b << 8 * j
        return r & ((1 << w) - 1)
    def memcpy(s, st, d, a, n):
        if n == 0: return
        s.chk(st, d, n); s.chk(st, a, n); A = st.mem[a.o]; items = [(k, w, v) for k, (w, v) in A.items() if k < a.off + n and k + w > a.off]; M = s.wr(st, d.o)
        for k in [k for k in M if d.off <= k < d.off + n]: del M[k]
        for k, w, v in items:
            if a.off <= k and k + w <= a.off + n: M[d.off + k - a.off] = (w, v)
            elif isinstance(v, int):
                for j in range(w):
                    if a.off <= k + j < a.off + n: M[d.off + k + j - a.off] = (1, (v >> 8 * j) & 255)
            else: raise Unsup('partial copy')
    def binop(s, st, i):
        op, a, b, fl = i.args; t = i.ty
        if t[0] != 'int': raise Unsup('floating point')
        w = t[1]; x = s.val(st, t, a); y = s.val(st, t, b)
        if x is UNDEF or y is UNDEF: return UNDEF
        if isinstance(x, tuple) and isinstance(y, tuple) and op == 'sub' and x[:2] == y[:2]: return (x[2] - y[2]) & ((1 << w) - 1)
        if not isinstance(x, int) or not isinstance(y, int): raise Unsup('arithmetic on pointers or elements')
        m = (1 << w) - 1; S = lambda v: s.sg(v, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem') and y == 0: s.ob('no undefined behaviour', 'arith', False, 'division by zero', s.loc(st)); raise Stop()
        def sd(): q = abs(S(x)) // abs(S(y)); return q if (S(x) < 0) == (S(y) < 0) else -q
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y if y < w else 0, 'lshr': lambda: x >> y, 'ashr': lambda: S(x) >> y,
             'udiv': lambda: x // y, 'urem': lambda: x % y, 'sdiv': sd, 'srem': lambda: S(x) - sd() * S(y)}.get(op)
        if r is None: raise Unsup('operator ' + op)
        return r() & m
    def icmp(s, st, i):
        pr, a, b = i.args; x = s.val(st, i.ty, a); y = s.val(st, i.ty, b)
        if x is UNDEF or y is UNDEF: raise Unsup('comparison of an undefined value')
        if isinstance(x, int) and isinstance(y, int):
            w = i.ty[1]
            if pr[0] == 's': x, y = s.sg(x, w), s.sg(y, w); pr = pr[1:]
            elif pr[0] == 'u': pr = pr[1:]
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pr])
        r = Exec.icmp(s, st, i); return s.cint(r) & 1
    def cast(s, st, i):
        op, ft, v = i.args; x = s.val(st, ft, v); t = i.ty
        if x is UNDEF: return UNDEF
        if op == 'ptrtoint': return ('addr', x.o, x.off)
        if op == 'bitcast': return x
        if not isinstance(x, int): raise Unsup('cast')
        if op == 'trunc': return x & ((1 << t[1]) - 1)
        if op == 'zext': return x
        if op == 'sext': return s.sg(x, ft[1]) & ((1 << t[1]) - 1)
        raise Unsup('cast ' + op)
    def step(s, st):
        fr = st.fr[-1]; i = fr.f.blocks[fr.blk][fr.pc]; op = i.op
        if op == 'cbr':
            s.steps += 1; c = s.val(st, ('int', 1), i.args[0])
            if c is UNDEF: raise Unsup('branch on an undefined value')
            s.goto(st, i.args[1] if c else i.args[2]); return None
        if op == 'select':
            c = s.val(st, ('int', 1), i.args[0]); fr.env[i.res] = s.val(st, i.ty, i.args[1] if c else i.args[2]); fr.pc += 1; return None
        if op == 'switch':
            v = s.val(st, i.ty, i.args[0])
            for cv, b in i.args[2]:
                if s.const(st, i.ty, cv) == v: s.goto(st, b); return None
            s.goto(st, i.args[1]); return None
        if op == 'ret' and len(st.fr) > 1:
            for o in fr.allocas: st.mem.pop(o, None)
        r = Exec.step(s, st)
        if op == 'alloca': fr.allocas.append(fr.env[i.res].o)
        return r
    def intrinsic(s, st, i, name, av, ret):
        m = re.match(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow', name)
        if m:
            w = i.args[1][0][0][1]; x, y = av
            if m.group(1) == 's': x, y = s.sg(x, w), s.sg(y, w)
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[m.group(2)]; lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if m.group(1) == 's' else (0, (1 << w) - 1)
            ret([r & ((1 << w) - 1), int(not lo <= r <= hi)]); return None
        m = re.match(r'llvm\.(smax|smin|umax|umin)', name)
        if m:
            w = i.ty[1]; k = (lambda v: s.sg(v, w)) if m.group(1)[0] == 's' else (lambda v: v); ret((max if 'max' in name else min)(av[0], av[1], key=k)); return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')): s.memcpy(st, av[0], av[1], av[2]); ret(); return None
        m = re.match(r'llvm\.(ctlz|cttz|ctpop)', name)
        if m:
            w = i.ty[1]; x = av[0]; ret(bin(x).count('1') if m.group(1) == 'ctpop' else (w - x.bit_length() if m.group(1) == 'ctlz' else ((x & -x).bit_length() - 1 if x else w))); return None
        if name.startswith('llvm.is.constant'): ret(0); return None
        return Exec.intrinsic(s, st, i, name, av, ret)
    esize = 8
    def witness(s, st, extra=()):
        """keys of a weak order compatible with the path (and the extra strict facts), as replay inputs"""
        t = st.copy()
        for a, b in extra:
            if not (t.le[b] >> a) & 1: s.add_lt(t, a, b, True)
        n = t.nid; rank = [0] * n
        for _ in range(n + 1):
            for a in range(n):
                for b in range(n):
                    if (t.lt[a] >> b) & 1: rank[b] = max(rank[b], rank[a] + 1)
                    elif (t.le[a] >> b) & 1: rank[b] = max(rank[b], rank[a])
        return [('key%d' % k, 'key', rank[k]) for k in range(n)]
    def cexof(s, st): return s.witness(st)
# ---- contracts of called sorters (each is verified as a unit of its own)
CW = [0, 0, 2, 16, 112, 832, 6912, 62784, 623232, 6759936, 79937280, 1020833280, 15167554560, 223436206080]  # documented comparisons over all permutations
MW = [0, 0, 3, 17, 122, 898, 7188, 63276, 612048, 6476112, 74558880, 929011680, 12465394560, 179294186880]      # documented moves
def block(e, st, p, q, need):
    """the element identifiers of [p, q) when nothing distinguishes them: any two are unrelated and every other element has
    the same relation to all of them (then every order of the block is equally likely, and a sorted block is the chain in
    position order up to a renaming); None otherwise"""
    if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.o == q.o) or (q.off - p.off) != need * e.esize: return None
    ids = []
    for k in range(need):
        x = st.mem[p.o].get(p.off + k * e.esize)
        if x is None or not isid(x[1]): return None
        ids.append(x[1].off)
    if len(set(ids)) != need: return None
    S = set(ids)
    for a in ids:
        for b in range(st.nid):
            r = [(st.lt[a] >> b) & 1, (st.le[a] >> b) & 1, (st.lt[b] >> a) & 1, (st.le[b] >> a) & 1]
            if b in S:
                if a != b and any(r): return None
            else:
                a0 = ids[0]
                if r != [(st.lt[a0] >> b) & 1, (st.le[a0] >> b) & 1, (st.lt[b] >> a0) & 1, (st.le[b] >> a0) & 1]: return None
    return ids
def hook_sort(kind, N, table, idx, least=5):
    rx = re.compile(r'cppsort::detail::%s_impl<(\d+)ul>::operator\(\)' % kind)
    def pat(name, dem):
        m = rx.search(dem); return bool(m) and least <= int(m.group(1)) < N
    def h(e, st, i, av, ret):
        name = i.args[0][1]; k = int(rx.search(e.m.funcs[name].demangled).group(1)); ids = block(e, st, av[1], av[2], k)
        if ids is None: return NotImplemented
        from fractions import Fraction
        import math
        ret(); st.ev[idx] += Fraction(table[k], math.factorial(k)) if table and k < len(table) else 0
        t = st.copy(); t.mul = math.factorial(k)
        for a, b in zip(ids, ids[1:]): e.add_lt(t, a, b, False)
        e.assumed.add('%s<%d> sorts its range (verified as a unit of its own)' % (kind, k)); return [t]
    return pat, h
def hook_minmax(N, least=7):
    rx = re.compile(r'cppsort::detail::unchecked_minmax_element<')
    def pat(name, dem): return bool(rx.search(dem)) and N >= least
    def h(e, st, i, av, ret):
        n = (av[1].off - av[0].off) // e.esize; ids = block(e, st, av[0], av[1], n)
        if ids is None or n < 2: return NotImplemented
        out = []
        for a in range(n):
            for b in range(n):
                if a == b: continue
                t = st.copy(); fr = t.fr[-1]; fr.env[i.res] = [Ptr(av[0].o, av[0].off + a * e.esize), Ptr(av[0].o, av[0].off + b * e.esize)]
                if i.op == 'invoke': e.goto(t, i.args[2][0])
                else: fr.pc += 1
                for k in range(n):
                    if k != a: e.add_lt(t, ids[a], ids[k], False)
                    if k != b: e.add_lt(t, ids[k], ids[b], False)
                out.append(t)
        e.assumed.add('unchecked_minmax_element returns the first smallest and the last greatest element (contract MinMaxElement, C19)'); return out
    return pat, h
# ---- sorting networks: the compare-exchange is replaced by its contract (units vc_ce_*, C04 scalar units) and logged
CE = [0,0,1,3,5,9,12,16,19,25,29,35,39,45,51,56,60,71,77,85,91,99,106,114,120,130,139,147,155,164,172,180,185,199,209,220,227,240,250,259,265,282,291,303,309,324,332,340,346,365,376,387,395,411,421,432,438,454,465,476,483,497,506,515,521]  # documented
def knuth_m(n):
    """number of compare-exchanges of Knuth's Algorithm M (TAOCP 5.2.2)"""
    t = (n - 1).bit_length(); c = 0; p = 1 << (t - 1)
    while p:
        q, r, d = 1 << (t - 1), 0, p
        while True:
            c += sum(1 for i in range(n - d) if (i & p) == r)
            if q == p: break
            d, q, r = q - p, q >> 1, p
        p >>= 1
    return c
def batcher(n):
    """number of comparators of Batcher's odd-even mergesort of n = 2^k inputs"""
    k = n.bit_length() - 1; return ((k * k - k + 4) << k) // 4 - 1
def hook_ce():
    rx = re.compile(r'cppsort::detail::swap_if<(E|int|double)\b|cppsort::detail::iter_swap_if<(E|int|double)\*')
    def pat(name, dem): return bool(rx.search(dem)) and 'swap_if<' in dem and not dem.startswith('vc_')
    def h(e, st, i, av, ret):
        a, b = av[0], av[1]
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)): return NotImplemented
        f = e.m.funcs[i.args[0][1]]; e.visited.add(f.name); st.log.append((a, b, 4 if '<int' in f.demangled else 8, f.name)); ret(); return None
    return pat, h
NETBIN = None
def decide(n, pairs, tlimit=400):
    import subprocess
    q = subprocess.run([NETBIN], input='%d %d\n%s\n' % (n, len(pairs), '\n'.join('%d %d' % p for p in pairs)), capture_output=True, text=True, timeout=tlimit)
    return q.stdout.strip() if q.returncode == 0 else 'unknown'
def preimage(n, pairs, out):
    """a 0-1 input the network turns into the given output"""
    s = z3.Solver(); s.set('timeout', 60000); x = [z3.Bool('x%d' % i) for i in range(n)]; v = list(x)
    for k, (a, b) in enumerate(pairs):
        lo, hi = z3.Bool('l%d' % k), z3.Bool('h%d' % k); s.add(lo == z3.And(v[a], v[b]), hi == z3.Or(v[a], v[b])); v[a], v[b] = lo, hi
    for i in range(n): s.add(v[i] == (out[i] == '1'))
    if s.check() != z3.sat: return None
    m = s.model(); return [int(z3.is_true(m.eval(y, model_completion=True))) for y in x]
def canon(n, pairs):
    """the network up to the order of operations on disjoint slots"""
    q = [[] for _ in range(n)]
    for a, b in pairs:
        if 0 <= a < n and 0 <= b < n: q[a].append((a, b)); q[b].append((a, b))
    return q
def net_extern(e, st, i, name, av, ret):
    p, n, nm = av; n = e.cint(n); nm = e.cstr(st, nm); loc = e.loc(st); pairs = []; ok = True
    for a, b, w, f in st.log:
        x, y = divmod(a.off - p.off, w), divmod(b.off - p.off, w)
        if a.o != p.o or b.o != p.o or x[1] or y[1] or not (0 <= x[0] < n and 0 <= y[0] < n) or x[0] == y[0]: ok = False
        else: pairs.append((x[0], y[0]))
    st.log = []
    e.ob(nm + ': every compare-exchange is between two different positions of the range', 'func', ok, '', loc)
    if name == '__vc_same':
        e.ob('same network ' + nm, 'func', canon(n, pairs) == canon(n, e.net), 'compare-exchanges %s, the sorter runs %s' % (pairs[:40], e.net[:40]), loc)
    else:
        e.net = pairs; doc = CE[n] if 'sorting_network' == nm[:15] else knuth_m(n) if nm[:5] == 'merge' else batcher(n)
        e.ob('%s: exactly the documented number of compare-exchanges' % nm, 'func', len(pairs) == doc, '%d, documented %d' % (len(pairs), doc), loc)
        r = decide(n, pairs); cex = None
        if r == 'unknown': raise Unsup('0-1 decision too large')
        if r.startswith('fails'):
            x = preimage(n, pairs, r.split()[1]); cex = x and [('key%d' % k, 'key', v) for k, v in enumerate(x)]
        e.ob('%s: the network sorts every input' % nm, 'func', r == 'sorts', r, loc, cex)
    ret(); return None
def effort(n):
    """how long a unit takes, roughly (scheduling; above 1000: thorough tier only)"""
    k = re.search(r'(\d+)$', n); k = int(k.group(1)) if k else 0
    if n == 'vc_low_comparisons_9': return 900
    return k
def unit_plan(fname):
    if re.match(r'vc_(sn|me|oe)_', fname): return [hook_ce()], None
    """hooks and weights of a unit, from its name vc_<sorter>_<N>"""
    m = re.match(r'vc_(low_comparisons|low_moves)_(\d+)$', fname)
    if not m: return [], None
    kind, N = m.group(1), int(m.group(2))
    if kind == 'low_comparisons':
        return [hook_sort('low_comparisons_sorter', N, CW, 0, 6)], [('comparisons', 0, CW[N])]
    return [hook_minmax(N), hook_sort('low_moves_sorter', N, MW, 1, 5)], ([('moves', 1, MW[N])] if N < len(MW) else None)
def verify(module, fname, limit=300, weights=None):
    t = time.time(); hk, w0 = unit_plan(fname); weights = weights or w0; e = OExec(module, deadline=t + limit, maxpaths=400000, maxsteps=10**9, hooks=hk); e.assumed = set(); e.count = bool(weights); err = None
    try: e.run(fname)
    except Unsup as x: err = str(x)
    if err is None and not any(o['tag'] == 'func' for o in e.obs.values()): err = 'vacuous: the postcondition is not reached'
    if err is None and weights:
        for what, idx, w in weights:
            e.ob('%s over all permutations at most %d' % (what, w), 'func', e.totals[idx] <= w, '%d over all permutations, documented %d' % (e.totals[idx], w))
    obs = []
    for o in e.obs.values(): o = dict(o); o['unit'] = fname; o['backend'] = 'order'; obs.append(o)
    return dict(error=err, obs=obs, time=round(time.time() - t, 2), gen=0, used=[], assumed=sorted(e.assumed), inlined=sorted({module.funcs[n].demangled[:120] for n in e.visited if n != fname})[:60], fp=scalar.fingerprint(module, e.visited), states=e.npaths, totals=[str(x) for x in getattr(e, 'totals', [])])
