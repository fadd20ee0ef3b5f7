"""Discharging obligations and driving verification units."""
import sys, os, re, time, subprocess, tempfile, hashlib, json, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from sym import *
import sym, ir
from spec import *

def z3_try(pc, goal, timeout, opts=(), mk=z3.Solver):
    s = mk(); s.set('timeout', int(timeout*1000)); s.set('auto_config', False); s.set('smt.mbqi', False)
    for k, v in opts: s.set(k, v)
    for f in pc: s.add(f)
    s.add(z3.Not(goal) if isz(goal) else z3.BoolVal(not goal))
    t = time.time(); r = s.check()
    return r, time.time() - t, s

def ext_try(cmd, pc, goal, timeout):
    s = z3.Solver()
    for f in pc: s.add(f)
    s.add(z3.Not(goal))
    txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt); fn = f.name
    t = time.time()
    try:
        r = subprocess.run(cmd + [fn], capture_output=True, text=True, timeout=timeout+5).stdout.strip().split('\n')[0]
    except subprocess.TimeoutExpired: r = 'timeout'
    os.unlink(fn)
    return r, time.time() - t

def relevant(pc): return pc

def discharge(ob, budget=10):
    """decide one obligation, conjunct by conjunct (each may use the ones before it)"""
    g = ob.goal
    if not (isz(g) and z3.is_and(g) and hasq(g)): return discharge1(ob, budget)
    pc = list(ob.pc); t = 0; be = set()
    parts = flat_and(g)
    for i, x in enumerate(parts):
        o = Ob(ob.unit, ob.name, ob.tag, x, pc, ob.loc); discharge1(o, budget); t += getattr(o, 'time', 0) or 0
        if o.status != 'proved':
            ob.status = 'failed'; ob.backend = o.backend; ob.detail = 'conjunct %d of %d: %s' % (i + 1, len(parts), o.detail); ob.time = t; return
        be.add(o.backend); pc = pc + [x]
    ob.status = 'proved'; ob.backend = sorted(be)[0] if len(be) == 1 else ([b for b in sorted(be) if b.startswith('cvc5')] or sorted(be))[0]; ob.time = t
def flat_and(g):
    return [y for x in g.children() for y in flat_and(x)] if z3.is_and(g) else [g]
def discharge1(ob, budget=10):
    """decide one formula; sets status in {'proved','failed'} and the back end"""
    if ob.goal is True: ob.status = 'proved'; ob.backend = 'simplifier'; return
    g = ob.goal if isz(ob.goal) else z3.BoolVal(ob.goal)
    qf = [f for f in ob.pc if isz(f) and not hasq(f)]
    t0 = time.time()
    if not hasq(g):
        r, t, s = z3_try(qf, g, min(3, budget))
        if r == z3.unsat: ob.status = 'proved'; ob.backend = 'z3-5.3'; ob.time = time.time()-t0; return
        if r == z3.sat and len(qf) == len(ob.pc):
            ob.status = 'failed'; ob.backend = 'z3-5.3'; ob.detail = 'sat'; ob.time = time.time()-t0
            try: ob.detail = 'counterexample: ' + str(s.model())[:2000]
            except Exception: pass
            return
    r, t, s = z3_try(ob.pc, g, budget)
    if r == z3.unsat: ob.status = 'proved'; ob.backend = 'z3-5.3'; ob.time = time.time()-t0; return
    d = str(r) + ('' if r != z3.unknown else ':' + s.reason_unknown())
    r2, t, s2 = z3_try(ob.pc, g, min(budget, 5), (), z3.SimpleSolver)
    if r2 == z3.unsat: ob.status = 'proved'; ob.backend = 'z3-5.3'; ob.time = time.time()-t0; return
    for opts in ((('smt.arith.solver', 2),), (('smt.random_seed', 7), ('smt.arith.solver', 6), ('smt.qi.eager_threshold', 100.0)),):
        r2, t, s2 = z3_try(ob.pc, g, budget, opts)
        if r2 == z3.unsat: ob.status = 'proved'; ob.backend = 'z3-5.3'; ob.time = time.time()-t0; return
    r3, t = ext_try(['cvc5', '--tlimit=%d' % int(budget*1000)], ob.pc, g, budget)
    if r3 == 'unsat': ob.status = 'proved'; ob.backend = 'cvc5-1.1.2'; ob.time = time.time()-t0; return
    ob.status = 'failed'; ob.backend = 'z3-5.3+cvc5-1.1.2'; ob.detail = 'z3: %s; cvc5: %s' % (d, r3); ob.time = time.time()-t0

def discharge_all(obs, budget, k=4):
    """the obligations of a large unit are shared between k processes"""
    jobs = []
    for i in range(k):
        r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            try:
                os.close(r); out = []
                for j in range(i, len(obs), k):
                    discharge(obs[j], budget); o = obs[j]; out.append((j, o.status, o.backend, str(o.detail), o.time))
                with os.fdopen(w, 'w') as f: json.dump(out, f)
            finally: os._exit(0)
        os.close(w); jobs.append((pid, r))
    for pid, r in jobs:
        try:
            with os.fdopen(r) as f: res = json.load(f)
        except ValueError: res = []
        os.waitpid(pid, 0)
        for j, a, b, c, d in res: obs[j].status, obs[j].backend, obs[j].detail, obs[j].time = a, b, c, d
class UnitResult: pass

def fingerprint(module, names):
    """hash of the IR of a unit (function and everything inlined in it) without debug information"""
    h = hashlib.sha256()
    for n in names:
        f = module.funcs.get(n)
        if f is None: h.update(b'?'); continue
        for l in f.text:
            if 'llvm.dbg.' in l: continue
            l = l.split('!dbg')[0]; l = re.sub(r'#\d+|![\w.]+', '', l); h.update(' '.join(l.split()).encode() + b'\n')
    return h.hexdigest()[:16]

def verify_function(module, contract, fn, mode, budget=10, tlimit=240, log=None, variant=None, tags=None, only=None):
    if variant is not None:
        import copy; contract = copy.copy(contract); contract.variant = variant; contract.same_obj = variant == 'same'
    """generate and discharge every obligation of one function under its contract"""
    eng = Engine(module, REG, mode); t0 = time.time()
    res = UnitResult(); res.fn = fn.demangled; res.contract = contract.name; res.mode = mode; res.obs = []; res.error = None
    res.used = set(); res.assumed = set(); res.inlined = set()
    eng.unit = '%s[%s]' % (contract.name, mode); eng.deadline = t0 + tlimit
    try:
        st = State(); V = Setup(eng, st)
        if eng.costs: st.mem[eng.cobj.id] = {k: (('elem',), 0) for k in CNT.values()}
        given = contract.setup(V, fn)
        av = fill_args(eng, fn, st, given)
        ctx = CallCtx(eng, contract, fn, st, av); ctx.verifying = True
        for n, tag, f in contract.pres(ctx): eng.assume(st, f)
        if contract.decreases: ctx.dec = contract.decreases(ctx)
        contract.derive(ctx)
        # vacuity: the precondition must be satisfiable (quantifier-free part, plus a solver attempt to refute all of it)
        r = eng._solve(st.pc, 3000)
        if r == z3.unsat: raise Unsupported('vacuous precondition')
        pre_pc = list(st.pc)
        outs = eng.run_function(fn, av, st, 0, (), contract, ctx)
        if not outs: raise Unsupported('no path returns')
        nreach = 0
        for s2, ret in outs:
            c2 = CallCtx(eng, contract, fn, s2, av); c2.pre_mem = ctx.pre_mem; c2.aux = ctx.aux; c2.verifying = True
            own = set(contract.owned(c2, ret)); left = [o for o in s2.ghost.get('heap', ()) if o not in own]
            if s2.ghost.get('heap') or own: eng.oblige(s2, ('exceptional-exit:' if ret is EXC else 'exit:') + 'every-allocated-block-released', 'own', zb(not left), fn.dbg)
            if ret is EXC:
                for n, tag, f in contract.post_exc(c2): eng.oblige(s2, 'exceptional-exit:%s' % n, tag, f, fn.dbg)
                for fr_ob in frame_obligations(eng, contract, ctx, c2): eng.oblige(s2, fr_ob[0], 'frame', fr_ob[1], fn.dbg)
                continue
            if eng.feasible(s2): nreach += 1
            for n, tag, f in contract.posts(c2, ret):
                eng.oblige(s2, 'post:%s' % n, tag, f, fn.dbg)
            if eng.costs:
                for n, f in contract.cost(c2, ret): eng.oblige(s2, 'post:%s' % n, 'cost', f, fn.dbg)
            for fr_ob in frame_obligations(eng, contract, ctx, c2): eng.oblige(s2, fr_ob[0], 'frame', fr_ob[1], fn.dbg)
        res.returns = nreach
        if nreach == 0: raise Unsupported('every path is infeasible')
    except (Unsupported, RecursionError) as e:
        res.error = '%s: %s' % (type(e).__name__, e)
        if log: print(traceback.format_exc()[-2500:])
    except KeyError as e:
        res.error = 'KeyError: %s' % e; 
        if log: print(traceback.format_exc()[-2500:])
    except Exception as e:
        res.error = '%s: %s' % (type(e).__name__, e)
        if log: print(traceback.format_exc()[-2500:])
    res.fingerprint = fingerprint(module, [fn.name] + sorted(eng.inlined_fns))
    res.gen_time = time.time() - t0; res.paths = eng.paths; res.nq = eng.nq
    res.used = eng.used_contracts; res.assumed = eng.assumed; res.inlined = eng.inlined
    if res.error is None:
        # dedup identical goals with identical contexts
        if tags: eng.obs = [o for o in eng.obs if o.tag in tags]
        if only is not None:
            # a second attempt at some obligations
            if only and only[-1][0] >= len(eng.obs) or any(eng.obs[i].name != n for i, n in only): raise Unsupported('obligations differ between two runs')
            todo = [eng.obs[i] for i, n in only]; discharge_all(todo, budget, 8); eng.obs = todo
        if len(eng.obs) > 300: discharge_all(eng.obs, budget)
        for ob in eng.obs:
            if not getattr(ob, 'status', None): discharge(ob, budget)
            if log and ob.status != 'proved': log(ob, module)
        res.obs = eng.obs
        # reachability canary: some return path must not prove False
        can = False
        for s2, ret in [o for o in outs if o[1] is not EXC][:8]:
            r, t, s = z3_try(s2.pc, z3.BoolVal(False), 2)
            if r != z3.unsat: can = True; break
        if not can: res.error = 'vacuous: False is provable at every sampled return'
    res.time = time.time() - t0
    return res

def frame_obligations(eng, contract, c0, c1):
    """every element region reachable from the arguments is unchanged outside the declared frame"""
    fr = {}
    for f in contract.frame(c0):
        o = f[1].obj if isinstance(f[1], Ptr) else f[1]
        if o is not None: fr.setdefault(o.id, []).append((zi(f[2]), zi(f[3])))
    out = []
    for oid, cells in c0.pre_mem.items():
        if oid == eng.cobj.id or oid in contract.frame_free(c0): continue
        now = c1.st.mem.get(oid)
        if now is None: continue
        for k, v in cells.items():
            if isinstance(v, tuple):
                if k in now and same(now[k][1], v[1]): continue
                if ('cell', oid, k) in getattr(contract, 'frame_cells', lambda c: ())(c0): continue
                if k in now and contract_allows_cell(contract, c0, oid): continue
                out.append(('frame:cell', zb(False) if k not in now else eq_vals(now[k][1], v[1])))
            else:
                if same(now.get(k), v): continue
                rs = fr.get(oid, [])
                i = z3.Int('fi')
                inside = z3.Or(*[inr(lo, i, hi) for lo, hi in rs]) if rs else z3.BoolVal(False)
                o = None
                out.append(('frame:outside-unchanged', z3.ForAll([i], z3.Or(inside, z3.Not(in_obj(eng, c0, oid, i)), sel(now[k], i) == sel(v, i)))))
    return out
def contract_allows_cell(contract, c0, oid):
    return oid in [p.obj.id for p in getattr(contract, 'writes_objects', lambda c: ())(c0)]
def eq_vals(a, b):
    if same(a, b): return z3.BoolVal(True)
    if (isz(a) or isinstance(a, int)) and (isz(b) or isinstance(b, int)): return zi(a) == zi(b)
    return z3.BoolVal(False)
def in_obj(eng, c, oid, i):
    for a in c.av:
        if isinstance(a, Ptr) and a.obj is not None and a.obj.id == oid and a.obj.kind == 'region': return inr(a.obj.lo, i, a.obj.hi)
    return z3.BoolVal(True)
