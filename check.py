#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> : decides one property of the catalogue on /repo's current tree.

1. every proof unit of the property is regenerated from /repo's headers (clang -> IR -> obligations)
   and every obligation is given to the solvers;
2. the bounded stand-ins (native programs built from /repo's headers) run, both to cover what is not
   under contract and to look for a failing input when an obligation fails;
3. exit 1 with VIOLATION lines, or exit 0; evidence/<property>.json is rewritten.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, multiprocessing, signal, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [HERE, HERE + '/vc', HERE + '/vc/specs']
import plan
CXX = '/usr/lib/llvm-18/bin/clang++'
IRFLAGS = '-std=c++17 -S -emit-llvm -O0 -Xclang -disable-O0-optnone -Xclang -disable-llvm-passes -fno-discard-value-names -g -gno-column-info'.split()
NTFLAGS = '-O1 -g1 -fsanitize=address,undefined -fno-sanitize=object-size,vptr,null -fno-sanitize-recover=all -w'.split()
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')

class Task:
    def __init__(s, kind, label, **kw): s.kind = kind; s.label = label; s.out = ''; s.rc = None; s.__dict__.update(kw)

class Pool:
    """runs commands and forked python jobs, at most `n` at a time"""
    def __init__(s, n, tmp): s.n = n; s.tmp = tmp; s.pend = []; s.run = []; s.k = 0
    def cmd(s, label, argv, limit, then, env=None):
        s.pend.append(('cmd', label, argv, limit, then, env)); 
    def job(s, label, fn, limit, then): s.pend.append(('job', label, fn, limit, then, None))
    def loop(s):
        while s.pend or s.run:
            while s.pend and len(s.run) < s.n:
                kind, label, what, limit, then, env = s.pend.pop(0); s.k += 1
                if kind == 'cmd':
                    f = open('%s/out.%d' % (s.tmp, s.k), 'w+b')
                    p = subprocess.Popen(what, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=s.tmp, start_new_session=True)
                    s.run.append((kind, p, f, time.time(), limit, then))
                else:
                    fn = '%s/job.%d' % (s.tmp, s.k)
                    def go(what=what, fn=fn):
                        try: r = what()
                        except BaseException as e: r = {'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-1500:]}
                        with open(fn + '.t', 'w') as o: json.dump(r, o, default=str)
                        os.rename(fn + '.t', fn)
                    p = multiprocessing.get_context('fork').Process(target=go); p.start()
                    s.run.append((kind, p, fn, time.time(), limit, then))
            time.sleep(0.02); keep = []
            for x in s.run:
                kind, p, f, t0, limit, then = x
                if kind == 'cmd':
                    rc = p.poll()
                    if rc is None and time.time() - t0 > limit:
                        os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = 'timeout'
                    if rc is None: keep.append(x); continue
                    f.seek(0); out = f.read().decode(errors='replace'); f.close(); then(rc, out, time.time() - t0)
                else:
                    if p.is_alive():
                        if time.time() - t0 > limit: p.kill(); p.join(); then({'error': 'Timeout: %d s' % limit}); continue
                        keep.append(x); continue
                    p.join()
                    then(json.load(open(f)) if os.path.exists(f) else {'error': 'worker died (%s)' % p.exitcode})
            s.run = keep

# ------------------------------------------------------------------ proof units
def ob_dict(o, loc):
    return dict(unit=o.unit, name=o.name, tag=o.tag, status=o.status, backend=o.backend, time=round(o.time, 3), detail=str(o.detail)[:1500], loc=loc)
def unit_key(cname, fn, mode, v): return '%s|%s|%s%s' % (cname, fn, mode, '' if v is None else '|' + str(v))
def verify_ll(module, c, fn, mode, v, tags, budget, tlimit, only=None):
    import prove
    r = prove.verify_function(module, c, fn, mode, budget=budget, tlimit=tlimit, variant=v, tags=tags, only=only)
    obs = []
    for o in r.obs:
        f, l = module.loc(o.loc); obs.append(ob_dict(o, '%s:%s' % (f.split('include/')[-1], l)))
    return dict(error=r.error, obs=obs, time=r.time, gen=r.gen_time, used=sorted(r.used), assumed=sorted(map(str, r.assumed)), inlined=sorted(r.inlined), fp=getattr(r, 'fingerprint', ''))

def main():
    prop = sys.argv[1]; P = plan.PLAN[prop]; t00 = time.time(); thorough = TIER == 'thorough'
    rebase = '--baseline' in sys.argv
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    evd = HERE + '/evidence'; rpd = evd + '/replay'; os.makedirs(rpd, exist_ok=True)
    for f in os.listdir(rpd):
        if f.startswith(prop + '-'): os.unlink(rpd + '/' + f)
    try: base = json.load(open(HERE + '/vc/baseline.json')).get(prop, {})
    except FileNotFoundError: base = {}
    units = {}; natives = []; notes = []; again = {}
    pool = Pool(8, tmp)
    budget = 30 if thorough else 10; tlimit = 600 if thorough else 200
    try:
        # ---- native stand-ins (compilation first: they take longest)
        nats = P.get('natives', [])
        def start_native(src, args, public):
            exe = '%s/%s' % (tmp, src); N = dict(src=src, args=args, public=public, state='compile', fails=[], stats={}, samples=[]); natives.append(N)
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', TMPDIR=tmp)
            def ran(rc, out, t):
                N['time'] = round(t, 2); N['rc'] = rc; N['out'] = out[-6000:]
                for l in out.split('\n'):
                    if l.startswith(('FAIL ', 'CRASH ')): N['fails'].append(l[:3000])
                    elif l.startswith('STATS'): N['stats'] = dict((k, int(v)) for k, v in re.findall(r'(\w+)=(\d+)', l))
                    elif l.startswith('SAMPLE'): N['samples'].append(l[7:300])
                if rc == 'timeout': N['state'] = 'timeout'; N['fails'].append('FAIL %s does not finish within the time limit' % prop); return
                N['state'] = 'ok' if rc == 0 and not N['fails'] else 'failed'
                if rc != 0 and not N['fails']:
                    N['fails'].append('CRASH exit status %s: %s' % (rc, ' '.join(l for l in out.split('\n') if 'runtime error' in l or 'ERROR' in l)[:500]))
                elif N['fails']: N['san'] = ' '.join(l for l in out.split('\n') if 'runtime error' in l or 'ERROR: Addr' in l)[:600]
            def built(rc, out, t):
                N['ctime'] = round(t, 2)
                if rc != 0: N['state'] = 'nocompile'; N['out'] = out[:4000]; return
                N['state'] = 'run'
                argv = [exe + N.get('suffix', ''), '--prop', prop, '--seed', str(SEED)] + (['--thorough'] if thorough else []) + args
                pool.cmd('run ' + src, argv, 840 if thorough else 300, ran, env)
            extra = plan.NATIVE_FLAGS.get(src, [])
            std = [] if any(x.startswith('-std') for x in extra) else ['-std=c++17']
            exe2 = exe + '_%d' % len(natives); N['suffix'] = '_%d' % len(natives)
            pool.cmd('cc ' + src, [CXX] + std + NTFLAGS + extra + ['-I' + REPO + '/include', '-I' + REPO + '/testsuite', '-I' + HERE + '/native', HERE + '/native/%s.cpp' % src, '-o', exe2], 400, built)
        only_proof = '--proof-only' in sys.argv; only_native = '--native-only' in sys.argv
        # ---- proof units over IR
        mods = {}
        def start_tu(tu, spec):
            ll = '%s/%s.ll' % (tmp, tu)
            def built(rc, out, t):
                if rc != 0: notes.append('translation unit %s does not compile: %s' % (tu, out[:600])); return
                import ir, prove, sym
                from spec import REG
                try: m = ir.Module(open(ll).read())
                except Exception as e: notes.append('IR of %s not understood: %s' % (tu, e)); return
                mods[tu] = m
                for fn in m.funcs.values():
                    if fn.decl: continue
                    eng = prove.Engine(m, REG, 'plain'); c = REG.contract_for(fn, eng)
                    if c is None or not c.verify_here(fn): continue
                    if spec.get('only') and c.name not in spec['only']: continue
                    if c.name in spec.get('skip', ()): continue
                    if not spec.get('only') and prop not in c.props and not (prop == 'C02' and c.has_mode('stable')) and spec['modes'] not in (['exc'], ['cost']): continue
                    for mode in spec['modes']:
                        if mode == 'cost':
                            if not hasattr(c, 'cost') or prop not in c.cost_props: continue
                        elif mode != 'exc' and not c.has_mode(mode): continue
                        for v in c.variants:
                            k = unit_key(c.name, fn.demangled, mode, v)
                            if k in units: continue
                            units[k] = None
                            def done(r, k=k): units[k] = r
                            pool.job(k, lambda m=m, c=c, fn=fn, mode=mode, v=v: verify_ll(m, c, fn, mode, v, spec.get('tags'), budget, tlimit), tlimit + 120, done)
                            again[k] = lambda only, m=m, c=c, fn=fn, mode=mode, v=v: verify_ll(m, c, fn, mode, v, spec.get('tags'), 30, 400, only)
            pool.cmd('ir ' + tu, [CXX] + IRFLAGS + ['-I' + HERE + '/harness', '-I' + REPO + '/include', HERE + '/harness/%s.cpp' % tu, '-o', ll], 300, built)
        def start_scalar(tu, names=None):
            ll = '%s/sc_%s.ll' % (tmp, tu)
            def built(rc, out, t):
                if rc != 0: notes.append('contract harness %s does not compile: %s' % (tu, out[:600])); units['scalar|%s' % tu] = {'error': 'does not compile: ' + out[:300]}; return
                import ir, scalar
                try: m = ir.Module(open(ll).read())
                except Exception as e: notes.append('IR of %s not understood: %s' % (tu, e)); units['scalar|%s' % tu] = {'error': str(e)}; return
                for n in m.funcs:
                    if not n.startswith('vc_') or m.funcs[n].decl or (names and not any(n.startswith('vc_' + x) for x in names)): continue
                    k = 'scalar|%s|%s' % (tu, n); units[k] = None
                    def done(r, k=k): units[k] = r
                    pool.job(k, lambda n=n: scalar.verify(m, n, limit=400 if thorough else 150, hooks=scalar.hooks_for(tu)), 700, done)
            import scalar
            pool.cmd('ir ' + tu, [CXX] + scalar.flags_for(tu) + ['-I' + HERE + '/harness', '-I' + REPO + '/include', HERE + '/harness/%s.cpp' % tu, '-o', ll], 300, built)
        def start_order(tu):
            ll = '%s/or_%s.ll' % (tmp, tu)
            def built(rc, out, t):
                if rc != 0: notes.append('contract harness %s does not compile: %s' % (tu, out[:600])); units['order|%s' % tu] = {'error': 'does not compile: ' + out[:300]}; return
                import ir, order
                order.NETBIN = tmp + '/netdecide'
                try: m = ir.Module(open(ll).read())
                except Exception as e: notes.append('IR of %s not understood: %s' % (tu, e)); units['order|%s' % tu] = {'error': str(e)}; return
                for n in sorted((n for n in m.funcs if n.startswith('vc_') and not m.funcs[n].decl), key=order.effort, reverse=True):
                    if not thorough and order.effort(n) > 1000: continue
                    k = 'order|%s|%s' % (tu, n); units[k] = None
                    def done(r, k=k): units[k] = r
                    pool.job(k, lambda n=n: order.verify(m, n, limit=800 if thorough else 300), 850 if thorough else 400, done)
            import scalar
            pool.cmd('ir ' + tu, [CXX] + scalar.flags_for(tu) + ['-I' + HERE + '/harness', '-I' + REPO + '/include', HERE + '/harness/%s.cpp' % tu, '-o', ll], 300, built)
        if not only_native:
            import prove
            if P.get('order'):
                r = subprocess.run([CXX, '-std=c++17', '-O2', HERE + '/vc/netdecide.cpp', '-o', tmp + '/netdecide'], capture_output=True, text=True)
                if r.returncode: notes.append('netdecide does not build: ' + r.stderr[:300])
            for e in P.get('order', []): start_order(e)
            for e in P.get('scalar', []): start_scalar(*([e] if isinstance(e, str) else e))
            for f in sorted(os.listdir(HERE + '/vc/specs')):
                if f.endswith('.py'): importlib.import_module(f[:-3])
            for tu, spec in P.get('tus', {}).items(): start_tu(tu, spec)
            for modname, fname in P.get('pyunits', []):
                # a python unit function returns a dict of units (same layout as verify_ll results)
                def pdone(r, fname=fname):
                    if 'units' in r: units.update(r['units'])
                    else: units['py|' + fname] = r
                def prun(modname=modname, fname=fname):
                    m = importlib.import_module(modname); return {'units': getattr(m, fname)(REPO, tmp, thorough)}
                pool.job('py ' + fname, prun, 700, pdone)
        if not only_proof:
            for n in nats: start_native(n[0], list(n[1]) if len(n) > 1 else [], not (len(n) > 2 and n[2] == 'detail'))
        pool.loop()
        # ---- counterexamples of the bit-precise units are replayed against the real code
        replayed = 0
        for k, r in list(units.items()):
            if not k.startswith(('scalar|', 'order|')) or not r or r.get('error') or replayed >= 3: continue
            tu, fn = k.split('|')[1:3]
            for o in r['obs']:
                if o['status'] == 'proved' or o.get('cex') is None: continue
                exe = '%s/replay_%s_%s' % (tmp, tu, fn)
                c = subprocess.run([CXX, '-std=c++17', '-O0', '-w', '-fsanitize=undefined,address', '-fno-sanitize-recover=all', '-DVC_REPLAY', '-DVC_MAIN=vc_main_' + fn, '-DVC_FN=' + fn, '-I' + HERE + '/harness', '-I' + REPO + '/include', HERE + '/harness/%s.cpp' % tu, '-o', exe], capture_output=True, text=True) if not os.path.exists(exe) else None
                if c is not None and c.returncode: notes.append('replay of %s does not build: %s' % (k, c.stderr[:300])); break
                argv = ['%x' % v for _, _, v in o['cex']]
                try: q = subprocess.run([exe] + argv, capture_output=True, text=True, timeout=60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0')); rc, out = q.returncode, q.stdout + q.stderr
                except subprocess.TimeoutExpired: rc, out = 'timeout', 'does not end within 60 s'
                if rc not in (0, 3):
                    replayed += 1
                    natives.append(dict(src='../harness/' + tu, args=argv, public=False, state='failed', stats={}, samples=[], out=out[-3000:], time=0, replay='%s -DVC_REPLAY -DVC_FN=%s' % (tu, fn),
                        fails=['FAIL %s %s :: %s -- counterexample of the verifier reproduced on the real code: inputs %s -- %s' % (prop, fn, o['name'], ' '.join('%s=0x%x' % (a, v) for a, b, v in o['cex']), ' '.join(out.split())[:300])]))
                    break
        # ---- a second attempt, alone on the machine and with a larger budget, at the few obligations the solvers gave no answer for
        def weak(r): return [(i, o['name']) for i, o in enumerate(r['obs']) if o['status'] != 'proved']
        R = [(k, weak(r)) for k, r in units.items() if k in again and r and not r.get('error') and weak(r)]
        if len(R) <= 3 and all(len(w) <= 6 for k, w in R) and not any(o['detail'].startswith('counterexample') for k, w in R for i, n in w for o in [units[k]['obs'][i]]) and not any(N['fails'] for N in natives):
            for k, w in R:
                if time.time() - t00 > 450: break
                p2 = Pool(1, tmp)
                def redone(r, k=k, w=w):
                    if r.get('error') or len(r['obs']) != len(w): return
                    for (i, n), o in zip(w, r['obs']):
                        if o['status'] == 'proved': units[k]['obs'][i] = o
                    notes.append('%s: %d obligations decided at the second attempt' % (k, sum(o['status'] == 'proved' for o in r['obs'])))
                p2.k = 10**6; p2.job(k, lambda k=k, w=w: again[k](w), 350, redone); p2.loop()
        def bad(r): return r is None or r.get('error') or any(o['status'] != 'proved' for o in r.get('obs', []))
        return decide(prop, P, units, natives, notes, base, thorough, t00, evd, rpd, rebase, bad)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def known():
    out = []
    try:
        for l in open(HERE + '/known_findings.txt'):
            if l.startswith('finding:'):
                m = re.match(r'finding: property=(\S+) match="([^"]*)" (.*)', l)
                if m: out.append(m.groups())
    except FileNotFoundError: pass
    return out

def decide(prop, P, units, natives, notes, base, thorough, t00, evd, rpd, rebase, bad):
    viol = []; KF = known(); shown = set()
    # native failures
    for N in natives:
        if N['state'] == 'nocompile':
            if N['public']: viol.append(('compile', 'the public interface used by %s.cpp no longer compiles' % N['src'], N))
            else: notes.append('stand-in %s.cpp does not compile against the current tree' % N['src'])
            continue
        for f in N['fails']:
            k = [x for x in KF if x[0] == prop and x[1] in f]
            if k:
                if k[0][2] not in shown: print('KNOWN-FINDING: property=%s %s' % (prop, k[0][2])); shown.add(k[0][2])
                continue
            viol.append(('input', f, N)); break
    # obligations
    nob = ndis = 0; per = []; bnd = []; undecided = []; failed = []; stime = 0; be = {}
    for k in sorted(set(units) | set(base)):
        r = units.get(k)
        if k not in units: undecided.append((k, 'the function is no longer found in the compiled headers')); continue
        if r is None: undecided.append((k, 'no result')); continue
        if r.get('error'):
            undecided.append((k, r['error'])); continue
        o = r['obs']; d = [x for x in o if x['status'] == 'proved']; bu = next((b for rx, b in P.get('bounded_units', []) if re.search(rx, k)), None)
        stime += sum(x['time'] for x in o); per.append((k, len(o), len(d)))
        if bu is None:
            nob += len(o); ndis += len(d)
            for x in d: be[x['backend']] = be.get(x['backend'], 0) + 1
        else: bnd.append(dict(unit=k, bound=bu, conditions=len(o), hold=len(d)))
        f = [x for x in o if x['status'] != 'proved']
        if f:
            if base.get(k, {}).get('fp') == r.get('fp') and r.get('fp'):
                undecided.append((k, 'solver gave no answer on unchanged code: %s' % f[0]['name']))
            else: failed.append((k, f, r))
    have_input = [v for v in viol if v[0] in ('input', 'compile')]
    lines = []
    n = 0
    def replay(txt):
        nonlocal n; n += 1; p = '%s/%s-%d.txt' % (rpd, prop, n); open(p, 'w').write(txt); return p
    obtxt = '\n'.join('obligation failed: %s :: %s [%s] at %s\n   %s' % (k, x['name'], x['tag'], x['loc'], x['detail']) for k, f, r in failed for x in f[:5])
    for kind, f, N in viol:
        cmd = '%s -std=c++17 -O0 -w -fsanitize=undefined,address -fno-sanitize-recover=all -DVC_REPLAY -DVC_FN=%s -I%s/harness -I%s/include %s/harness/%s.cpp -o /tmp/replay && /tmp/replay %s' % (CXX, N['replay'].split('VC_FN=')[1], HERE, REPO, HERE, N['replay'].split()[0], ' '.join(N['args'])) if N.get('replay') else '%s -std=c++17 %s %s -I%s/include -I%s/native %s/native/%s.cpp -o /tmp/replay && ASAN_OPTIONS=detect_leaks=0 /tmp/replay --prop %s --seed %d%s %s' % (CXX, ' '.join(NTFLAGS), ' '.join(plan.NATIVE_FLAGS.get(N['src'], [])), REPO, HERE, HERE, N['src'], prop, SEED, ' --thorough' if thorough else '', ' '.join(N['args']))
        p = replay('property %s\nprogram native/%s.cpp (%s)\nto replay: %s\n\n%s\n%s\n\n%s\n\n%s\n' % (prop, N['src'], N['state'], cmd, f, N.get('san', ''), N.get('out', '')[:4000], obtxt))
        print('  %s: %s' % (N['src'], f[:400]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, p))
    for k, f, r in failed:
        x = f[0]
        if not have_input:
            p = replay('property %s\nunit %s\n%s\n\nThe verifier did not accept these obligations, generated from the current source of /repo; no bounded stand-in of this property found a failing input.\nTo replay: VERIF_TIER=%s %s/check.py %s\n' % (prop, k, '\n'.join('FAILED %s [%s] at %s\n  back end %s: %s' % (y['name'], y['tag'], y['loc'], y['backend'], y['detail']) for y in f), TIER, HERE, prop))
        print('  failed obligation: %s :: %s at %s' % (k, x['name'], x['loc']))
        if not have_input: lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
    for l in lines[:12]: print(l)
    # ---- evidence
    wall = round(time.time() - t00, 2)
    ev = sum(N['stats'].get('evaluations', 0) for N in natives); nt = sum(N['stats'].get('nontrivial', 0) for N in natives)
    samples = [x for N in natives for x in N['samples'][:2]][:12]
    cov = dict(obligations=nob, discharged=ndis, checker_cmd='%s/check.py %s (clang 18 IR of the real headers -> obligations -> z3 5.3 / cvc5 1.1.2)' % (HERE, prop),
        backends=be, solver_seconds=round(stime, 2), units=len(per) - len(bnd), functions_under_contract=[k for k, a, b in per if not any(x['unit'] == k for x in bnd)], undecided=['%s: %s' % (k, e) for k, e in undecided],
        failed_obligations=['%s :: %s' % (k, x['name']) for k, f, r in failed for x in f],
        trusted_base=plan.TRUSTED + P.get('trusted', []) + sorted({a for r in units.values() if r for a in r.get('assumed', [])}),
        inlined=sorted({a for r in units.values() if r for a in r.get('inlined', [])})[:200],
        bounded=dict(label='bounded stand-ins: never counted as proved', bound=P.get('bound', plan.BOUND), programs=[dict(program=N['src'], state=N['state'], evaluations=N['stats'].get('evaluations', 0), seconds=N.get('time')) for N in natives], covers=P.get('bounded', ''), symbolic_units=bnd),
        notes=notes)
    if natives or P['level'] == 'exploration':
        cov.update(evaluations=ev, distinct_nontrivial=nt, rule=P.get('bound', plan.BOUND), samples=samples)
    if P['level'] == 'other': cov['explanation'] = P['explanation']
    json.dump(dict(property=prop, tier=TIER, seed=SEED, level=P['level'], coverage=cov, wall_s=wall), open('%s/%s.json' % (evd, prop), 'w'), indent=1)
    print('%s: %d/%d obligations discharged in %d units, %d undecided, %d bounded symbolic units, %d stand-in programs (%d evaluations), %.1f s' % (prop, ndis, nob, len(per) - len(bnd), len(undecided), len(bnd), len(natives), ev, wall))
    for k, e in undecided[:20]: print('  undecided: %s: %s' % (k, e))
    for x in notes: print('  note: %s' % x[:600])
    if rebase:
        f = HERE + '/vc/baseline.json'; import fcntl
        with open(HERE + '/evidence/.lock', 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            try: B = json.load(open(f))
            except FileNotFoundError: B = {}
            B[prop] = {k: dict(fp=units[k].get('fp', ''), obs=len(units[k]['obs'])) for k, a, b in per if a == b}
            json.dump(B, open(f, 'w'), indent=0, sort_keys=True)
    return 1 if lines else 0
if __name__ == '__main__':
    sys.exit(main())
