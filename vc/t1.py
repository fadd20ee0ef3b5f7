import sys; sys.path.insert(0,'/verif/vc'); sys.path.insert(0,'/verif/vc/specs')
from prove import *
import importlib, glob, subprocess, multiprocessing
for f in sorted(glob.glob('/verif/vc/specs/*.py')): importlib.import_module(os.path.basename(f)[:-3])
CL='/usr/lib/llvm-18/bin/clang++ -std=c++17 -S -emit-llvm -O0 -Xclang -disable-O0-optnone -Xclang -disable-llvm-passes -fno-discard-value-names -g -gno-column-info -I/verif/harness'.split()
def comp(tu, inc):
    out='/tmp/w/%s.ll'%tu
    subprocess.run(CL+['-I'+inc,'/verif/harness/%s.cpp'%tu,'-o',out],check=True); return ir.Module(open(out).read())
def main():
    import argparse; ap=argparse.ArgumentParser(); ap.add_argument('tu'); ap.add_argument('names',nargs='*'); ap.add_argument('-I',default='/repo/include'); ap.add_argument('-m',default='plain,stable'); ap.add_argument('-v',action='store_true'); ap.add_argument('-b',type=float,default=10); ap.add_argument('-t',type=float,default=240)
    a=ap.parse_args(); m=comp(a.tu,a.I)
    jobs=[]
    for fn in m.funcs.values():
        if fn.decl: continue
        eng=Engine(m,REG,'plain'); c=REG.contract_for(fn,eng)
        if c is None or (a.names and c.name not in a.names): continue
        if not c.verify_here(fn): continue
        for mode in a.m.split(','):
            if (hasattr(c, 'cost') if mode == 'cost' else c.has_mode(mode) or mode == 'exc'): jobs += [(c,fn,mode,v) for v in c.variants]
    def run(j):
        c,fn,mode,v=j
        def log(ob,mm=None):
            if isinstance(ob,Ob): print('  FAIL',c.name,mode,ob.name,ob.tag,ir.Module.loc(m,ob.loc),ob.detail[:200 if not a.v else 3000],flush=True)
        r=verify_function(m,c,fn,mode,budget=a.b,tlimit=a.t,log=log,variant=v)
        print(c.name,v or '',mode,fn.demangled[:110],r.error or '','obs',len(r.obs),'proved',sum(o.status=='proved' for o in r.obs),'gen %.1f tot %.1f paths %d nq %d'%(r.gen_time,r.time,r.paths,r.nq),sorted(r.used),flush=True)
        if a.v:
            from collections import Counter; C=Counter(); N=Counter()
            for o in r.obs: C[o.name]+=o.time or 0; N[o.name]+=1
            for k,v in C.most_common(12): print('   TOP %.1f s x%d %s'%(v,N[k],k))
        return 0
    ps=[]
    import time as T
    pend=list(jobs)
    while pend or ps:
        ps=[p for p in ps if p.is_alive()]
        while pend and len(ps)<8:
            p=multiprocessing.Process(target=run,args=(pend.pop(0),)); p.start(); ps.append(p)
        T.sleep(.05)
main()
