import sys, time, importlib
sys.path.insert(0,'/verif')
from cppwp.cast import Program, TypeParser
from cppwp.spec import Specs
from cppwp.verify import verify
def main(mods, pats, v=1):
    specs=[]
    for m in mods.split(','):
        specs += importlib.import_module('contracts.'+m).specs
    todo=[s for s in specs if not s.trusted and (not pats or any(p in s.name for p in pats))]
    tus=[]
    for s in todo:
        for t in s.tus:
            if t not in tus: tus.append(t)
    p=Program(); t0=time.time(); p.load(tus); 
    print('loaded',len(tus),'TUs in %.1f'%(time.time()-t0))
    tp=TypeParser(p); S=Specs(specs)
    for s in todo:
        r=verify(p,tp,s,S,verbose=v)
        print('%-50s %s  obl=%d failed=%d rounds=%d solver=%.1fs wall=%.1fs %s %s vac=%s'%(s.name+(' ['+s.sig+']' if s.sig else ''),r.status,len(r.obligations),len(r.failed),r.rounds,r.solver_time,r.wall,r.backend,r.reason,getattr(r,'vacuity','')))
        if v>1: print('   slow:', sorted([(round(o['time'],1), o['verdict'], o['name']) for o in r.obligations], reverse=True)[:12])
        if getattr(r,'trace',None): print(r.trace)
        for f in r.failed:
            print('   FAILED',f['func'],f['line'],f['name'],f['verdict'], f.get('detail','')[:300].replace('\n',' ') if v>1 else '', '%.1fs'%f['time'])
        if v>1: print('   inlined',r.inlined,'models',r.models,'dropped',r.dropped)
if __name__=='__main__':
    a=[x for x in sys.argv[1:] if not x.startswith('-')]
    main(a[0],a[1:], 2 if '-v' in sys.argv else 1 if '-q' not in sys.argv else 0)
