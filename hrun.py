import sys, time
sys.path.insert(0,'/verif')
import check
from contracts.registry import PROPS
pid=sys.argv[1]; secs=float(sys.argv[2]) if len(sys.argv)>2 else 15
cfg=PROPS.get(pid) or dict(harness=pid)
h=check.Harness(pid,cfg); t0=time.time(); h.start()
try:
    if not h.finish(): print(h.err); sys.exit(2)
    print('built %.1fs'%(time.time()-t0))
    f,ev,k,c=h.run(int(sys.argv[3]) if len(sys.argv)>3 else 200000,secs)
    for x in f[:20]: print(x[0],x[1],x[2][:1500])
    print('evals',ev,'kinds',k,'checks',c,'%.1fs'%(time.time()-t0))
finally: h.close()
