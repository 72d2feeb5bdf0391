import sys, random, tempfile, json, time
from vlib import *
from gen import *
import annot
def go(weights, view, n=200, seed=1, size=25, module='TraceGrid', show=5, **kw):
    R=random.Random(seed)
    cases=[annot.prep({'id':str(k),'ops':history(R,weights,size,**kw),'view':view}) for k in range(n)]
    return run(cases,module,show)
def run(cases,module,show=5):
    b=build_harness(); tmp=tempfile.mkdtemp()
    t=time.time(); cs=run_cases(b,cases,tmp); t2=time.time()
    mm,g,d,w=validate(module,cs,tmp)
    print('cases',len(cs),'impl %.1fs tlc %.1fs'%(t2-t,w),'mism',len(mm),'states',d)
    by={c['id']:c for c in cs}
    for m in mm[:show]:
        c=by[m['id']]; print(m['id'],m['step'],m['kind'],'EXP',m['exp'][:6],'GOT',m['got'][:6]); print('   op',c['ops'][m['step']-1], c['msgs'][m['step']-1])
    shutil.rmtree(tmp)
    return cs,mm
