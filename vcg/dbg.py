import sys, importlib
sys.path.insert(0,'/verif/vcg')
import spec
from core import *
importlib.import_module('specs.'+sys.argv[1])
t=[x for x in spec.TASKS if x.name==sys.argv[2]][0]
c=spec.Ctx(t); t.spec(c)
for w,cs,_ in c.ex.loop_info: print('LOOP',w,cs)
for o in c.ex.obls:
    if o.status=='unsat': continue
    r=c.ex.prove(o.pc,o.goal)
    if r!='unsat':
        print('FAIL',o.name,o.loc); print(o.goal if len(str(o.goal))<3000 else str(o.goal)[:3000])
        if len(sys.argv)>3:
            for p in o.pc: print('   pc', p)
