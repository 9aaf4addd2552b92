import sys, importlib, json
sys.path.insert(0,'/verif/vcg')
import spec
import core
for m in sys.argv[1].split(','): importlib.import_module('specs.'+m)
sel=sys.argv[2:] 
for t in spec.TASKS:
    if sel and t.name not in sel: continue
    r=spec.run_task(t, deep=False)
    print(t.name, r['status'], r['discharged'],'/',r['obligations'], '%.1fs'%r['wall_s'], r.get('reason',''), r.get('paths'))
    for f in r['failed']: print('   FAIL', f['name'], f['loc'], f.get('res'), f['info'][:300])
    if sel: 
        for l in r['loops']: print('   LOOP',l)
