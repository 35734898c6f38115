import os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib
from pyded.task import run_tasks
mod,name=sys.argv[1].split(':')
m=importlib.import_module('specs.'+mod)
tasks=getattr(m,name)
if len(sys.argv)>2: tasks=[t for t in tasks if t[0] in sys.argv[2:]]
for r in run_tasks(tasks,task_timeout=200):
    from collections import Counter
    c=Counter(o['status'] for o in r['obligations'])
    print('==',r['task'],dict(c),'covers',r['covers'],'wall',r['wall'],'solver',round(r['solver_time'],1),'paths',r['paths'])
    if r['error']: print('  ERROR',r['error']['kind'],r['error']['msg']); print(r['error']['tb'][-1500:] if r['error']['kind']!='x' else '')
    for o in r['obligations']:
        if o['status']!='discharged': print('  ',o['status'],o['func'],o['name'],o['flags'],o['reason'][:400],str(o['model'])[:300])
    if '-v' in os.environ.get('RT',''): print(Counter(o['name'] for o in r['obligations']))
