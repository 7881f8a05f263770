import sys; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/specs')
import importlib, time
from cv.frontend import Program
m=importlib.import_module(sys.argv[1]); only=sys.argv[2] if len(sys.argv)>2 else ''
groups=getattr(m,'GROUPS',None) or [(m.TUS,m.tasks)]
for tus,tf in groups:
  P=Program(); P.load(tus)
  for t in tf(P):
    if only not in t.name: continue
    r=t.run(); print(t.name, r['status'], '%.1f'%r['wall'], len(r['obligations']), 'feas',r.get('feasible_paths'), r['detail'][-2500:], '\n      FAILED '.join(['']+[f['label']+' '+f['goal'][:int(sys.argv[3]) if len(sys.argv)>3 else 0] for f in r['failed']]), flush=True)
    if len(sys.argv)>4: print(r.get('inv'), r.get('inlined'), r.get('contracts'), r.get('assumed'))
