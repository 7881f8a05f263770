import sys; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/specs')
import importlib, time, z3
from cv.frontend import Program
from cv import solve
m=importlib.import_module(sys.argv[1]); only=sys.argv[2]; lab=sys.argv[3]
groups=getattr(m,'GROUPS',None) or [(m.TUS,m.tasks)]
for tus,tf in groups:
  P=Program(); P.load(tus)
  for t in tf(P):
    if only not in t.name: continue
    ex=t.generate()
    for o in ex.obls:
        if lab in o.label:
            for f in o.pc: print('PC',z3.simplify(f) if not z3.is_quantifier(f) else f)
            print('GOAL',o.goal)
            s=z3.Solver(); s.add(*o.pc); s.add(z3.Not(o.goal)); open('/tmp/o.smt2','w').write(s.to_smt2())
            s.set('timeout',5000); print(s.check(), s.reason_unknown())
            sys.exit()
