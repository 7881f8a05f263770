import sys; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/specs')
import importlib
from cv.frontend import Program
from cv import loops
m=importlib.import_module(sys.argv[1]); only=sys.argv[2]
groups=getattr(m,'GROUPS',None) or [(m.TUS,m.tasks)]
for tus,tf in groups:
  P=Program(); P.load(tus)
  for t in tf(P):
    if only not in t.name: continue
    og=loops.generic
    def g(*a):
        r=og(*a); print('generic:',[l for l,_ in r]); return r
    loops.generic=g
    oi=t.loop_inv
    def li(ctx):
        r=oi(ctx); print('spec:',[l for l,_ in r], 'mods',[m_[0] for m_ in ctx.mods]); return r
    t.loop_inv=li
    ex=t.generate()
    print(t.name,ex.inv_log)
