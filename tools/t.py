import sys; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/specs')
import time, z3, importlib
from cv.frontend import Program
from cv import solve
m=importlib.import_module(sys.argv[1]); only=sys.argv[2]
P=Program(); P.load(m.TUS)
for t in m.tasks(P):
    if only not in t.name: continue
    ex=t.generate()
    print(t.name,len(t.outs),len(ex.obls))
    for o in ex.obls:
        for f in o.pc: 
            if len(sys.argv)>3: print('    pc',f)
        if len(sys.argv)>3: print('  goal',o.goal)
        t0=time.time()
        qf=[f for f in o.pc]
        ng=z3.Not(o.goal)
        print(o.label, flush=True)
        for nm,fn in (('z3',lambda: solve._z3(qf+[ng],4000000,30000)[0]),
            ('nlsat',lambda: solve._z3(solve.abstract(qf+[ng]),10000000,20000,lambda: z3.Then('simplify','propagate-values','solve-eqs','purify-arith','qfnra-nlsat').solver())[0]),
            ('cvc5',lambda: solve._cli(['cvc5','--tlimit=25000'],qf+[ng],30)),('z3new',lambda: solve._cli(['z3-new','-T:25'],qf+[ng],30))):
            t0=time.time(); r=fn(); print('    ',nm,r,'%.1f'%(time.time()-t0),flush=True)
            if str(r)=='unsat': break
