"""rp.py <PID> [rounds]: build and run only the replay harness of a property"""
import sys, os, tempfile, shutil, importlib, time
sys.path[:0] = ['/verif', '/verif/specs']
from cv.check import Replay
m = importlib.import_module(sys.argv[1])
d = tempfile.mkdtemp(prefix='rp_', dir='/tmp')
try:
    r = Replay(m.REPLAY, d, 1, 'quick'); t = time.time(); r.build()
    if not r.built: print(r.log[:4000]); sys.exit(2)
    print('built %.1f' % (time.time() - t)); t = time.time()
    txt = r.run(int(sys.argv[2]) if len(sys.argv) > 2 else m.REPLAY['rounds'], m.REPLAY['budget'])
    print('%.1fs evals %d distinct %d' % (time.time() - t, r.evals, r.distinct)); print(txt[-1500:])
    for f in r.fails[:4]: print('FAIL', f['key'], f['text'][:1500], f['stderr'][-800:])
finally:
    shutil.rmtree(d)
