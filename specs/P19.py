"""P19 the standalone pedometer: as P18, but fed with batches of accelerations"""
from common import *
import P18
from P18 import win, fall, same, dropped, pinv, S_M, S_F, S_L, S_S, PD
P18.VAL = lambda e: e.values
D = 'standalone_algorithms/pedometer/src/'
TUS = [D + 'pedometer.cpp', D + 'vector3d.cpp']
COUNT = z3.Function('TIMED', I, I)
def count(C, c):
    return [COUNT(c + 1) == COUNT(c) + If(C.at(C.a(0), c).ts != 0, 1, 0)]
def setup(C, st):
    st.pc += [COUNT(z3.IntVal(0)) == 0]
def sample(C, e, m):
    return And(e.ts == m.ts, *[e.values.f[k] == m.values.f[k] for k in 'xyz'])
def frame(C, t, t0):
    return And(t.mPossibleStepTs == t0.mPossibleStepTs, t.mStepTime == t0.mStepTime, t.mIsStep == t0.mIsStep, t.mTimes.n == t0.mTimes.n)
def upd_loops(ctx, C):
    out, i = [], z3.Int('i!')
    t0 = C.this
    for lab, pre, cur in ctx.vals(lambda v: isinstance(v, Rec) and 'mAccelMeasurements' in v.f):
        p0, p1, f1 = pre.mAccelMeasurements, cur.mAccelMeasurements, cur.mFilteredAccMagnitudes
        k = p0.n - p1.n
        last = C.at(p0, p0.n - 1).ts
        out += [('from the front', And(k >= 0, p1.n >= 1, p1.lo == p0.lo + k)), ('old ones', fall(p0, 0, k, lambda i: last - C.at(p0, i).ts > 5000)),
                ('steps', frame(C, cur, t0)), ('seen', cur.mMagnitudeSize == If(t0.mFilteredAccMagnitudes.n > 1, t0.mFilteredAccMagnitudes.n, 1)),
                ('magnitudes stay', same(C, f1, t0.mFilteredAccMagnitudes, t0.mFilteredAccMagnitudes.n))]
        for c in loop_ints(ctx):
            ctx.axioms += count(C, c)
            out += [('counted %s' % c, And(c >= 0, f1.n == t0.mFilteredAccMagnitudes.n + COUNT(c), COUNT(c) >= 0)), ('the last one %s' % c, Implies(c > 0, And(p1.n >= 1, sample(C, C.at(p1, p1.n - 1), C.at(C.a(0), c - 1))))),
                    ('untouched before %s' % c, Implies(c == 0, And(p1.n == t0.mAccelMeasurements.n, same(C, p1, t0.mAccelMeasurements, p1.n))))]
    return out
def step(ctx, C, h, e):
    t0, t1 = C.ex.read(h, C.thisref), C.ex.read(e, C.thisref)
    ws = [w for x in e.notes[len(h.notes):] if x[0] == 'filter' for w in x[1:]]
    a0, a1, f0, f1 = t0.mAccelMeasurements, t1.mAccelMeasurements, t0.mFilteredAccMagnitudes, t1.mFilteredAccMagnitudes
    if not ws:
        return [('without filtering nothing is added', And(f1.n == f0.n, same(C, f1, f0, f0.n), a1.n <= a0.n))]
    w = ws[0]
    x = C.at(w.q, a0.n)
    ts = C.at(a1, a1.n - 1).ts
    return [('filtered once', z3.BoolVal(len(ws) == 1)), ('with the new sample last', And(w.q.n == a0.n + 1, same(C, w.q, a0, a0.n), Or(*[sample(C, x, C.at(C.a(0), c)) for c in loop_ints(ctx)]))),
            ('one magnitude more', And(f1.n == f0.n + If(x.ts != 0, 1, 0), same(C, f1, f0, f0.n))),
            ('its value', Implies(x.ts != 0, And(C.at(f1, f0.n).ts == x.ts, C.at(f1, f0.n).value == w.value())))] + [('samples of the last 5 s stay %d' % i, g) for i, g in enumerate(dropped(C, a1, w.q, 5000, lambda e: e.ts))]
def update(C):
    t, t1, b = C.this, C.this1, C.a(0)
    a0, a1, f0, f1 = t.mAccelMeasurements, t1.mAccelMeasurements, t.mFilteredAccMagnitudes, t1.mFilteredAccMagnitudes
    return [('the magnitudes held so far have been seen', t1.mMagnitudeSize == If(f0.n > 1, f0.n, 1)), ('steps untouched', frame(C, t1, t)),
            ('one magnitude for every sample with a time', And(f1.n == f0.n + COUNT(b.n), same(C, f1, f0, f0.n))),
            ('the last sample is held', Implies(b.n > 0, And(a1.n >= 1, sample(C, C.at(a1, a1.n - 1), C.at(b, b.n - 1))))), ('an empty batch adds nothing', Implies(b.n == 0, And(a1.n == a0.n, same(C, a1, a0, a0.n))))] + [('invariant: ' + n, g) for n, g in pinv(t1)]
S_U = Spec(PD + 'update', abstract=True, requires=lambda C: pinv(C.this), setup=setup, loops=upd_loops, step=step, ensures=update)
def tasks(P):
    return tasks_of(P, [S_M]) + tasks_of(P, [S_F], [S_M]) + tasks_of(P, [S_L]) + tasks_of(P, [S_U], [S_F]) + tasks_of(P, [S_S], [S_L])

REPLAY = dict(src='p19.cpp', repo=TUS, core=False, inc=['standalone_algorithms/pedometer/include'], rounds=40000, budget=12,
              rule='random walks (frequency, amplitude, noise, gaps), in batches, against a pedometer on the plain history')
ASSUMPTIONS = ['accelerations are finite', 'sqrt, sums and quotients are uninterpreted functions of their operands in the proofs of the filter and the scan']
