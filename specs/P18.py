"""P18 pedometer: filtered magnitudes, step detection and step length"""
from common import *
TUS = ['src/sensor_fusion/pedometer.cpp', 'src/vector3d.cpp']
PD = N + 'Pedometer::'
THR = Q('0.05') * Q('9.80665')
AVG, FIL, UPD, GAP = 2500, 200, 700, 300
ACC = 0
VAL = lambda e: e.data.values              # P19 uses these contracts for the standalone copy
MAG = z3.Function('MAG', R, R, R, R)        # Euclidean length of a vector
def mag(C, v):
    return MAG(v.x, v.y, v.z)
def magnitude(C):
    t, m = C.this, C.ex.amul
    if C.mode == 'assume':
        return [('length', C.result == mag(C, t))]
    return [('length', C.result == C.ex.ufn('sqrt', R, R)(m(t.x, t.x) + m(t.y, t.y) + m(t.z, t.z))), ('not negative', C.result >= 0)]
S_M = Spec(N + 'Vector3d::magnitude', abstract='poly', ensures=magnitude)

class Win:
    """ghosts of a buffer of accelerations: prefix sums of the magnitudes, first sample younger than T (it exists: the last one is)"""
    def __init__(self, C, q, nm):
        self.C, self.q = C, q
        self.S = z3.Function('SMAG' + nm, I, R)
        self.first = {T: z3.Int('first%d%s' % (T, nm)) for T in (AVG, FIL)}
    def age(self, i):
        return self.C.at(self.q, self.q.n - 1).ts - self.C.at(self.q, i).ts
    def step(self, i):
        return [Implies(And(i >= 0, i < self.q.n), self.S(i + 1) == self.S(i) + mag(self.C, VAL(self.C.at(self.q, i))))]
    def axioms(self):
        i = z3.Int('i!')
        out = [self.S(z3.IntVal(0)) == 0]
        for T, f in self.first.items():
            out += [f >= 0, f < self.q.n, self.age(f) < T, ForAll([i], Implies(And(i >= 0, i < f), self.age(i) >= T), patterns=pats(self.q, i)[:1])]
        return out
    def value(self):
        C, S, n = self.C, self.S, self.q.n
        a, f = self.first[AVG], self.first[FIL]
        filt = C.ex.adiv(S(n) - S(f), z3.ToReal(n - f))
        return filt - C.ex.adiv(S(n) - S(a) + filt, z3.ToReal(n - a))
def win(C, q=None):
    if not hasattr(C, '_w'):
        C._w = {}
    q = q or C.this.mAccelMeasurements
    k = str(q.data[0])
    if k not in C._w:
        C._w[k] = Win(C, q, str(len(C._w)) if C.mode != 'assume' else '!' + str(z3.FreshConst(I)))
    return C._w[k]
def filt_setup(C, st):
    st.pc += win(C).axioms()
def filt_loops(ctx, C):
    w = win(C)
    out, i = [], z3.Int('i!')
    for lab, p, c in ctx.idx():
        ctx.axioms += w.step(c)
        for T, f in w.first.items():
            for l2, p0, acc in ctx.reals():
                out.append(('sum from %d %s' % (T, l2), acc == w.S(c) - w.S(f)))
            out.append(('up to the first younger than %d' % T, And(c >= 0, c <= f)))
    return out
def filt(C):
    w = win(C)
    if C.mode == 'assume':
        C.post.notes += (('filter', w),)
        C.post.pc += w.axioms()
    return [('mean of the last 200 ms less the level of the last 2500 ms', C.result.value == w.value()),
            ('at the time of the newest sample', C.result.ts == C.at(w.q, w.q.n - 1).ts)]
S_F = Spec(PD + 'calculateFilteredAccMagnitudes', abstract=True, helper=True, requires=lambda C: [('there is a sample', C.this.mAccelMeasurements.n > 0)], setup=filt_setup, loops=filt_loops, ensures=filt)

# ---- length
class Ext:
    """ghosts: start of the window of sample r, places of its extreme values"""
    def __init__(self, C, m, nm=''):
        self.C, self.m = C, m
        self.L, self.MX, self.MN = (z3.Function(x + nm, I, I) for x in ('STARTOF', 'MAXOF', 'MINOF'))
    def val(self, i):
        return self.C.at(self.m, i).value
    def ts(self, i):
        return self.C.at(self.m, i).ts
    def define(self, r):
        i = z3.Int('i!')
        L, MX, MN, p = self.L(r), self.MX(r), self.MN(r), [pats(self.m, i)[0]]
        return [Implies(And(r >= 1, r < self.m.n), And(L >= 0, L < r, Or(L == 0, self.ts(r) - self.ts(L) > UPD), MX >= L, MX < r, MN >= L, MN < r)),
                Implies(And(r >= 1, r < self.m.n), ForAll([i], Implies(And(i > L, i <= r), self.ts(r) - self.ts(i) <= UPD), patterns=p)),
                Implies(And(r >= 1, r < self.m.n), ForAll([i], Implies(And(i >= L, i < r), And(self.val(i) <= self.val(MX), self.val(i) >= self.val(MN))), patterns=p))]
    def length(self, r):
        s = self.C.ex.ufn('sqrt', R, R)
        return Q('0.52') * s(s(self.val(self.MX(r)) - self.val(self.MN(r))))

def len_args(ex, st, this):
    return It(this.add(('f', 'mFilteredAccMagnitudes')), z3.FreshConst(I, 'right'))
def ext(C):
    if not hasattr(C, '_e'):
        C._e = Ext(C, C.this.mFilteredAccMagnitudes, '')
    return C._e
def len_setup(C, st):
    st.pc += ext(C).define(C.a(1).idx)
def len_loops(ctx, C):
    e, r = ext(C), C.a(1).idx
    i = z3.Int('i!')
    out = [('after the start of the window %s' % lab, And(c <= r, c >= e.L(r))) for lab, p, c in ctx.ints()]
    for nm, p, v in ctx.vals(lambda v: is_num(v) and z3.is_real(v)):          # a running extreme over the window, from either end
        for lab, q, c in ctx.ints():
            for w, lo, hi in (('up', e.L(r), c), ('down', c, r)):
                seen = lambda cmp: fall(e.m, lo, hi, lambda j: cmp(v, e.val(j)))
                out += [('%s max %s %s' % (nm, w, lab), And(v <= e.val(e.MX(r)), seen(lambda a, b: a >= b))), ('%s min %s %s' % (nm, w, lab), And(v >= e.val(e.MN(r)), seen(lambda a, b: a <= b)))]
    return out
def length(C):
    if C.mode == 'assume':
        C.post.pc += Ext(C, C.this.mFilteredAccMagnitudes).define(C.a(1).idx)
    return [('length from the range of the window', C.result == ext(C).length(C.a(1).idx)), ('not negative', C.result >= 0 if is_num(C.result) else z3.BoolVal(False))]
S_L = Spec(PD + 'calculateStepLength', 2, helper=True, abstract=True, args={1: len_args}, setup=len_setup, loops=len_loops,
           requires=lambda C: [('a sample with one before it', And(C.a(1).idx >= 1, C.a(1).idx < C.this.mFilteredAccMagnitudes.n)), ('window of 0.7 s', C.a(0) == UPD)], ensures=length)


# ---- update
def pinv(t):
    return [('no step pending', Not(t.mIsStep)), ('the last step is the last candidate', t.mStepTime == t.mPossibleStepTs), ('first unseen magnitude', Or(t.mMagnitudeSize >= 1, And(t.mMagnitudeSize == 0, t.mFilteredAccMagnitudes.n == 0)))]
def same(C, p, q, n, off=0):
    """the first n elements of q, from off on, are those of p"""
    return fall(p, 0, n, lambda i: And(*[x[plus(p.lo, i)] == y[plus(q.lo, i + off)] for x, y in zip(p.data, q.data)]))
def fall(q, lo, hi, f):
    """f for the elements lo <= i < hi of q, quantified over their place in the array"""
    j = z3.Int('j!')
    return ForAll([j], z3.simplify(Implies(And(j >= q.lo + lo, j < q.lo + hi), f(j - q.lo))))
def dropped(C, p1, p0, T, ts):
    """p1 is p0 without the elements from the front that are more than T older than the last"""
    k = p0.n - p1.n
    last = ts(C.at(p0, p0.n - 1))
    return [And(p1.n >= 1, p1.n <= p0.n, same(C, p1, p0, p1.n, k)), last - ts(C.at(p1, 0)) <= T, fall(p0, 0, k, lambda i: last - ts(C.at(p0, i)) > T)]
def upd_loops(ctx, C):
    out, i = [], z3.Int('i!')
    for lab, pre, cur in ctx.vals(lambda v: isinstance(v, Rec) and 'mAccelMeasurements' in v.f):
        p0, p1 = pre.mAccelMeasurements, cur.mAccelMeasurements
        k = p0.n - p1.n
        last = C.at(p0, p0.n - 1).ts
        out += [('from the front', And(k >= 0, p1.n >= 1, p1.lo == p0.lo + k)), ('old ones', fall(p0, 0, k, lambda i: last - C.at(p0, i).ts > 5000))]
    return out
def update(C):
    t, t1, m = C.this, C.this1, C.a(0)
    a0, a1, f0, f1 = t.mAccelMeasurements, t1.mAccelMeasurements, t.mFilteredAccMagnitudes, t1.mFilteredAccMagnitudes
    acc = m.data.type == ACC
    ws = [w for tag, *x in C.post.notes if tag == 'filter' for w in x]
    out = [('the magnitudes held so far have been seen', t1.mMagnitudeSize == If(f0.n > 1, f0.n, 1)),
           ('other sensors change nothing', Implies(Not(acc), And(a1.n == a0.n, same(C, a1, a0, a0.n), f1.n == f0.n, same(C, f1, f0, f0.n)))),
           ('steps untouched', And(t1.mPossibleStepTs == t.mPossibleStepTs, t1.mStepTime == t.mStepTime, t1.mTimes.n == t.mTimes.n))]
    if not ws:
        return out + [('accelerations are filtered', Not(acc))] + [('invariant: ' + n, g) for n, g in pinv(t1)]
    w = ws[0]
    x = C.at(w.q, a0.n)
    out += [('accelerations only', acc), ('filtered with the new sample last', And(w.q.n == a0.n + 1, same(C, w.q, a0, a0.n), x.ts == m.ts, x.data.values.x == m.data.values.x, x.data.values.y == m.data.values.y, x.data.values.z == m.data.values.z)),
            ('one magnitude more', And(f1.n == f0.n + If(m.ts != 0, 1, 0), same(C, f1, f0, f0.n))),
            ('its value', Implies(m.ts != 0, And(C.at(f1, f0.n).ts == m.ts, C.at(f1, f0.n).value == w.value())))]
    return out + [('samples of the last 5 s stay %d' % i, g) for i, g in enumerate(dropped(C, a1, w.q, 5000, lambda e: e.ts))] + [('invariant: ' + n, g) for n, g in pinv(t1)]
S_U = Spec(PD + 'update', abstract=True, requires=lambda C: pinv(C.this), loops=upd_loops, ensures=update)

# ---- steps
class Steps:
    """ghosts of a scan of the magnitudes: time of the last step before i, number of steps before i"""
    def __init__(self, C, m, start, last):
        self.C, self.m, self.start = C, m, start
        self.e = Ext(C, m, '')
        self.LAST, self.CNT = z3.Function('LASTSTEP', I, I), z3.Function('STEPS', I, I)
        self.ax0 = [self.LAST(start) == last, self.CNT(start) == 0]
    def step(self, i):
        v, ts = self.e.val, self.e.ts
        return And(v(i - 1) < THR, v(i) > THR, ts(i) - self.LAST(i) > GAP)
    def define(self, i):
        return [Implies(i >= self.start, And(self.LAST(i + 1) == If(self.step(i), self.e.ts(i), self.LAST(i)), self.CNT(i + 1) == self.CNT(i) + If(self.step(i), 1, 0)))]
    def entry(self, steps, i):
        s = self.C.at(steps, self.CNT(i))
        return And(self.CNT(i) >= 0, self.CNT(i) < steps.n, s.ts == self.e.ts(i), s.len == self.e.length(i))
    def all(self, steps, n):
        i = z3.Int('i!')
        C, j = self.C, z3.Int('j!')
        return [('count', steps.n == self.CNT(n)), ('every crossing', ForAll([i], Implies(And(i >= self.start, i < n, self.step(i)), self.entry(steps, i)), patterns=[self.CNT(i)])),
                ('apart', ForAll([j], Implies(And(j >= 0, j + 1 < steps.n), C.at(steps, j + 1).ts - C.at(steps, j).ts > GAP)))]
def scan(C):
    if not hasattr(C, '_s'):
        C._s = Steps(C, C.this.mFilteredAccMagnitudes, C.this.mMagnitudeSize, C.this.mPossibleStepTs)
    return C._s
def steps_setup(C, st):
    st.pc += scan(C).ax0
def steps_loops(ctx, C):
    g, out, j = scan(C), [], z3.Int('j!')
    t0 = C.this
    for lab, pre, cur in ctx.vals(lambda v: isinstance(v, Rec) and 'mFilteredAccMagnitudes' in v.f):
        p0, p1 = pre.mFilteredAccMagnitudes, cur.mFilteredAccMagnitudes
        k = p0.n - p1.n
        last = C.at(p0, p0.n - 1).ts
        out += [('from the front', And(k >= 0, p1.n >= 1, p1.lo == p0.lo + k)), ('old ones', fall(p0, 0, k, lambda i: last - C.at(p0, i).ts > 2 * UPD))]
    for lab, p, c in ctx.idx():
        for l2, p2, st in ctx.vals(lambda v: isinstance(v, Seq) and v.t.args[0].k == 'rec' and v.t.args[0].name.endswith('::Step')):
            ctx.axioms += g.define(c)
            out += [('%s %s' % (x, lab), f) for x, f in g.all(st, c)]
            for l3, p3, cur in ctx.vals(lambda v: isinstance(v, Rec) and 'mPossibleStepTs' in v.f):
                out += [('last step %s' % lab, And(cur.mPossibleStepTs == g.LAST(c), cur.mStepTime == g.LAST(c), Not(cur.mIsStep))),
                        ('last one', And(Implies(st.n > 0, C.at(st, st.n - 1).ts == cur.mPossibleStepTs), Implies(st.n == 0, cur.mPossibleStepTs == t0.mPossibleStepTs))),
                        ('first one', Implies(st.n > 0, C.at(st, 0).ts - t0.mPossibleStepTs > GAP))]
            out += [('stops at the end %s' % lab, Or(c <= C.this.mFilteredAccMagnitudes.n, c == C.this.mMagnitudeSize)), ('lengths', ForAll([j], Implies(And(j >= 0, j < st.n), C.at(st, j).len >= 0)))]
    return out
def steps(C):
    t, t1, r, g = C.this, C.this1, C.result, scan(C)
    m, m1 = t.mFilteredAccMagnitudes, t1.mFilteredAccMagnitudes
    few = m.n <= 3
    i = z3.Int('i!')
    n = If(m.n > t.mMagnitudeSize, m.n, t.mMagnitudeSize)
    ok = Not(few)
    return [('too few magnitudes: no steps', Implies(few, And(r.n == 0, m1.n == m.n)))] + [('exactly the unseen crossings of the threshold: ' + l, Implies(ok, f)) for l, f in g.all(r, n)] + [
            ('the first is more than 300 ms after the last one before', Implies(r.n > 0, C.at(r, 0).ts - t.mPossibleStepTs > GAP)),
            ('the last one is remembered', t1.mPossibleStepTs == If(r.n > 0, C.at(r, r.n - 1).ts, t.mPossibleStepTs)),
            ('lengths are not negative', ForAll([i], Implies(And(i >= 0, i < r.n), C.at(r, i).len >= 0))),
            ('step times bounded', Implies(ok, t1.mTimes.n <= 50))] + [('magnitudes of the last 1.4 s stay %d' % k, Implies(ok, f)) for k, f in enumerate(dropped(C, m1, m, 2 * UPD, lambda e: e.ts))] + [
            ('invariant: ' + l, f) for l, f in pinv(t1)]
S_S = Spec(PD + 'calculateSteps', abstract=True, requires=lambda C: pinv(C.this), setup=steps_setup, loops=steps_loops, ensures=steps)
def tasks(P):
    return tasks_of(P, [S_M]) + tasks_of(P, [S_F], [S_M]) + tasks_of(P, [S_L]) + tasks_of(P, [S_U], [S_F]) + tasks_of(P, [S_S], [S_L])

REPLAY = dict(src='p18.cpp', repo=['src/sensor_fusion/pedometer.cpp', 'src/level_collector.cpp', 'src/level.cpp', 'src/level_geometry.cpp', 'src/radiomap.cpp', 'src/point.cpp', 'src/vector3d.cpp'], rounds=40000, budget=12,
              rule='random walks (frequency, amplitude, noise, gaps, other sensors between) against a pedometer on the plain history')
ASSUMPTIONS = ['accelerations are finite', 'steps are asked for after every measurement, as the navigation does', 'sqrt, sums and quotients are uninterpreted functions of their operands in the proofs of the filter and the scan']
