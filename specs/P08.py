"""P08 level history and barometer hysteresis"""
from common import *
TUS = ['src/level_estimator/level_history.cpp', 'src/level_estimator/barometer.cpp', 'src/level_estimator/level_estimator.cpp']

# ---- history ---------------------------------------------------------------
def cnt(C, m, k):
    return If(ksel(m.dom, [k]), ksel(m.val[0], [k]), 0)

def pk(m, k):
    return [m.val[0][k]] if not (z3.is_K(m.val[0]) or z3.is_store(m.val[0]) or z3.is_app_of(m.val[0], z3.Z3_OP_ITE)) else []

def hist_inv(C, h):
    m = h.mFloorCnt
    k = z3.Int('k!')
    return [('counts stay between 0 and 4', ForAll([k], Implies(ksel(m.dom, [k]), And(m.val[0][k] >= 0, m.val[0][k] <= 4)), patterns=pk(m, k)))]


def history(C):
    h, h1, d = C.this, C.this1, C.a(0).value
    none = d == C.ex.strcode('')
    k = z3.Int('k!')
    m, m1 = h.mFloorCnt, h1.mFloorCnt
    over = cnt(C, m, d) + 1 > 4
    cur = If(h.mIsInitialized, h.mCurrentLevelId.value, d)
    return hist_inv(C, h1) + [
        ('nothing detected: everything as before', Implies(none, And(C.result.value == h.mCurrentLevelId.value, h1.mCurrentLevelId.value == h.mCurrentLevelId.value, h1.mIsInitialized == h.mIsInitialized,
            ForAll([k], cnt(C, m1, k) == cnt(C, m, k))))),
        ('the answer is the remembered level', C.result.value == h1.mCurrentLevelId.value),
        ('the first detection sets the level', Implies(Not(none), h1.mIsInitialized)),
        ('the level changes exactly with the fifth detection since the last reset', Implies(Not(none), h1.mCurrentLevelId.value == If(over, d, cur))),
        ('detection counted', Implies(And(Not(none), Not(over)), ForAll([k], cnt(C, m1, k) == cnt(C, m, k) + If(k == d, 1, 0)))),
        ('on a change all counts restart, the new level at 4', Implies(And(Not(none), over), ForAll([k], cnt(C, m1, k) == If(k == d, 4, 0))))]

# ---- barometer -------------------------------------------------------------
CHUNK = 100
BARO = 3
def baro_inv(C, b):
    return [('buffers hold at most 101 samples', And(b.mNewMeasurements.n <= CHUNK + 1, b.mStoredMeasurements.n <= CHUNK + 1))]

def mean_loops(ctx, C):
    q = C.a(0)
    return fold_sum(ctx, [('m', q.data[0], q.lo)])

def mean_of(C, q):
    return If(q.n == 0, RV(0), C.ex.adiv(summ(q.data[0], q.lo, q.n), z3.ToReal(q.n)))

def buffers(C):
    b, b1, m = C.this, C.this1, C.a(0)
    s0, s1, n0, n1 = b.mStoredMeasurements, b1.mStoredMeasurements, b.mNewMeasurements, b1.mNewMeasurements
    i = z3.Int('i!')
    isb = m.data.type == BARO
    same = lambda p, q: And(p.n == q.n, ForAll([i], Implies(And(i >= 0, i < q.n), C.at(p, i) == C.at(q, i))))
    ds, dn = If(s0.n > CHUNK, 1, 0), If(n0.n > CHUNK, 1, 0)
    keep = s0.n - ds
    return [('other sensors change nothing', Implies(Not(isb), And(same(s1, s0), same(n1, n0)))),
            ('a pressure sample goes to the end of the new ones', Implies(isb, And(n1.n == n0.n - dn + 1, C.at(n1, n1.n - 1) == m.data.values.x))),
            ('the oldest new one leaves only when more than 100 are held', Implies(isb, ForAll([i], Implies(And(i >= 0, i < n0.n - dn), C.at(n1, i) == C.at(n0, i + dn))))),
            ('and moves to the end of the stored ones', Implies(isb, And(s1.n == keep + dn, Implies(dn == 1, C.at(s1, keep) == C.at(n0, 0))))),
            ('the oldest stored one leaves only when more than 100 are held', Implies(isb, ForAll([i], Implies(And(i >= 0, i < keep), C.at(s1, i) == C.at(s0, i + ds))))),
            ('level kept', b1.mLastKnownLevel.value == b.mLastKnownLevel.value)] + baro_inv(C, b1)

METERS = None
EPS = None
def level_rule(C, lid, b0, nw, st, res):
    """which level the barometer lets through, nw/st: the sample buffers"""
    E = Q(2.220446049250313e-16)
    mn, ms = mean_of(C, nw), mean_of(C, st)
    K = -(Q(8.31) * Q(288.0)) / (Q(9.8) * Q(0.0289))
    ln = C.ex.ufn('log', R, R)
    ratio = C.ex.adiv(Q(100) * mn, Q(100) * ms)
    dh = z3.simplify(K) * ln(ratio)
    usable = And(nw.n > CHUNK, st.n >= CHUNK)
    last = b0.mLastKnownLevel.value
    moved = And(mn > E, ms > E, absr(dh) > 2)
    return res == If(usable, If(And(last != lid, moved), lid, last), lid)

def upd_level(C):
    b = C.this
    return [('level let through exactly when too little is known or the height changed by more than 2 m', level_rule(C, C.a(0).value, b, b.mNewMeasurements, b.mStoredMeasurements, C.this1.mLastKnownLevel.value)),
            ('buffers kept', And(C.this1.mNewMeasurements.n == b.mNewMeasurements.n, C.this1.mStoredMeasurements.n == b.mStoredMeasurements.n))]

def check(C):
    b, b1 = C.this, C.this1
    lid, r = C.a(0).value, C.result.value
    n1, s1 = b1.mNewMeasurements, b1.mStoredMeasurements
    return baro_inv(C, b1) + [('the first call only starts it', Implies(Not(b.mIsInitialized), And(r == lid, b1.mIsInitialized, n1.n == b.mNewMeasurements.n, s1.n == b.mStoredMeasurements.n))),
            ('afterwards the level follows the rule on the updated samples', Implies(b.mIsInitialized, And(b1.mIsInitialized, level_rule(C, lid, b, n1, s1, r), r == b1.mLastKnownLevel.value)))] + \
           [('samples: ' + l, Implies(b.mIsInitialized, f)) for l, f in buffers_of(C)]

def buffers_of(C):
    d = View(C, C.this, C.this1, [C.a(1)])
    return [x for x in buffers(d) if x[0] != 'level kept']

class View:
    """a member object seen as the object of its own contract"""
    def __init__(self, C, this, this1, args, result=None):
        self.ex, self.at, self.this, self.this1, self.args, self.result = C.ex, C.at, this, this1, args, result
    def a(self, i):
        return self.args[i]

class G: pass
def detected(C):
    G.det = C.result
    return []

def calc(C):
    h, h1, b, b1 = C.this.mHistory, C.this1.mHistory, C.this.mBarometer, C.this1.mBarometer
    class LID: pass
    LID.value = h1.mCurrentLevelId.value
    out = history(View(C, h, h1, [G.det], h1.mCurrentLevelId))
    out = [('history of the detected level: ' + l, f) for l, f in out]
    out += [('without the barometer: the level of the history', Implies(Not(C.this.mUseBarometer), C.result.value == h1.mCurrentLevelId.value))]
    out += [('with the barometer: ' + l, Implies(C.this.mUseBarometer, f)) for l, f in check(View(C, b, b1, [LID, C.a(1)], C.result))]
    return out

def inv(C):
    return hist_inv(C, C.this.mHistory) + baro_inv(C, C.this.mBarometer)

S_H = [Spec(N + 'LevelHistory::detectLevelUsingHistory', requires=lambda C: hist_inv(C, C.this), ensures=history, modifies=('this',))]
S_DET = Spec(N + 'LevelEstimator::detectCurrentLevel', ensures=detected, trusted=True)
S_CALC = Spec(N + 'LevelEstimator::calculateLevel', requires=inv, ensures=calc)
S_MEAN = Spec(N + 'calcMean', helper=True, abstract=True, loops=mean_loops, ensures=lambda C: [('the arithmetic mean', C.result == mean_of(C, C.a(0)))])
S_UB = Spec(N + 'Barometer::updateBuffers', helper=True, requires=lambda C: baro_inv(C, C.this), ensures=buffers, modifies=('this',))
S_UL = Spec(N + 'Barometer::updateLevel', helper=True, abstract=True, setup=div_signs, ensures=upd_level, loops=lambda ctx, C: [])
S_CK = Spec(N + 'Barometer::checkLevelChange', abstract=True, setup=div_signs, requires=lambda C: baro_inv(C, C.this), ensures=check, modifies=('this',))
def fresh_hist(C):
    h = C.result
    k = z3.Int('k!')
    return [('starts without a level', And(Not(h.mIsInitialized), h.mCurrentLevelId.value == C.ex.strcode(''), ForAll([k], cnt(C, h.mFloorCnt, k) == 0)))]
def fresh_baro(C):
    b = C.result
    return [('starts without samples', And(Not(b.mIsInitialized), b.mNewMeasurements.n == 0, b.mStoredMeasurements.n == 0, b.mLastKnownLevel.value == C.ex.strcode('')))]
S_NEW = [Spec(N + 'LevelHistory::LevelHistory', 0, ensures=fresh_hist), Spec(N + 'Barometer::Barometer', 0, ensures=fresh_baro),
         Spec(N + 'LevelEstimator::LevelEstimator', 1, ensures=lambda C: [('barometer as set', C.result.mUseBarometer == C.a(0).commonSettings.useBarometer)] + fresh_hist(View(C, None, None, [], C.result.mHistory)) + fresh_baro(View(C, None, None, [], C.result.mBarometer)))]
def tasks(P):
    return tasks_of(P, S_NEW + S_H) + tasks_of(P, [S_MEAN, S_UB]) + tasks_of(P, [S_UL, S_CK], [S_MEAN]) + tasks_of(P, [S_CALC], S_H + [S_CK, S_DET])

REPLAY = dict(src='p08.cpp', repo=['src/level_estimator/level_history.cpp', 'src/level_estimator/barometer.cpp', 'src/level_estimator/level_estimator.cpp'], rounds=3000, budget=15,
              rule='random histories of up to 700 detections and pressure samples against a model of the counts and of the two sample buffers')
ASSUMPTIONS = ['a detector (override of detectCurrentLevel) cannot change the private history and barometer members']
