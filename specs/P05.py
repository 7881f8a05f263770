"""P05 measurement filtering and pre-processing"""
from common import *
import P03
TUS = ['src/measurements/measurement_preprocessor.cpp', 'src/level_collector.cpp', 'src/level.cpp']
M = N + 'MeasurementsPreprocessor::'
WIFI, BEACON, BLUETOOTH, EDDYSTONE, RTT = range(5)
LOCATOR = 5
RSSI_MODE = 0

def lc(C, st=None):
    return C.ex.read(st or C.pre, C.this.mLevelIndex.to)

def location(C):
    """the location's class invariant (established by its constructor and addGeoLevel), distinct level ids, and the ghost
    'first level that knows the transmitter' used to state the rule"""
    l = lc(C)
    ls = l.mLevels
    i, j, k = z3.Ints('i! j! k!')
    ix = l.mLevelsIndices
    return P03.lc_inv(C, l) + [
        ('level index is not null', Not(C.this.mLevelIndex.null)),
        ('level ids are distinct', ForAll([i], Implies(And(i >= 0, i < ls.n), ksel(ix.val[0], [C.at(ls, i).mId.value]) == i), patterns=pats(ls, i))),
        ('transmitters filed under their id', ForAll([i, k], Implies(And(i >= 0, i < ls.n, ksel(C.at(ls, i).mTransmitters.dom, [k])), C.at(ls, i).mTransmitters.val[0][k] == k),
            patterns=[ksel(C.at(ls, i).mTransmitters.val[0], [k])]))]

def first(C, t):
    """ghost: index of the first level that knows t (number of levels if none); returns (index, defining facts)"""
    ls = lc(C).mLevels
    F = z3.FreshConst(I, 'first')
    j = z3.Int('j!')
    has = lambda i: ksel(C.at(ls, i).mTransmitters.dom, [t])
    return F, [F >= 0, F <= ls.n, Implies(F < ls.n, has(F)), ForAll([j], Implies(And(j >= 0, j < F), Not(has(j))), patterns=[C.at(ls, j).mTransmitters.dom])], has

def ghost_first(arg):
    def f(C, st):
        C.F, facts, _ = first(C, arg(C))
        st.pc += facts
    return f

def type_at(C, i, t):
    m = C.at(lc(C).mLevels, i).mTransmitters
    r = C.ex.step(None, m, ('kv', (t,)))
    return r.type if hasattr(r, 'type') else r.second.type

def supported(C, t):
    ls = lc(C).mLevels
    ty = type_at(C, C.F, t)
    return And(C.F < ls.n, If(C.this.mIsTracking, ty == LOCATOR, ty != LOCATOR))

def type_ok(C, ty):
    th = C.this
    return Or(And(Or(ty == WIFI, ty == RTT), th.mUseWifi), And(Or(ty == BEACON, ty == BLUETOOTH, ty == EDDYSTONE), th.mUseBle))

def accept(C, e):
    th = C.this
    rssi = th.mMeasurementType == RSSI_MODE
    return And(Or(th.mUseUnknownTxs, supported(C, e.id.value)), Implies(rssi, And(e.rssi < 0, e.rssi > th.mCutOffRssi)),
               Implies(Not(rssi), e.type == RTT), type_ok(C, e.type))

def eqrec(a, b):
    return And(*[x == y for (_, x), (_, y) in zip(vleaves(a), vleaves(b))])

def valid(C):
    r, e = C.result, C.a(0)
    return [('accepted exactly by the rule', r.has == accept(C, e)), ('returned unchanged', Implies(r.has, eqrec(r.val, e)))]

def radio(C):
    th, t1, e = C.this, C.this1, C.a(0)
    b0, b1 = th.mRadiosBuffer.mMeasurements, t1.mRadiosBuffer.mMeasurements
    ok = accept(C, e)
    i = z3.Int('i!')
    stored = C.at(b1, b0.n)
    return [('refused measurement leaves the buffer alone', Implies(Not(ok), And(b1.n == b0.n, *[ForAll([i], Implies(And(i >= 0, i < b0.n), x[plus(b1.lo, i)] == y[plus(b0.lo, i)]), patterns=[x[plus(b1.lo, i)]]) for x, y in zip(b1.data, b0.data)]))),
            ('refused measurement is no signal', Implies(Not(ok), t1.mLastSignalTs == th.mLastSignalTs)),
            ('accepted measurement is the last signal', Implies(ok, t1.mLastSignalTs == th.mCurrentTs)),
            ('accepted measurement is stored last', Implies(ok, b1.n == b0.n + 1)),
            ('stored with its time', Implies(ok, stored.ts == th.mCurrentTs)),
            ('stored unchanged but for the rssi bias', Implies(ok, And(stored.data.rssi == e.rssi + th.mRadiosBuffer.mRssiBias, stored.data.id.value == e.id.value, stored.data.type == e.type, stored.data.distance == e.distance, stored.data.stddev == e.stddev, stored.data.power == e.power))),
            ('earlier ones kept', Implies(ok, And(*[ForAll([i], Implies(And(i >= 0, i < b0.n), x[plus(b1.lo, i)] == y[plus(b0.lo, i)]), patterns=[x[plus(b1.lo, i)]]) for x, y in zip(b1.data, b0.data)])))]

def sensor(C):
    t, t1 = C.this, C.this1
    return [('latest sensor value with its time', And(eqrec(t1.mSensor.data, C.a(0)), t1.mSensor.ts == t.mCurrentTs)),
            ('nothing else changes', And(eqrec(t1.mNmea, t.mNmea), t1.mLastSignalTs == t.mLastSignalTs, t1.mRadiosBuffer.mMeasurements.n == t.mRadiosBuffer.mMeasurements.n))]

def nmea(C):
    t, t1 = C.this, C.this1
    return [('latest nmea sentence with its time', And(eqrec(t1.mNmea.data, C.a(0)), t1.mNmea.ts == t.mCurrentTs)),
            ('nothing else changes', And(eqrec(t1.mSensor, t.mSensor), t1.mLastSignalTs == t.mLastSignalTs, t1.mRadiosBuffer.mMeasurements.n == t.mRadiosBuffer.mMeasurements.n))]

def update(C):
    m, t, t1 = C.a(0), C.this, C.this1
    v = m.data
    ok = accept(C, v.alts[0])
    return [('current time is the time of the message', t1.mCurrentTs == m.ts),
            ('a radio message becomes the last signal exactly if accepted', Implies(v.which == 0, t1.mLastSignalTs == If(ok, m.ts, t.mLastSignalTs))),
            ('a radio message is buffered exactly if accepted', Implies(v.which == 0, t1.mRadiosBuffer.mMeasurements.n == t.mRadiosBuffer.mMeasurements.n + If(ok, 1, 0))),
            ('a sensor message replaces the sensor value', If(v.which == 1, And(eqrec(t1.mSensor.data, v.alts[1]), t1.mSensor.ts == m.ts), eqrec(t1.mSensor, t.mSensor))),
            ('an nmea message replaces the sentence', If(v.which == 2, And(eqrec(t1.mNmea.data, v.alts[2]), t1.mNmea.ts == m.ts), eqrec(t1.mNmea, t.mNmea))),
            ('other messages are no signal', Implies(v.which != 0, t1.mLastSignalTs == t.mLastSignalTs))]

def ctor(C):
    r, s = C.result, C.a(1).commonSettings
    su = s.signalsToUse
    b = r.mRadiosBuffer
    avg, sh = ms(s.sigAveragingTime), ms(s.sigWindowShift)
    shift = If(Or(sh == 0, sh > avg), avg, sh)
    return [('wifi used for wifi and both', r.mUseWifi == Or(su == 1, su == 2)), ('ble used for ble and both', r.mUseBle == Or(su == 0, su == 2)),
            ('settings taken over', And(r.mCutOffRssi == s.sigCutOffRss, r.mUseUnknownTxs == s.useUnknownTransmitters, r.mIsTracking == s.useTracking, r.mMeasurementType == s.measurementType,
                                        r.mWiFiRttOffset == s.wiFiRttOffset, r.mUseClosestAps == s.useClosestAps)),
            ('window shift', b.mSignalWindowShiftMs == shift), ('keep period', b.mRadioKeepPeriodMs == avg - shift),
            ('stop time', And(b.mStopDetectionTimeMs == ms(s.stopDetectionTime), b.mUseStops == s.useStops)),
            ('no bias', b.mRssiBias == 0), ('starts empty', And(b.mMeasurements.n == 0, r.mCurrentTs == 0, r.mLastSignalTs == 0, b.mCurrentTs == 0, b.mLastExtractionTs == 0, b.mLastStepTs == 0)),
            ('no sensor seen', And(r.mSensor.ts == 0, r.mNmea.ts == 0, r.mNmea.data.satellitesNumber == 0))]

def ms(x):
    x = 1000 * x
    return If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))

def enums(C):
    """enumerators hold one of their values"""
    s = C.a(1).commonSettings
    return [('signalsToUse is a value of its type', And(s.signalsToUse >= 0, s.signalsToUse <= 2))]

a0id = lambda C: C.a(0).id.value
CS = [P03.S_LC[2]]
S = [Spec(N + 'MeasurementsPreprocessor::MeasurementsPreprocessor', 2, requires=enums, ensures=ctor),
     Spec(M + 'isTransmitterSupported', requires=location, setup=ghost_first(lambda C: C.a(0).value), helper=True,
          ensures=lambda C: [('locators exactly in tracking mode', C.result == supported(C, C.a(0).value))]),
     Spec(M + 'isSignalTypeSupported', helper=True, requires=lambda C: [('type', And(C.a(0) >= 0, C.a(0) <= 4))], ensures=lambda C: [('by technology', C.result == type_ok(C, C.a(0)))]),
     Spec(M + 'isRssiValid', helper=True, ensures=lambda C: [('between cut-off and zero', C.result == And(C.a(0) < 0, C.a(0) > C.this.mCutOffRssi))]),
     Spec(M + 'getValidSignalEntry', requires=lambda C: location(C) + [('type', And(C.a(0).type >= 0, C.a(0).type <= 4))], setup=ghost_first(a0id), ensures=valid, helper=True),
     Spec(M + 'operator()', requires=lambda C: location(C) + [('type', And(C.a(0).type >= 0, C.a(0).type <= 4))], setup=ghost_first(a0id), ensures=radio, pred=lambda f: 'RadioMeasurementData' in f.params[0]['type']['qualType'], name=M + 'operator()(radio)'),
     Spec(M + 'operator()', ensures=sensor, pred=lambda f: 'SensorMeasurementData' in f.params[0]['type']['qualType'], name=M + 'operator()(sensor)'),
     Spec(M + 'operator()', ensures=nmea, pred=lambda f: 'NmeaMeasurementData' in f.params[0]['type']['qualType'], name=M + 'operator()(nmea)'),
     Spec(M + 'updateMeasurements', requires=lambda C: location(C) + [('type', And(C.a(0).data.alts[0].type >= 0, C.a(0).data.alts[0].type <= 4))], setup=ghost_first(lambda C: C.a(0).data.alts[0].id.value), ensures=update)]


# ---- extraction: closest access points, distances
class G: pass
def buffer_contract():
    """RadioMeasurementBuffer::extractMeasurements returns some list q (its content is the subject of P06)"""
    def ens(C):
        G.q = C.result
        return []
    return Spec(N + 'RadioMeasurementBuffer::extractMeasurements', modifies=('this',), ensures=ens)

def ghost_FF(C, st):
    """ghost: FF(t) = index of the first level that knows t"""
    ls = lc(C).mLevels
    FF = z3.Function('FF', I, I)
    t, j = z3.Ints('t! j!')
    has = lambda i: ksel(C.at(ls, i).mTransmitters.dom, [t])
    st.pc += [ForAll([t], And(FF(t) >= 0, FF(t) <= ls.n, Implies(FF(t) < ls.n, has(FF(t)))), patterns=[FF(t)]),
              ForAll([t, j], Implies(And(j >= 0, j < FF(t)), Not(has(j))), patterns=[z3.MultiPattern(FF(t), has(j))])]
    C.FF = FF

def dist_rule(C, before, after):
    """after is before with the distance rule applied"""
    ls = lc(C).mLevels
    t = before.id.value
    F = C.FF(t)
    pl = C.ex.step(None, C.at(ls, F).mTransmitters, ('kv', (t,))).second.pathlossModel
    ex = C.ex.ufn('exp', R, R)
    return And(after.id.value == t, after.type == before.type, after.rssi == before.rssi, after.stddev == before.stddev, after.power == before.power,
               after.distance == If(before.type == RTT, before.distance - C.this.mWiFiRttOffset,
                                    If(F < ls.n, ex(C.ex.adiv(pl.A - before.rssi, pl.B)), before.distance)))

def ex_loops(ctx, C):
    out = []
    i = z3.Int('i!')
    for nm, pre, cur in ctx.vals(lambda v: isinstance(v, Seq) and v.t.args[0].k == 'rec' and 'RadioMeasurementData' in v.t.args[0].name):
        d = C.ex.T
        for lab, p, c in ctx.ints():
            if lab.endswith('.n') or lab.endswith('.lo'):
                continue
            keep = [x for x in zip(pre.data, cur.data) if not x[0].eq(x[1])]
            out.append(('done ' + lab + nm, ForAll([i], Implies(And(i >= 0, i < c, i < cur.n), dist_rule(C, C.at(pre, i), C.at(cur, i))), patterns=[b[plus(cur.lo, i)] for a, b in keep])))
            out.append(('todo ' + lab + nm, And(*[ForAll([i], Implies(And(i >= c, i < cur.n), b[plus(cur.lo, i)] == a[plus(pre.lo, i)]), patterns=[b[plus(cur.lo, i)]]) for a, b in keep])))
            out.append(('upto ' + lab + nm, c <= cur.n))
    return out

def extract(C):
    r, q, th = C.result, G.q, C.this
    i, j = z3.Ints('i! j!')
    num = th.mNumClosestAps
    close = th.mUseClosestAps
    n = If(And(close, q.n > num), num, q.n)
    same = lambda a, b: And(a.id.value == b.id.value, a.rssi == b.rssi, a.type == b.type)
    return [('as many as heard, at most the configured number of closest ones', r.n == n),
            ('every output is one of the inputs with the distance rule applied', ForAll([i], Implies(And(i >= 0, i < r.n), Exists([j], And(j >= 0, j < q.n, dist_rule(C, C.at(q, j), C.at(r, i))))))),
            ('order kept without the closest option', Implies(Not(close), ForAll([i], Implies(And(i >= 0, i < r.n), dist_rule(C, C.at(q, i), C.at(r, i)))))),
            ('strongest first', Implies(close, ForAll([i, j], Implies(And(0 <= i, i < j, j < r.n), C.at(r, i).rssi >= C.at(r, j).rssi)))),
            ('no dropped one is stronger than a kept one', Implies(close, ForAll([j], Implies(And(j >= 0, j < q.n),
                Or(Exists([i], And(i >= 0, i < r.n, same(C.at(r, i), C.at(q, j)))), ForAll([i], Implies(And(i >= 0, i < r.n), C.at(r, i).rssi >= C.at(q, j).rssi)))))))]

def pl_ok(C):
    ls = lc(C).mLevels
    i, k = z3.Ints('i! k!')
    m = C.at(ls, i).mTransmitters
    b = C.ex.step(None, m, ('kv', (k,))).second.pathlossModel.B
    return [('path-loss slopes are not zero', ForAll([i, k], Implies(And(i >= 0, i < ls.n, ksel(m.dom, [k])), b != 0), patterns=[b])),
            ('number of closest', C.this.mNumClosestAps >= 0)]

SX = [Spec(M + 'extractRadioMeasurements', requires=lambda C: location(C) + pl_ok(C), setup=ghost_FF, abstract=True, ensures=extract, loops=ex_loops)]

def tasks(P):
    return tasks_of(P, S, CS) + tasks_of(P, SX, CS + [buffer_contract()])

REPLAY = dict(src='p05.cpp', repo=['src/measurements/measurement_preprocessor.cpp', 'src/level_collector.cpp', 'src/level.cpp', 'src/level_geometry.cpp', 'src/radiomap.cpp', 'src/point.cpp', 'src/vector3d.cpp'], rounds=6000, budget=25,
              rule='random locations, settings and message streams; the acceptance, closest-access-point and distance rules recomputed independently')
ASSUMPTIONS = ['level ids of a location are distinct (precondition of the look-ups)', 'path-loss slopes are non-zero']
