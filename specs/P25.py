"""P25 the radio window of the standalone position estimation"""
from common import *
import P06
from P06 import ghosts, gaxioms, entry_ok, sorted_by_id
P06.DATA, P06.OUT, P06.FIELDS = (lambda e: e), 'RadioMeasurement', ('ts', 'type', 'power', 'frequency', 'stddev')
TUS = ['standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp']
B_, M = N + 'RadioMeasurementBuffer::', N + 'MeasurementsPreprocessor::'
FL = ('ts', 'type', 'rssi', 'power', 'frequency', 'distance', 'stddev')
def rec_eq(a, b, but=()):
    return And(a.id.value == b.id.value if hasattr(a.id, 'value') else a.id == b.id, *[a.f[k] == b.f[k] for k in FL if k not in but])
# ---- adding: ghosts over the batch
STORED, NEWEST = z3.Function('STORED', I, I), z3.Function('NEWEST', I, I)
def start(C):
    """time of the last extraction and clock once the first message is there"""
    t, first = C.this, C.this.mCurrentTs == -1
    return If(first, C.a(0), t.mLastExtractionTs), If(first, C.a(0), t.mCurrentTs)
def fold(C, c):
    ts = C.at(C.a(1), c).ts
    return [STORED(c + 1) == STORED(c) + If(ts > start(C)[0], 1, 0), NEWEST(c + 1) == If(ts > NEWEST(c), ts, NEWEST(c))]
def add_setup(C, st):
    z = z3.IntVal(0)
    st.pc += [STORED(z) == 0, NEWEST(z) == start(C)[1]]
def stored(C, b1, b0, c):
    i = z3.Int('i!')
    m = C.a(1)
    return [('earlier ones kept', And(b1.n == b0.n + STORED(c), STORED(c) >= 0, *[ForAll([i], Implies(And(i >= 0, i < b0.n), a[plus(b1.lo, i)] == b[plus(b0.lo, i)]), patterns=[a[plus(b1.lo, i)]]) for a, b in zip(b1.data, b0.data)])),
            ('those newer than the last extraction stored, unaltered', ForAll([i], Implies(And(i >= 0, i < c, C.at(m, i).ts > start(C)[0]), And(STORED(i) >= 0, STORED(i) < STORED(c), rec_eq(C.at(b1, b0.n + STORED(i)), C.at(m, i)))), patterns=[STORED(i)]))]
def add_loops(ctx, C):
    out = []
    for c in loop_ints(ctx):
        ctx.axioms += fold(C, c)
        for nm, p, t in ctx.vals(lambda v: isinstance(v, Rec) and 'mMeasurements' in v.f):
            out += [('%s %s' % (l, c), f) for l, f in stored(C, t.mMeasurements, C.this.mMeasurements, c)]
            out += [('clock %s' % c, t.mCurrentTs == NEWEST(c)), ('window %s' % c, t.mLastExtractionTs == start(C)[0])]
    return out
def add(C):
    t, t1, m = C.this, C.this1, C.a(1)
    return stored(C, t1.mMeasurements, t.mMeasurements, m.n) + [('the clock is the newest time', t1.mCurrentTs == NEWEST(m.n)), ('the first message starts the window', t1.mLastExtractionTs == start(C)[0]),
            ('settings kept', And(t1.mRadioKeepPeriodMs == t.mRadioKeepPeriodMs, t1.mSignalWindowShiftMs == t.mSignalWindowShiftMs))]
S_A = Spec(B_ + 'addMeasurements', setup=add_setup, loops=add_loops, ensures=add)
# ---- extraction
def extract(C):
    t, t1, r = C.this, C.this1, C.result
    early = t.mCurrentTs - t.mLastExtractionTs < t.mSignalWindowShiftMs
    b0, b1 = t.mMeasurements, t1.mMeasurements
    i, j = z3.Ints('i! j!')
    def member(q):
        return lambda x: Exists([j], And(j >= q.lo, j < q.lo + q.n, *[a == d[j] for a, d in zip(x, q.data)]))
    inb0, inb1 = member(b0), member(b1)
    el1 = lambda i: [d[plus(b1.lo, i)] for d in b1.data]
    el0 = lambda i: [d[plus(b0.lo, i)] for d in b0.data]
    keep = t.mCurrentTs - t.mRadioKeepPeriodMs
    out = [('clock kept', And(t1.mCurrentTs == t.mCurrentTs, t1.mRadioKeepPeriodMs == t.mRadioKeepPeriodMs, t1.mSignalWindowShiftMs == t.mSignalWindowShiftMs)),
           ('window restarts exactly when it had passed', t1.mLastExtractionTs == If(early, t.mLastExtractionTs, t.mCurrentTs)),
           ('nothing before the window has passed', Implies(early, And(r.n == 0, b1.n == b0.n))),
           ('no keep period: buffer emptied', Implies(And(Not(early), t.mRadioKeepPeriodMs == 0), b1.n == 0)),
           ('only buffered ones stay', ForAll([i], Implies(And(i >= 0, i < b1.n), inb0(el1(i))))),
           ('older than the keep period are dropped', Implies(And(Not(early), t.mRadioKeepPeriodMs != 0), ForAll([i], Implies(And(i >= 0, i < b1.n), C.at(b1, i).ts >= keep)))),
           ('those within the keep period stay', Implies(Or(early, t.mRadioKeepPeriodMs != 0), ForAll([i], Implies(And(i >= 0, i < b0.n, Or(early, C.at(b0, i).ts >= keep)), inb1(el0(i))))))]
    sb = sorted_by_id(C, C.post)
    if sb is None:
        return out + [('no entry without averaging', early)]
    v, w, perm, inv = sb
    g = ghosts(C, w)
    gaxioms(C, w)
    return out + [('one entry per transmitter', r.n == g.rank(w.n)),
                  ('each entry is the mean over all buffered measurements of its transmitter', ForAll([i], Implies(And(i >= 0, i < w.n, g.gs(i)), And(g.rank(i) >= 0, g.rank(i) < r.n, entry_ok(C, g, w, i, C.at(r, g.rank(i))))), patterns=[g.rank(i)]))]
S_E = Spec(B_ + 'extractMeasurements', ensures=extract, loops=P06.loops, abstract=True)
S_BC = Spec(B_ + 'RadioMeasurementBuffer', 2, ensures=lambda C: [('taken over', And(C.result.mSignalWindowShiftMs == C.a(0), C.result.mRadioKeepPeriodMs == C.a(1))), ('empty', And(C.result.mMeasurements.n == 0, C.result.mCurrentTs == -1, C.result.mLastExtractionTs == -1))])
# ---- the preprocessor
def ms(x):
    x = 1000 * x
    return If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
def ctor(C):
    r = C.result
    b = r.mRadiosBuffer
    avg, sh = ms(C.a(0)), ms(C.a(1))
    shift = If(Or(sh == 0, sh > avg), avg, sh)
    return [('technologies', And(r.mUseWifi == C.a(2), r.mUseBle == C.a(3))), ('window shift', b.mSignalWindowShiftMs == shift), ('keep period', b.mRadioKeepPeriodMs == avg - shift), ('the five strongest, cut-off -100', And(r.mUseClosestAps, r.mNumClosestAps == 5, r.mCutOffRssi == -100)),
            ('starts empty', And(b.mMeasurements.n == 0, b.mCurrentTs == -1, b.mLastExtractionTs == -1, r.mCurrentTs == -1))]
S_C = Spec(M + 'MeasurementsPreprocessor', 4, ensures=ctor)
WIFI = 0
def ok(C, m):
    return And(Or(And(m.type == WIFI, C.this.mUseWifi), And(m.type == 1, C.this.mUseBle)), m.rssi > C.this.mCutOffRssi, m.rssi < 0)
def upd_setup(C, st):
    """ghosts of the one measurement handed to the buffer"""
    pass
def buf_note(C):
    C.post.notes += (('added', C.a(0), C.a(1)),)
    return []
T_A = Spec(B_ + 'addMeasurements', modifies=('this',), ensures=buf_note)
def update(C):
    t, t1, m = C.this, C.this1, C.a(0)
    ad = [x[1:] for x in C.post.notes if x[0] == 'added']
    out = [('the clock is the newest time', t1.mCurrentTs == If(m.ts > t.mCurrentTs, m.ts, t.mCurrentTs))]
    if len(ad) == 1:
        ts, v = ad[0]
        return out + [('only admissible ones are taken in', ok(C, m)), ('once, unaltered', And(ts == m.ts, v.n == 1, rec_eq(C.at(v, 0), m)))]
    b0, b1 = t.mRadiosBuffer, t1.mRadiosBuffer
    return out + [('every admissible one is taken in', Not(ok(C, m))), ('else the buffer stays', And(len(ad) == 0, *[x == y for (_, x), (_, y) in zip(vleaves(b0), vleaves(b1))]))]
S_U = Spec(M + 'update', ensures=update)
class G: pass
def some(C):
    G.q = C.result
    return []
T_E = Spec(B_ + 'extractMeasurements', modifies=('this',), ensures=some)
def strongest(C):
    r, q, num, close = C.result, G.q, C.this.mNumClosestAps, C.this.mUseClosestAps
    i, j = z3.Ints('i! j!')
    n = If(And(close, q.n > num), num, q.n)
    return [('as many as averaged, at most the strongest ones', r.n == n),
            ('every one is one of the averages', ForAll([i], Implies(And(i >= 0, i < r.n), Exists([j], And(j >= 0, j < q.n, rec_eq(C.at(r, i), C.at(q, j))))))),
            ('strongest first', Implies(close, ForAll([i, j], Implies(And(0 <= i, i < j, j < r.n), C.at(r, i).rssi >= C.at(r, j).rssi)))),
            ('no dropped one is stronger than a kept one', Implies(close, ForAll([j], Implies(And(j >= 0, j < q.n), Or(Exists([i], And(i >= 0, i < r.n, rec_eq(C.at(r, i), C.at(q, j)))), ForAll([i], Implies(And(i >= 0, i < r.n), C.at(r, i).rssi >= C.at(q, j).rssi))))))),
            ('order kept otherwise', Implies(Not(close), ForAll([i], Implies(And(i >= 0, i < r.n), rec_eq(C.at(r, i), C.at(q, i))))))]
S_X = Spec(M + 'extractRadioMeasurements', requires=lambda C: [('number of strongest', C.this.mNumClosestAps >= 0)], ensures=strongest)
S_T = Spec(M + 'getCurrentTs', ensures=lambda C: [('clock', C.result == C.this.mCurrentTs)])
def tasks(P):
    return tasks_of(P, [S_BC, S_A, S_E, S_C, S_T]) + tasks_of(P, [S_U], [T_A]) + tasks_of(P, [S_X], [T_E])

REPLAY = dict(src='p25.cpp', repo=TUS, core=False, inc=['standalone_algorithms/position_estimation/include'], rounds=60000, budget=12,
              rule='random histories of measurements of up to 13 transmitters, some out of order, of the other technology or of no admissible strength, asked for after random batches, against a list model of the window')
ASSUMPTIONS = ['sums and quotients are uninterpreted functions of their operands in the proof of the averages']
