"""P11 outdoor (GNSS) position"""
from common import *
import P01
TUS = ['src/position_estimator/position_estimator_outdoor.cpp', 'src/level_collector.cpp', 'src/level.cpp', 'src/level_geometry.cpp', 'src/point.cpp']
O = N + 'PositionEstimatorOutdoor::'
def buf(C, b):
    names = ['.'.join(p) for p, _ in vleaves(C.at(b, z3.IntVal(0)))]
    d = dict(zip(names, b.data))
    return d['x'], d['y']
# sums over the buffered points, and sums of squared deviations from a value
SQ = z3.Function('SUMSQ', z3.ArraySort(I, R), R, I, I, R)
def sq_ax(C, d, m, lo, c):
    t = C.ex.amul(d[plus(lo, c)] - m, d[plus(lo, c)] - m)
    return [SQ(d, m, lo, z3.IntVal(0)) == 0, Implies(c >= 0, And(SQ(d, m, lo, c + 1) == SQ(d, m, lo, c) + t))]
def means(C):
    b = C.this.mGNSSbuffer
    w = z3.ToReal(C.this.mSigmaWindow)
    return [(d, b.lo, C.ex.adiv(summ(d, b.lo, b.n), w)) for d in buf(C, b)]
def add_loops(ctx, C):
    b = C.this.mGNSSbuffer
    out = fold_sum(ctx, [('xy'[i], d, b.lo) for i, d in enumerate(buf(C, b))])
    for d, lo, m in means(C):
        for c in loop_ints(ctx):
            ctx.axioms += sq_ax(C, d, m, lo, c)
            for lab, p, acc in ctx.reals():
                out.append(('squares %s %s' % (lab, c), And(acc == SQ(d, m, lo, c), acc >= 0)))
    return out
def inv(C, t):
    return [('window', And(t.mSigmaWindow >= 1, t.mGNSSbuffer.n >= 0, t.mGNSSbuffer.n <= t.mSigmaWindow))]
def add(C):
    t, t1, p = C.this, C.this1, C.a(0)
    b, b1 = t.mGNSSbuffer, t1.mGNSSbuffer
    full = b.n == t.mSigmaWindow
    i = z3.Int('i!')
    w = z3.ToReal(t.mSigmaWindow)
    sqrt = C.ex.ufn('sqrt', R, R)
    oks = []
    for (d, lo, m), x in zip(means(C), (p.x, p.y)):
        oks.append(absr(m - x) <= 3 * sqrt(C.ex.adiv(SQ(d, m, lo, b.n), w)) + t.mSigmaDelta)
    off = If(full, 1, 0)
    el = lambda q, i: [d[plus(q.lo, i)] for d in buf(C, q)]
    return [('invariant', g) for _, g in inv(C, t1)] + [
        ('accepted exactly with a full window that the point fits', C.result == And(full, *oks)),
        ('the oldest leaves a full window, the newest enters', And(b1.n == b.n - off + 1, ForAll([i], Implies(And(i >= 0, i < b1.n - 1), And(*[x == y for x, y in zip(el(b1, i), el(b, i + off))]))),
            *[x == y for x, y in zip(el(b1, b1.n - 1), (p.x, p.y))]))]
def sqrt_setup(C, st):
    div_signs(C, st)
    x, y = z3.Reals('x! y!')
    m = C.ex.ufn('mul', R, R, R)
    sq = C.ex.ufn('sqrt', R, R)
    st.pc += [ForAll([x], m(x, x) >= 0, patterns=[m(x, x)]), ForAll([x], Implies(x >= 0, sq(x) >= 0), patterns=[sq(x)])]
S_A = Spec(N + 'SigmaFilter::add', abstract=True, setup=sqrt_setup, requires=lambda C: inv(C, C.this), ensures=add, loops=add_loops)
S_CL = Spec(N + 'SigmaFilter::clear', ensures=lambda C: [('empty', C.this1.mGNSSbuffer.n == 0)], modifies=('this.mGNSSbuffer',))
FITS = z3.Function('FITS', I, I, R, R, B)
def add_use(C):
    if C.mode != 'assume':
        return add(C)
    C.post.notes += (('sigma', C.result, C.pre.store, C.a(0), C.this),)
    return [('invariant', g) for _, g in inv(C, C.this1)]
S_AU = Spec(N + 'SigmaFilter::add', abstract=True, setup=sqrt_setup, requires=lambda C: inv(C, C.this), ensures=add_use, loops=add_loops, modifies=('this.mGNSSbuffer',))

def ext(C):
    r, m, t = C.result, C.a(1), C.this
    E = C.ex.P.enums
    LOC = [v for n, v in E.items() if n.endswith('SensorMeasurementData::Type')][0]['LOCATION']
    loc = m.data.type == LOC
    dev = m.data.values.z
    out = [('a fix exactly from a location message', r.isEmpty == Not(loc))]
    if z3.is_expr(r.latitude):
        out += [('the fix as sent, with at least the minimum deviation', Implies(loc, And(r.latitude == m.data.values.x, r.longitude == m.data.values.y, r.ts == C.a(0), r.deviation == If(dev < t.mMinGpsDeviation, t.mMinGpsDeviation, dev))))]
    return out
S_E = Spec(O + 'extractGpsPosition', ensures=ext, helper=True)
def nsat(C):
    d = C.a(0).data
    return If(d.sentenceNumber == 1, d.satellitesNumber, 0)
S_N = Spec(O + 'extractNumberOfSatellites', ensures=lambda C: [('satellites of the first sentence', C.result == nsat(C))], helper=True)

# ---- position
def lvls(C):
    return C.ex.read(C.pre, C.this.mLevelIndex.to).mLevels
XF, YF = z3.Function('LOCX', R, R, R, R, R), z3.Function('LOCY', R, R, R, R, R)
def g2l_use(C):
    if C.mode != 'assume':
        return P01.g2l(C)
    p, b, r = C.a(0), C.a(1), C.result
    a = (p.latitude, p.longitude, b.latitude, b.longitude)
    return [('x', r.x == XF(*a)), ('y', r.y == YF(*a))]
S_G = Spec(N + 'gpsToLocal', ensures=g2l_use)
def image(C, i):
    b = C.at(lvls(C), i).mBindingPoint
    v = C.a(1).data.values
    a = (v.x, v.y, b.latitude, b.longitude)
    return XF(*a), YF(*a)
def covers(C, i):
    b = C.at(lvls(C), i).mGeometry.mBoundingBox
    x, y = image(C, i)
    return Or(C.this.mUseGpsOutsideMap, And(x >= b.min_corner.x, x <= b.max_corner.x, y >= b.min_corner.y, y <= b.max_corner.y))
def is_loc(C):
    E = C.ex.P.enums
    return C.a(1).data.type == [v for n, v in E.items() if n.endswith('SensorMeasurementData::Type')][0]['LOCATION']
def pos_setup(C, st):
    """ghost FIRST: the first level that covers the fix (NONE of them if HAS is false)"""
    C.has, C.first = z3.FreshConst(B, 'HAS'), z3.FreshConst(I, 'FIRST')
    i, ls = z3.Int('i!'), lvls(C)
    st.pc += [Implies(C.has, And(C.first >= 0, C.first < ls.n, covers(C, C.first))), ForAll([i], Implies(And(i >= 0, i < ls.n, covers(C, i)), And(C.has, C.first <= i)), patterns=pats(ls, i)[:1])]
def pos_loops(ctx, C):
    ls = lvls(C)
    return [('none before %s' % c, And(c >= 0, c <= ls.n, Implies(C.has, c <= C.first))) for c in loop_ints(ctx)]
def eq(a, b):
    return And(*[x == y for (_, x), (_, y) in zip(vleaves(a), vleaves(b)) if z3.is_expr(x) and z3.is_expr(y)])
def pos_req(C):
    t = C.this
    return [('location is not null', Not(t.mLevelIndex.null))] + inv(C, t.mSigmaFilter)
def pos(C):
    t, t1, r = C.this, C.this1, C.result
    last, ls = t.mLastGpsPosition, lvls(C)
    v = C.a(1).data.values
    loc = is_loc(C)
    E = C.ex.P.enums
    PR = [x for n, x in E.items() if n.endswith('::Provider') or n == 'Provider'][0]
    dev = If(v.z < t.mMinGpsDeviation, t.mMinGpsDeviation, v.z)
    ts = C.a(0)
    age = z3.ToReal(ts - last.ts) / 1000
    old = age > t.mGpsValidTimeWindowSec
    n = nsat_of(C)
    few = And(n != 0, n < t.mMinNumSats)
    sg = [x for x in C.post.notes if x[0] == 'sigma']
    asked = And(t.mUseSigmaFilter, ts != last.ts)
    x, y = image(C, C.first)
    L = C.at(ls, C.first)
    keep = eq(last, t1.mLastGpsPosition)
    empty = And(r.isEmpty, keep)
    out = [('without a fix the last one is repeated while it is fresh', Implies(Not(loc), And(keep, If(old, r.isEmpty, eq(r, last))))),
           ('a fix that no level covers gives nothing', Implies(And(loc, Not(C.has)), empty)),
           ('too few satellites', Implies(And(loc, few), empty)),
           ('the sigma filter is asked for new fixes only, once', z3.BoolVal(len(sg) <= 1)),
           ('and only if in use', z3.BoolVal(True) if not sg else asked),
           ('and always then', Implies(And(loc, C.has, asked), z3.BoolVal(bool(sg))))]
    rej = z3.BoolVal(False)
    cleared = Or(C.a(3), And(loc, dev > t.mMaxGpsDeviation))
    if sg:
        rej = Not(sg[0][1])
        out += [('it is asked about the local fix', And(sg[0][3].x == x, sg[0][3].y == y)),
                ('it is asked about its window, emptied by an indoor position or an inaccurate fix', sg[0][4].mGNSSbuffer.n == If(cleared, 0, t.mSigmaFilter.mGNSSbuffer.n)),
                ('and otherwise as it was', Or(cleared, eq(sg[0][4].mGNSSbuffer, t.mSigmaFilter.mGNSSbuffer)))]
    else:
        out += [('the window is emptied by an indoor position or an inaccurate fix', t1.mSigmaFilter.mGNSSbuffer.n == If(cleared, 0, t.mSigmaFilter.mGNSSbuffer.n)), ('and otherwise as it was', Or(cleared, eq(t1.mSigmaFilter.mGNSSbuffer, t.mSigmaFilter.mGNSSbuffer)))]
    good = And(loc, C.has, Not(few), Not(rej))
    out += [('a refused fix gives nothing', Implies(And(loc, rej), empty)),
            ('otherwise the local image on the first level that covers it', Implies(good, And(Not(r.isEmpty), r.x == x, r.y == y, r.levelId.value == L.mId.value, r.ts == ts, r.deviationM == dev, r.provider == PR['GNSS'], r.heading == 0))),
            ('which is remembered', Implies(good, eq(r, t1.mLastGpsPosition)))]
    return out
def nsat_of(C):
    d = C.a(2).data
    return If(d.sentenceNumber == 1, d.satellitesNumber, 0)
S_P = Spec(O + 'calculatePosition', setup=pos_setup, requires=pos_req, ensures=pos, loops=pos_loops)
def octor(C):
    r, s = C.result, C.a(1).commonSettings
    return [('settings taken over', And(r.mSigmaFilter.mSigmaWindow == s.sigmaFilterWindow, r.mSigmaFilter.mSigmaDelta == s.sigmaFilterDelta, r.mGpsValidTimeWindowSec == s.gpsValidTimeWindowSec, r.mUseGpsOutsideMap == s.useGpsOutsideMap,
                    r.mUseSigmaFilter == s.useGpsSigmaFilter, r.mMinNumSats == s.minNumSats, r.mMinGpsDeviation == s.minGpsDeviation, r.mMaxGpsDeviation == s.maxGpsDeviation)),
            ('nothing remembered', And(r.mLastGpsPosition.isEmpty, r.mSigmaFilter.mGNSSbuffer.n == 0))]
S_C = Spec(O + 'PositionEstimatorOutdoor', 2, requires=lambda C: [('number of satellites', C.a(1).commonSettings.minNumSats < 2 ** 31)], ensures=octor)
def tasks(P):
    return tasks_of(P, [S_AU, S_CL, S_E, S_N, S_C]) + tasks_of(P, [S_P], [S_AU, S_CL, S_G])

REPLAY = dict(src='p11.cpp', repo=['src/position_estimator/position_estimator_outdoor.cpp', 'src/level_collector.cpp', 'src/level.cpp', 'src/level_geometry.cpp', 'src/radiomap.cpp', 'src/point.cpp', 'src/vector3d.cpp'], rounds=20000, budget=15,
              rule='random levels, settings and histories of fixes, repeated times, other sensors and satellite counts against a model of the window and the remembered fix')
ASSUMPTIONS = ['gpsToLocal is a function of its arguments here; what it computes is P01', 'the maximum deviation, infinite by default, is treated as a number larger than every deviation', 'the sigma window is at least 1 (0 would make SigmaFilter::add remove from an empty buffer)', 'sqrt is nonnegative; squares are nonnegative']
