"""P23 navigate: one answer per message, in the order of time, each placed on its level"""
from common import *
import P03
TUS = ['src/navigation_client_impl.cpp', 'src/level_collector.cpp', 'src/point.cpp', 'src/measurements/measurement_preprocessor.cpp', 'src/sensor_fusion/sensor_fusion.cpp', 'src/sensor_fusion/complementary_filter.cpp', 'src/level_estimator/level_estimator.cpp',
       'src/position_postprocessor/position_postprocessor.cpp', 'src/position_estimator/position_estimator_outdoor.cpp', 'src/level.cpp']
NC = N + 'NavigationClientImpl::'

import math
PI2, PI1 = Q(math.pi / 2), Q(math.pi)
LAT, LON = [z3.Function('GPS_' + c, R, R, R, R, R) for c in ('LAT', 'LON')]
BLAT, BLON = [z3.Function('BINDING_' + c, I, R) for c in ('LAT', 'LON')]
OK, ERR, NO_LEVEL = 0, -1, 30
def eq(a, b):
    return And(*[x == y for (_, x), (_, y) in zip(vleaves(a), vleaves(b)) if z3.is_expr(x) and z3.is_expr(y)])
def at(C, p, st=None):
    return C.ex.read(st or C.post, p.to)
def note(tag, *fs):
    """record what a call was given and what it gave back"""
    def f(C):
        C.post.notes += ((tag,) + tuple(g(C) for g in fs),)
        return []
    return f
a0, a1, a2, a3, a4 = [(lambda C, i=i: C.a(i)) for i in range(5)]
res = lambda C: C.result
def exists(lc, lv):
    return ksel(lc.mLevelsIndices.dom, [lv.value])
def known(lc, p):
    return Or(p.isEmpty, p.levelId.value == 0, exists(lc, p.levelId))
KNOWN = z3.Function('LEVEL_OF_THE_LOCATION', I, B)
# contracts of the parts (what they compute is P01, P05 - P15, P17 - P20)
T = [Spec(N + 'MeasurementsPreprocessor::updateMeasurements', modifies=('this',), ensures=lambda C: note('msg', a0)(C) + [('clock', C.this1.mCurrentTs == C.a(0).ts)]),
     Spec(N + 'SensorFusion::calculateDisplacement', modifies=('this',), ensures=note('motion', a0, a1, res)),
     Spec(N + 'MeasurementsPreprocessor::extractRadioMeasurements', modifies=('this.mRadiosBuffer',), ensures=note('radio', a0, res)),
     Spec(N + 'LevelEstimator::calculateLevel', modifies=('this',), ensures=note('level', a0, a1, res)),
     Spec(N + 'PositionEstimatorOutdoor::calculatePosition', modifies=('this',), ensures=lambda C: note('outdoor', a0, a1, a2, a3, res)(C) + [('a level of the location or none', place(C.result))]),
     Spec(N + 'PositionEstimator::calculatePosition', trusted=True, modifies=('this', 4), requires=lambda C: [('a level of the location', KNOWN(C.a(0).mId.value))],
          ensures=lambda C: note('indoor', a0, a1, a2, a3, res, lambda C: C.a1(4))(C) + [('on the level', Or(C.result.isEmpty, C.result.levelId.value == C.a(0).mId.value))]),
     Spec(N + 'PositionEstimator::reInit', trusted=True, modifies=('this',), ensures=note('reinit')),
     Spec(N + 'PositionPostprocessor::fusePositions', modifies=('this',), requires=lambda C: [('levels of the location', And(place(C.a(1)), place(C.a(2))))],
          ensures=lambda C: note('fused', a0, a1, a2, a3, res)(C) + [('one of the levels', place(C.result))]),
     Spec(N + 'PositionPostprocessor::getProcessedPosition', modifies=('this',), requires=lambda C: [('a level of the location', And(place(C.a(0)), KNOWN(C.a(3).mId.value)))],
          ensures=lambda C: note('processed', a0, a1, a2, a3, res)(C) + [('one of the levels', place(C.result))]),
     Spec(N + 'Trilateration::calculateAltitude', trusted=True, ensures=note('altitude', a0, a1, res)),
     Spec(N + 'to_minus_Pi_Pi', ensures=lambda C: note('wrap', a0, res)(C) + [('in the range', And(C.result >= -PI1, C.result < PI1))]),
     Spec(N + 'localToGps', ensures=lambda C: [('place', And(C.result.latitude == LAT(*gp(C)), C.result.longitude == LON(*gp(C))))]),
     Spec(N + 'LevelCollector::hasLevel', ensures=lambda C: [('level of the location', C.result == KNOWN(C.a(0).value))]),
     Spec(N + 'LevelCollector::level', requires=lambda C: [('level of the location', KNOWN(C.a(0).value))],
          ensures=lambda C: [('the level', And(C.result.mId.value == C.a(0).value, C.result.mBindingPoint.latitude == BLAT(C.a(0).value), C.result.mBindingPoint.longitude == BLON(C.a(0).value)))])]
def gp(C):
    return C.a(0).x, C.a(0).y, C.a(1).latitude, C.a(1).longitude
def place(p):
    return Or(p.isEmpty, p.levelId.value == 0, KNOWN(p.levelId.value))
def inv(t):
    return [('the position is on a level of the location or on none', place(t.mPosition)), ('a heading was known before the turn', Implies(t.mPrevGyroHeading.has, t.mPrevFusedPosHeading.has)), ('no level without name', Not(KNOWN(z3.IntVal(0))))]
NOTNULL = ['mLevelIndex', 'mLevelEstimator', 'mPositionEstimatorIndoor', 'mMsrPreprocessor', 'mPositionEstimatorOutdoor', 'mPositionPostprocessor', 'mSensorFusion']
def req(C):
    return [('parts are there', And(*[Not(C.this.f[p].null) for p in NOTNULL]))] + inv(C.this)
# ghosts: latest accepted time and number of accepted messages among the first c
LATEST, COUNT = z3.Function('LATEST', I, I), z3.Function('ACCEPTED', I, I)
def batch(C, c):
    return C.at(C.a(0), c)
def fold(C, c):
    ok = batch(C, c).ts >= LATEST(c)
    return [LATEST(c + 1) == If(ok, batch(C, c).ts, LATEST(c)), COUNT(c + 1) == COUNT(c) + If(ok, 1, 0)]
def setup(C, st):
    z = z3.IntVal(0)
    st.pc += [LATEST(z) == batch(C, z).ts, COUNT(z) == 0] + fold(C, z)
def good(C, out):
    i = z3.Int('i!')
    e = C.at(out, i)
    return ForAll([i], Implies(And(i >= 0, i < out.n), And(Implies(e.status == OK, And(e.posOrientation >= -PI1, e.posOrientation < PI1, Or(e.posLevel.value == 0, KNOWN(e.posLevel.value)))), Implies(e.status != OK, e.posLevel.value == 0))), patterns=pats(out, i)[:1])
def outs(ctx):
    return [(n, v) for n, p, v in ctx.vals(lambda v: isinstance(v, Seq) and 'NavigationOutput' in str(v.t))]
def loops(ctx, C):
    t = ctx.ex.read(ctx.cur, C.thisref)
    out = [('inv ' + l, f) for l, f in inv(t)]
    for n, v in outs(ctx):
        out += [('states ' + n, t.mNavigationStates.n == v.n), ('good ' + n, good(C, v))]
    for c in loop_ints(ctx):
        ctx.axioms += fold(C, c)
        for lab, p, x in ctx.ints():
            out.append(('latest %s %s' % (lab, c), x == LATEST(c)))
        for n, v in outs(ctx):
            out += [('count %s %s' % (n, c), v.n == COUNT(c))]
        out.append(('clock %s' % c, Implies(COUNT(c) > 0, at(C, t.mMsrPreprocessor, ctx.cur).mCurrentTs == LATEST(c))))
        out.append(('range %s' % c, And(c >= 0, COUNT(c) >= 0)))
    return out
def flat(ns):
    out = []
    for x in ns:
        g = z3.BoolVal(True)
        while x[0] == 'when':
            g, x = And(g, x[1]), x[2:]
        out.append((g, x[0], x[1:]))
    return out
def step(ctx, C, h, e):
    ns = flat(e.notes[len(h.notes):])
    ex = C.ex
    t0, t = ex.read(h, C.thisref), ex.read(e, C.thisref)
    vals = lambda tag: [(g, a) for g, k, a in ns if k == tag]
    ok = []
    def call(tag, always=True):
        v = vals(tag)
        if len(v) != 1:
            ok.append(('%s: asked once' % tag, z3.BoolVal(False)))
            raise StopIteration
        if always:
            ok.append(('%s: asked every time' % tag, v[0][0]))
        return v[0] if not always else v[0][1]
    if not ns:
        return [('a message older than one before changes nothing', eq(t, t0))] + [('and gives no output', ex.read(e, r).n == v.n) for n, v in outs(ctx) for r in [root_of(ctx, h, v)]]
    try:
        m, = call('msg')
        prep, prep0 = at(C, t.mMsrPreprocessor, e), at(C, t0.mMsrPreprocessor, h)
        ok.append(('the next message is taken in', Or(*[eq(m, batch(C, c)) for c in loop_ints(ctx)])))
        ms, mt, mi = call('motion')
        ok.append(('its sensor value tells the motion', And(eq(ms, prep.mSensor), mt == prep.mCurrentTs)))
        rt, radio = call('radio')
        ok.append(('signals up to the last step', rt == mi.lastMotionTs))
        lr, ls, lev = call('level')
        ok.append(('the level from these signals', And(eq(lr, radio), eq(ls, prep.mSensor))))
        ot, os_, on, of, outd = call('outdoor')
        ok.append(('the GNSS position from this message', And(ot == prep.mCurrentTs, eq(os_, prep.mSensor), eq(on, prep.mNmea), of == t0.mFlagIndoorPos)))
        now, quiet = prep.mCurrentTs, prep.mCurrentTs - prep.mLastSignalTs
        lost = Or(quiet >= t.mNoSignalTimeThreshold, And(quiet >= t.mNoActionTimeThreshold, now - mi.lastMotionTs >= t.mNoActionTimeThreshold, mi.lastMotionTs > 0))
        ok.append(('starting anew when signals have been missing', Or(*[g for g, a in vals('reinit')]) == lost))
        use = And(Not(lost), KNOWN(lev.value))
        ig, (il, it, ir, im, ind, st1) = call('indoor', False)
        fg, (ft, fi, fo, fs, fus) = call('fused', False)
        pg, (pf, pt, pm, pl, pro) = call('processed', False)
        ok.append(('positions on the level while it is known', And(ig == use, fg == use, pg == use)))
        ok.append(('the indoor position on the level found', Implies(use, And(il.mId.value == lev.value, it == now, eq(ir, radio), eq(im, mi)))))
        ok.append(('fused with the GNSS position', Implies(use, And(ft == now, eq(fi, ind), eq(fo, outd), fs == st1))))
        ok.append(('and processed', Implies(use, And(eq(pf, fus), pt == now, pl.mId.value == lev.value))))
        pos, pos0 = t.mPosition, t0.mPosition
        ok.append(('the position, the GNSS position without a level, else as before', And(Implies(use, eq(pos, pro)), Implies(And(Not(use), Not(outd.isEmpty)), eq(pos, outd)), Implies(And(Not(use), outd.isEmpty), eq(pos, pos0)))))
        ok.append(('whether there was an indoor position', t.mFlagIndoorPos == And(use, Not(ind.isEmpty))))
        status = If(use, st1, If(outd.isEmpty, z3.IntVal(NO_LEVEL), z3.IntVal(OK)))
        H0, G0, H1, G1 = t0.mPrevFusedPosHeading, t0.mPrevGyroHeading, t.mPrevFusedPosHeading, t.mPrevGyroHeading
        changed = And(use, Not(fus.isEmpty), H0.has, fus.heading != H0.val)
        gyro = And(use, Not(changed), G0.has)
        ahead = -(fus.heading - PI2)
        az = If(changed, ahead, If(gyro, -(H0.val - (mi.gyroHeading - G0.val) - PI2), If(And(use, Not(mi.isAzimuthValid)), ahead, mi.azimuth)))
        az = If(And(use, t.mUseEnuAzimuth), -az + PI2, az)
        moved = And(use, Not(fus.isEmpty))
        ok.append(('the last heading', And(H1.has == Or(moved, H0.has), Implies(H1.has, H1.val == If(moved, fus.heading, H0.val)))))
        ok.append(('the heading of the rates at its last change', And(G1.has == Or(changed, G0.has), Implies(G1.has, G1.val == If(changed, mi.gyroHeading, G0.val)))))
        ok.append(('motion as processed', Implies(use, And(pm.lastMotionTs == mi.lastMotionTs, pm.distance == mi.distance))))
        for n, v in outs(ctx):
            o = ex.read(e, root_of(ctx, h, v))
            b = C.at(o, v.n)
            lid = pos.levelId.value
            ok.append(('one output', o.n == v.n + 1))
            k = z3.Int('k!')
            ok.append(('outputs stay', ForAll([k], Implies(And(k >= 0, k < v.n), eq(C.at(o, k), C.at(v, k))))))
            ok.append(('its status', b.status == If(Not(pos.isEmpty), z3.IntVal(OK), If(status == OK, z3.IntVal(ERR), status))))
            ok.append(('its level', b.posLevel.value == If(pos.isEmpty, 0, lid)))
            ok.append(('its place', And(b.posLatitude == If(Or(pos.isEmpty, lid == 0), 0, LAT(pos.x, pos.y, BLAT(lid), BLON(lid))), b.posLongitude == If(Or(pos.isEmpty, lid == 0), 0, LON(pos.x, pos.y, BLAT(lid), BLON(lid))))))
            ok.append(('its radius and origin', Implies(Not(pos.isEmpty), And(b.posR == pos.deviationM, b.provider == pos.provider))))
            w = vals('wrap')
            ok.append(('its orientation', Implies(Not(pos.isEmpty), And(len(w) == 1, *[And(g, a[0] == az, b.posOrientation == a[1]) for g, a in w]))))
            hs = vals('altitude')
            want = And(Not(pos.isEmpty), lid != 0, t.mUseAltitude)
            ok.append(('its altitude', And(Or(*[g for g, a in hs]) == want, b.posAltitude == (If(And(want, hs[0][1][2].has), hs[0][1][2].val, 0) if hs else 0), *[Implies(g, And(a[0].mId.value == lid, eq(a[1], radio))) for g, a in hs])))
        s1, s0 = t.mNavigationStates, t0.mNavigationStates
        q = C.at(s1, s0.n)
        ok.append(('one state, with the steps', And(s1.n == s0.n + 1, q.mStepCounter == mi.stepCounter, q.mStepLen == mi.distance)))
    except StopIteration:
        pass
    return ok
def root_of(ctx, h, v):
    return LRef([r for r in h.store if h.store[r] is v][0])
def nav(C):
    t, t1, r, b = C.this, C.this1, C.result, C.a(0)
    return [('without messages nothing', Implies(b.n == 0, And(r.n == 0, eq(t, t1)))),
            ('one output for every message not older than one before it', Implies(b.n > 0, r.n == COUNT(b.n))), ('and as many states', Implies(b.n > 0, t1.mNavigationStates.n == r.n)),
            ('good outputs', good(C, r))] + [('invariant: ' + l, f) for l, f in inv(t1)]
S_N = Spec(NC + 'navigate', abstract=True, join=True, requires=req, setup=setup, loops=loops, step=step, ensures=nav)
def tasks(P):
    return tasks_of(P, [S_N], T)

def repo_files(d):
    from cv.frontend import REPO
    return [d + '/' + f for f in sorted(os.listdir(os.path.join(REPO, d))) if f.endswith('.cpp') and not f.startswith('barriers_geometry')]
REPLAY = dict(src='p23.cpp', repo=[f for d in ('src', 'src/knn', 'src/sensor_fusion', 'src/position_postprocessor', 'src/measurements', 'src/level_estimator', 'src/position_estimator') for f in repo_files(d)] , rounds=20000, budget=20,
              rule='random locations, settings and batches (all kinds of messages, some out of order, gaps without signals) against the parts run side by side')
ASSUMPTIONS = ['the parts are used by thin contracts: what they compute is P01, P05 - P15, P17, P18, P20; that a position they give is on a level of the location or on none follows from P09 - P15 (for the smoothers: they keep the level they are given)',
               'every level has a name that is not empty']
