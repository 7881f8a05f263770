"""P12 fusion of the indoor and the GNSS position"""
from common import *
TUS = ['src/position_postprocessor/position_postprocessor.cpp', 'src/geometry.cpp']
PP = N + 'PositionPostprocessor::'
def eq(a, b):
    return And(*[x == y for (_, x), (_, y) in zip(vleaves(a), vleaves(b))])
def inv(C, t):
    return [('uncertainties are positive', And(t.mPriorDev > 0, t.mMotionSpeed >= 0, t.mIndoorDev > 0, t.mOutdoorDev > 0)), ('times', And(t.mIndoorPos.ts >= 0, t.mOutdoorPos.ts >= 0))]
def positions(C, i, o):
    t = C.this
    pos, last = (C.a(i), C.a(o)), (t.mIndoorPos, t.mOutdoorPos)
    return [('deviations are positive', And(*[Implies(Not(p.isEmpty), p.deviationM > 0) for p in pos])), ('times do not go back', And(*[Implies(Not(p.isEmpty), And(p.ts >= 0, p.ts >= l.ts)) for p, l in zip(pos, last)]))]
def state(C, i, o):
    """position and uncertainty kept of the two sources after this call"""
    t = C.this
    out = []
    for p, last, dev in ((C.a(i), t.mIndoorPos, t.mIndoorDev), (C.a(o), t.mOutdoorPos, t.mOutdoorDev)):
        grown = dev + t.mMotionSpeed * z3.ToReal(p.ts - last.ts) / 1000
        prior = If(last.isEmpty, t.mPriorDev, If(grown < t.mPriorDev, grown, t.mPriorDev))
        new = Not(p.isEmpty)
        out.append((p, last, new, If(new, (prior + p.deviationM) / 2, dev)))
    return out
def pick(c, a, b):
    """field-wise If"""
    return Rec(a.t, {n: pick(c, x, b.f[n]) if isinstance(x, Rec) else If(c, x, b.f[n]) for n, x in a.f.items()})
def kept(C, i=0, o=1):
    t1 = C.this1
    (p, l, np, dp), (q, m, nq, dq) = state(C, i, o)
    return [('a new indoor position is kept, otherwise the last one', And(eq(t1.mIndoorPos, pick(np, p, l)), t1.mIndoorDev == dp)),
            ('a new GNSS position is kept, otherwise the last one', And(eq(t1.mOutdoorPos, pick(nq, q, m)), t1.mOutdoorDev == dq))] + [('invariant: ' + n, g) for n, g in inv(C, t1)]
S_F = Spec(PP + 'fillIndoorOutdoorPositionStates', requires=lambda C: inv(C, C.this) + positions(C, 0, 1), ensures=kept, modifies=('this.mIndoorPos', 'this.mOutdoorPos', 'this.mIndoorDev', 'this.mOutdoorDev'), helper=True)
def fuse(C):
    t, t1, r, ts = C.this, C.this1, C.result, C.a(0)
    (p, l, np, di), (q, m, nq, do) = state(C, 1, 2)
    a, b = pick(np, p, l), pick(nq, q, m)
    E = C.ex.P.enums
    PR = [x for n, x in E.items() if n.endswith('::Provider') or n == 'Provider'][0]
    delay = lambda x: If(ts >= x.ts, z3.ToReal(ts - x.ts) / 1000, RV(0))
    old = lambda x: delay(x) > t.mPosIsTooOldForFusingSec
    ia, ob = t.mMotionSpeed * delay(a) + di, t.mMotionSpeed * delay(b) + do
    instant = And(t.mUseInstantGpsPosition, nq)
    prefer = And(Not(instant), t.mPreferIndoorSolution, np, C.a(3) == 0)
    rest = And(Not(instant), Not(prefer))
    only_in = And(rest, Or(Not(t.mUseGps), b.isEmpty))
    only_out = And(rest, Not(only_in), a.isEmpty)
    both = And(rest, Not(only_in), Not(only_out))
    fresh = And(both, Not(old(a)), Not(old(b)))
    dx, dy = a.x - b.x, a.y - b.y
    acc = a.deviationM + b.deviationM + t.mFuseGpsBorderM
    dist = C.ex.ufn('sqrt', R, R)
    near = And(t.mFuseGps, acc > 0, dx * dx + dy * dy < acc * acc)
    mx = lambda x, y: If(x < y, y, x)
    mn = lambda x, y: If(y < x, y, x)
    between = lambda v, x, y: And(v >= mn(x, y), v <= mx(x, y))
    return kept(C, 1, 2) + [
        ('the GNSS position at once, if asked for', Implies(instant, eq(r, q))),
        ('the indoor position first, if preferred and valid', Implies(prefer, eq(r, p))),
        ('without GNSS the last indoor position', Implies(only_in, eq(r, a))),
        ('without an indoor position the last GNSS position', Implies(only_out, eq(r, b))),
        ('an indoor position too old to fuse gives way', Implies(And(both, old(a)), eq(r, b))),
        ('a GNSS position too old to fuse gives way', Implies(And(both, Not(old(a)), old(b)), eq(r, a))),
        ('positions too far apart: the more certain one', Implies(And(fresh, Not(near)), eq(r, pick(ia < ob, a, b)))),
        ('close positions are fused by their uncertainties', Implies(And(fresh, near), And(r.x * (ob + ia) == a.x * ob + b.x * ia, r.y * (ob + ia) == a.y * ob + b.y * ia))),
        ('the fused position lies between the two', Implies(And(fresh, near), And(between(r.x, a.x, b.x), between(r.y, a.y, b.y)))),
        ('with the smaller uncertainty, the later time and the indoor level', Implies(And(fresh, near), And(r.deviationM == mn(ia, ob), r.ts == mx(a.ts, b.ts), r.levelId.value == a.levelId.value, Not(r.isEmpty), r.provider == PR['FUSED'], r.heading == a.heading)))]
S_FU = Spec(PP + 'fusePositions', requires=lambda C: inv(C, C.this) + positions(C, 1, 2), ensures=fuse)
def tasks(P):
    return tasks_of(P, [S_F]) + tasks_of(P, [S_FU], [S_F])

REPLAY = dict(src='p12.cpp', repo=['src/position_postprocessor/%s.cpp' % f for f in ('position_postprocessor', 'position_smoother_ab', 'position_smoother_lstsq', 'navigation_time_smoother', 'polynomial_fit')] + ['src/geometry.cpp', 'src/barriers_geometry_builder.cpp', 'src/level_collector.cpp', 'src/level.cpp', 'src/level_geometry.cpp', 'src/radiomap.cpp', 'src/point.cpp', 'src/vector3d.cpp'], rounds=30000, budget=15,
              rule='random settings and histories of indoor and GNSS positions, present or absent, against an independent model of the two uncertainties')
ASSUMPTIONS = ['deviations of the positions and the prior deviation are positive, the average speed is not negative', 'the time of a source\'s position does not go back', 'sqrt is nonnegative and its square is the argument']
