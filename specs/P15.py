"""P15 the alpha-beta position smoother"""
from common import *
TUS = ['src/position_postprocessor/position_smoother_ab.cpp', 'src/level.cpp', 'src/level_geometry.cpp']
from cv import execu
S_ = N + 'PositionSmootherAB::'
LO, HI = Q('0.1'), Q('0.9')
def eq(a, b):
    return And(*[x == y for (_, x), (_, y) in zip(vleaves(a), vleaves(b)) if z3.is_expr(x) and z3.is_expr(y)])
def speed(C, x, y):
    if z3.is_rational_value(z3.simplify(x)) and z3.is_rational_value(z3.simplify(y)):
        return absr(x) + absr(y)        # at rest
    return C.ex.ufn('sqrt', R, R)(C.ex.amul(x, x) + C.ex.amul(y, y))
def inv(C, t):
    return [('weight of the measurement', And(t.mAlpha >= LO, t.mAlpha <= HI)), ('speed', Implies(t.mUseSpeedConstraint, speed(C, t.mSpeedX, t.mSpeedY) <= 4)), ('accuracy', t.mPosition.deviationM >= 0)]
def req(C):
    return inv(C, C.this) + [('accuracy of the position', C.a(0).deviationM >= 0)]
def ens(C):
    t, t1, r, p = C.this, C.this1, C.result, C.a(0)
    last, out = t.mPosition, t1.mPosition
    dt = z3.ToReal(p.ts - last.ts) / 1000
    new = p.ts > last.ts
    mul, div = C.ex.amul, C.ex.adiv
    w = div(last.deviationM, p.deviationM + last.deviationM + Q('0.5'))
    acc = C.ex.check([p for p in C.post.pc if len(execu.symbols(p)) == 1] + [t.mUseAccuracyForSmoothing]) != z3.unsat
    m = If(LO < w, w, LO)
    a = If(HI < m, HI, m) if acc else t.mAlpha
    b = div(mul(a, a), 2 - a)
    px, py = last.x + mul(t.mSpeedX, dt), last.y + mul(t.mSpeedY, dt)
    xs, ys = px + mul(a, p.x - px), py + mul(a, p.y - py)
    vx, vy = t.mSpeedX + mul(div(b, dt), p.x - px), t.mSpeedY + mul(div(b, dt), p.y - py)
    fast = And(t.mUseSpeedConstraint, speed(C, vx, vy) > 4)
    S = C.ex.ufn('sqrt', R, R)(mul(vx, vx) + mul(vy, vy))
    grown = mul(mul(1 - a, dt), S)
    if C.mode != 'assume':          # the product of nonnegative numbers
        C.post.pc.append(Implies(And(a <= 1, dt >= 0, S >= 0), grown >= 0))
    area = C.a(1).mGeometry.mAllowedArea
    outside = And(t.mUseBarriers, Not(stdmodel.geo_fn(C.ex, 'covered_by', [B], Rec(last.t, {'x': xs, 'y': ys}), area)[0]))
    restart = And(new, Or(Not(t.mWasCalled), dt > 10, fast, outside))
    go = And(new, Not(restart))
    rest = And(out.levelId.value == p.levelId.value, out.ts == p.ts, out.isEmpty == p.isEmpty, out.provider == p.provider, out.heading == p.heading)
    return [('a position that is not newer gives the last one again', Implies(Not(new), And(eq(r, last), eq(out, last), t1.mSpeedX == t.mSpeedX, t1.mSpeedY == t.mSpeedY, t1.mWasCalled == t.mWasCalled))),
            ('a restart takes the position as it is', Implies(restart, And(eq(r, p), eq(out, p), t1.mSpeedX == 0, t1.mSpeedY == 0, t1.mWasCalled))),
            ('otherwise the position comes between prediction and measurement: x', Implies(go, out.x == xs)), ('y', Implies(go, out.y == ys)),
            ('the speed follows: x', Implies(go, t1.mSpeedX == vx)), ('the speed follows: y', Implies(go, t1.mSpeedY == vy)),
            ('everything else of the position', Implies(go, rest)),
            ('deviation of the position', Implies(And(go, Not(t.mUseAccuracyForSmoothing)), out.deviationM == p.deviationM)),
            ('deviation grown by the way covered', Implies(And(go, t.mUseAccuracyForSmoothing), out.deviationM == p.deviationM + grown)),
            ('what is remembered comes out', eq(r, out))] + [('invariant: ' + n, g) for n, g in inv(C, t1)]
S_S = Spec(S_ + 'smoothPosition', abstract='poly', requires=req, ensures=ens)
S_R = Spec(S_ + 'reset', requires=req, ensures=lambda C: [('starts at the position, at rest', And(eq(C.this1.mPosition, C.a(0)), C.this1.mSpeedX == 0, C.this1.mSpeedY == 0, C.this1.mWasCalled == C.this.mWasCalled, C.this1.mAlpha == C.this.mAlpha))] + [('invariant: ' + n, g) for n, g in inv(C, C.this1)])
def ctor(C):
    r, s = C.result, C.a(0).commonSettings
    q = s.smoothing
    q = If(q < 0, RV(0), If(q > 1, RV(1), q))
    return [('weight of the measurement by the smoothing', r.mAlpha == LO * q + HI * (1 - q)), ('settings taken over', And(r.mUseBarriers == s.useBarriers, r.mUseSpeedConstraint == s.useSpeedConstraint, r.mUseAccuracyForSmoothing == s.useAccuracyForSmoothing)),
            ('at rest, not called', And(r.mSpeedX == 0, r.mSpeedY == 0, Not(r.mWasCalled), r.mPosition.isEmpty, r.mPosition.ts == 0))] + [('invariant: ' + n, g) for n, g in inv(C, r)]
S_C = Spec(S_ + 'PositionSmootherAB', 1, ensures=ctor)
def tasks(P):
    return tasks_of(P, [S_C, S_R, S_S])

REPLAY = dict(src='p15.cpp', repo=['src/position_postprocessor/position_smoother_ab.cpp', 'src/barriers_geometry_builder.cpp', 'src/level_collector.cpp', 'src/level.cpp', 'src/level_geometry.cpp', 'src/radiomap.cpp', 'src/point.cpp', 'src/vector3d.cpp'], rounds=100000, budget=12,
              rule='random walks with gaps, jumps, repeated times and resets against an independent alpha-beta filter')
ASSUMPTIONS = ['deviations of the positions are not negative', 'boost::geometry::covered_by is an unspecified relation of point and area (the replay uses rectangles with holes)', 'products are compared as polynomials; sqrt is nonnegative and its square is the argument']
