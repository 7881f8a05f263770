"""P13 the position that is put out: fresh, on the map, held while standing, on the graph, rounded"""
from common import *
import P04
TUS = ['src/position_postprocessor/position_postprocessor.cpp', 'src/geometry.cpp', 'src/level.cpp', 'src/level_geometry.cpp']
PP = N + 'PositionPostprocessor::'
def eq(a, b):
    return And(*[x == y for (_, x), (_, y) in zip(vleaves(a), vleaves(b)) if z3.is_expr(x) and z3.is_expr(y)])
EPS = Q('1e-8')
A6 = z3.Reals('ux uy vx vy px py')
PK, FX, FY = [z3.Function('FOOT_' + c, *[R] * 7) for c in 'kxy']
DIST = z3.Function('DIST', *[R] * 5)
def foot(u, v, p):
    """nearest point of the segment uv to p, in terms of the foot of the perpendicular"""
    a = (u.x, u.y, v.x, v.y, p.x, p.y)
    return If(PK(*a) < 0, u.x, If(PK(*a) > 1, v.x, FX(*a))), If(PK(*a) < 0, u.y, If(PK(*a) > 1, v.y, FY(*a)))
def kdef(ux, uy, vx, vy, px, py):
    ab = (vx - ux) * (vx - ux) + (vy - uy) * (vy - uy)
    return If(ab > EPS, ((px - ux) * (vx - ux) + (py - uy) * (vy - uy)) / ab, RV(0))
def target(C, i):
    return C.ex.read(C.post, C.a(i).to)
def perp(C):
    """callers see functions of the arguments; here their values are proved"""
    a = [C.a(i) for i in range(6)]
    ux, uy, vx, vy = a[:4]
    k = PK(*a) if C.mode == 'assume' else kdef(*a)
    x, y = (FX(*a), FY(*a)) if C.mode == 'assume' else (ux + k * (vx - ux), uy + k * (vy - uy))
    out = [('parameter of the foot', C.result == k)]
    for i, n, v in ((6, 'x', x), (7, 'y', y)):
        p = C.a(i)
        nul = p.null
        if not z3.is_true(nul) and p.to is not None:
            if C.mode == 'assume':
                C.ex.write(C.post, p.to, v)
            else:
                out.append((n + ' of the foot', Or(nul, target(C, i) == v)))
    return out
S_PR = Spec(N + 'GetProjection', ensures=perp)
def dist4(C):
    a = [C.a(i) for i in range(4)]
    if C.mode == 'assume':
        return [('distance', C.result == DIST(*a)), ('nonnegative', DIST(*a) >= 0), ('symmetric', DIST(*a) == DIST(*(a[2:] + a[:2])))]
    d = (a[0] - a[2]) * (a[0] - a[2]) + (a[1] - a[3]) * (a[1] - a[3])
    return [('distance', And(C.result >= 0, C.result * C.result == d))]
S_D = Spec(N + 'GetDist', 4, ensures=dist4)
def nearest_lemma(L, st):
    ux, uy, vx, vy, px, py = A6
    t, k = z3.Reals('t k')
    dx, dy = vx - ux, vy - uy
    q = lambda s: (px - ux - s * dx) * (px - ux - s * dx) + (py - uy - s * dy) * (py - uy - s * dy)
    ab = dx * dx + dy * dy
    c = If(k < 0, RV(0), If(k > 1, RV(1), k))
    L.assume(st, k * ab == (px - ux) * dx + (py - uy) * dy, t >= 0, t <= 1)
    L.ready(st)
    gap = (t - k) * (t - k) - (c - k) * (c - k)
    L.oblige(st, gap >= 0, 'the clamped parameter is the nearest to the foot')
    L.oblige(st, q(t) - q(c) == ab * gap, 'squared distances along the segment')
    L.done(st)
class Near:
    """ghost: first nearest of the first c edges"""
    def __init__(self, C, g, p):
        self.arrs, self.pos = C.ex.enum(C.pre, g.mEdges)
        self.C, self.g, self.p = C, g, p
        self.A = z3.Function('NEAREST', I, I)
        self.defs = [self.A(z3.IntVal(0)) == -1] + self.step(z3.IntVal(0))
    def ends(self, j):
        vs = self.g.mVertices
        return self.C.at(vs, self.arrs[0][j]).point, self.C.at(vs, self.arrs[1][j]).point
    def d(self, j):
        f = foot(*self.ends(j), self.p)
        return DIST(self.p.x, self.p.y, *f)
    def step(self, c):
        A = self.A
        return [Implies(c >= 0, A(c + 1) == If(Or(A(c) < 0, self.d(c) < self.d(A(c))), c, A(c)))]
    def is_first_nearest(self, c):
        i, a = z3.Int('i!'), self.A(c)
        return And(a >= 0, a < c, ForAll([i], Implies(And(i >= 0, i < c), self.d(a) <= self.d(i)), patterns=[self.arrs[0][i]]))
def gp_setup(C, st):
    C.N = Near(C, C.a(0), C.a(1))
    st.pc += C.N.defs
def gp_loops(ctx, C):
    N_ = C.N
    P = C.a(1)
    out = []
    for c in loop_ints(ctx):
        ctx.axioms += N_.step(c)
        a = N_.A(c)
        out.append(('nearest %s' % c, Implies(c > 0, N_.is_first_nearest(c))))
        out.append(('none %s' % c, Implies(c <= 0, a == -1)))
        for nm, p, v in ctx.vals(lambda v: isinstance(v, Rec) and 'level' in v.f and v is not P):
            f = foot(*N_.ends(a), P)
            out.append(('point %s %s' % (nm, c), Implies(c > 0, And(v.x == f[0], v.y == f[1]))))
            out.append(('untouched %s %s' % (nm, c), Implies(c <= 0, And(v.x == P.x, v.y == P.y))))
        for lab, p, d in ctx.reals():
            out.append(('dist %s %s' % (lab, c), Implies(c > 0, d == N_.d(a))))
    return out
def gp(C):
    g, P, r = C.a(0), C.a(1), C.result
    if C.mode == 'assume':
        C.post.notes += (('proj', r, P, g),)
        C.N = Near(C, g, P)
    N_ = C.N
    n = g.mEdges.card
    f = foot(*N_.ends(N_.A(n)), P)
    return [('on the same level', r.level.value == P.level.value), ('without edges the point itself', Implies(n == 0, And(r.x == P.x, r.y == P.y))),
            ('otherwise the nearest point of the first edge that comes nearest', Implies(n > 0, And(N_.is_first_nearest(n), r.x == f[0], r.y == f[1])))]
S_GP = Spec(N + 'getProjection', setup=gp_setup, requires=lambda C: P04.g_inv(C, C.a(0)), ensures=gp, loops=gp_loops)

def gpp_req(C):
    b = C.a(3).mGeometry.mBoundingBox
    return [('smoother is not null', Not(C.this.mPositionSmoother.null)), ('box of the level', And(b.min_corner.x <= b.max_corner.x, b.min_corner.y <= b.max_corner.y))] + P04.g_inv(C, C.a(3).mGraph)
def sm(C):
    C.post.notes += (('smooth', C.a(0), C.result),)
    return []
def sr(C):
    C.post.notes += (('reset', C.a(0)),)
    return []
S_SM = [Spec(N + 'PositionSmoother::smoothPosition', trusted=True, ensures=sm), Spec(N + 'PositionSmoother::reset', trusted=True, ensures=sr)]
def ts(C):
    C.post.notes += (('time', C.a(0), C.a(1), C.result),)
    return []
S_TS = Spec(N + 'NavigationTimeSmoother::getTimeSmoothedPosition', trusted=True, modifies=('this',), ensures=ts)
def floor100(x):
    return z3.ToReal(z3.ToInt(x * 100)) / 100
def gpp(C):
    t, t1, r, p, now, lv = C.this, C.this1, C.result, C.a(0), C.a(1), C.a(3)
    b = lv.mGeometry.mBoundingBox
    last, out = t.mLastOutPosition, t1.mLastOutPosition
    step = If(C.a(2).lastMotionTs > 0, C.a(2).lastMotionTs, t.mLastStepTs)
    none = Or(p.isEmpty, And(Not(t.mUseGpsOutsideMap), Not(And(p.x >= b.min_corner.x, p.x <= b.max_corner.x, p.y >= b.min_corner.y, p.y <= b.max_corner.y))), now - p.ts >= t.mDeadReckonTimeMs)
    notes = C.post.notes
    kinds = [x[0] for x in notes]
    g = [('steps are followed', t1.mLastStepTs == step),
         ('no position, one off the map or an old one gives nothing', Implies(none, And(r.isEmpty, eq(out, last), t1.mLastExtractionTs == t.mLastExtractionTs)))]
    if C.ex.check(C.post.pc + [Not(none)]) == z3.unsat:
        return g
    res = p
    k = 0
    new = last.levelId.value != p.levelId.value
    if notes[k:k + 1] and notes[k][0] == 'reset':
        g += [('the smoother starts anew on a new level', And(t.mUseSmoothing, new, eq(notes[k][1], p)))]
        k += 1
    else:
        g += [('the smoother starts anew on every new level', Not(And(t.mUseSmoothing, new, Not(none))))]
    if notes[k:k + 1] and notes[k][0] == 'smooth':
        g += [('smoothing, if in use', And(t.mUseSmoothing, eq(notes[k][1], p)))]
        res = notes[k][2]
        k += 1
    else:
        g += [('smoothing whenever in use', Or(none, Not(t.mUseSmoothing)))]
    if notes[k:k + 1] and notes[k][0] == 'time':
        g += [('smoothing in time, if in use', And(t.mUseTimeSmoothing, eq(notes[k][1], res), notes[k][2] == now))]
        res = notes[k][3]
        k += 1
    else:
        g += [('smoothing in time whenever in use', Or(none, Not(t.mUseTimeSmoothing)))]
    stopped = And(t.mUseStops, step > 0, now - step >= t.mStopDetectionTimeMs)
    refresh = And(now - t.mLastExtractionTs > t.mStopUpdateTimeMs, DIST(last.x, last.y, res.x, res.y) < t.mStopsDistThresholdM)
    take = Or(Not(stopped), refresh)
    bx, by = If(take, res.x, last.x), If(take, res.y, last.y)
    if notes[k:k + 1] and notes[k][0] == 'proj':
        _, q, P, gr = notes[k]
        g += [('projected to the graph of the level, if in use', And(t.mUseGraphProjection, P.x == bx, P.y == by, eq(gr, lv.mGraph)))]
        near = DIST(P.x, P.y, q.x, q.y) < t.mGraphProjectionDistance
        bx, by = If(near, q.x, bx), If(near, q.y, by)
        k += 1
    else:
        g += [('projected whenever in use', Or(none, Not(t.mUseGraphProjection)))]
    g += [('nothing else is asked for', z3.BoolVal(k == len(notes)))]
    ok = Not(none)
    clamp = lambda v, lo, hi: If(v < lo, lo, If(v > hi, hi, v))
    cx, cy = clamp(bx, b.min_corner.x, b.max_corner.x), clamp(by, b.min_corner.y, b.max_corner.y)
    return g + [('what comes out is kept', Implies(ok, eq(r, out))),
                ('inside the box of the level, up to rounding', Implies(ok, And(r.x <= b.max_corner.x, r.y <= b.max_corner.y, r.x > b.min_corner.x - Q('0.01'), r.y > b.min_corner.y - Q('0.01')))),
                ('in whole centimetres', Implies(ok, And(r.x * 100 == z3.ToReal(z3.ToInt(r.x * 100)), r.y * 100 == z3.ToReal(z3.ToInt(r.y * 100))))),
                ('the x of the position taken', Implies(ok, r.x == floor100(cx))), ('the y of the position taken', Implies(ok, r.y == floor100(cy))),
                ('at the time asked for', Implies(ok, r.ts == now)),
                ('the rest of the position taken', Implies(ok, And(r.levelId.value == If(take, res.levelId.value, last.levelId.value), r.isEmpty == If(take, res.isEmpty, last.isEmpty), r.provider == If(take, res.provider, last.provider), r.heading == If(take, res.heading, last.heading)))),
                ('its deviation', Implies(ok, r.deviationM == If(stopped, If(refresh, res.deviationM, last.deviationM), t.mIndoorPos.deviationM))),
                ('a refresh while standing is timed', Implies(ok, t1.mLastExtractionTs == If(And(stopped, refresh), now, t.mLastExtractionTs)))]
S_GPP = Spec(PP + 'getProcessedPosition', requires=gpp_req, ensures=gpp)
def tasks(P):
    return tasks_of(P, [S_PR, S_D]) + tasks_of(P, [S_GP], [S_PR, S_D]) + [Lemma(P, 'lemma: the nearest point of an edge', nearest_lemma)] + tasks_of(P, [S_GPP], S_SM + [S_TS, S_GP, S_D])

from P12 import REPLAY as R12
REPLAY = dict(src='p13.cpp', repo=R12['repo'], rounds=20000, budget=15, rule='random levels, graphs, settings and walks with stops; exact model without smoothing, invariants of the outcome with any smoother')
ASSUMPTIONS = ['the smoother, called through its base class, and the smoothing in time are arbitrary here (P14, P15 and P16 say what they do)', 'boost::geometry::covered_by of a point and a box is the closed box', 'sqrt is nonnegative and its square is the argument']
TRUSTED = ['PositionSmoother::smoothPosition, reset (pure virtual: any result)']
