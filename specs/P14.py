"""P14 smoothing in time interpolates between the last two positions"""
from common import *
TUS = ['src/position_postprocessor/navigation_time_smoother.cpp']
T_ = N + 'NavigationTimeSmoother::'
def eq(a, b):
    return And(*[x == y for (_, x), (_, y) in zip(vleaves(a), vleaves(b)) if z3.is_expr(x) and z3.is_expr(y)])
def sm(C):
    t, t1, r, p, now = C.this, C.this1, C.result, C.a(0), C.a(1)
    a, b = t.mPrevPosition, t.mNextPosition
    a1, b1 = t1.mPrevPosition, t1.mNextPosition
    lv = lambda v: v.levelId.value
    ahead = now < p.ts
    other = And(Not(ahead), Or(lv(a) != lv(p), lv(b) != lv(p)))
    empty = And(Not(ahead), Not(other), Or(a.isEmpty, b.isEmpty, p.isEmpty))
    rest = And(Not(ahead), Not(other), Not(empty))
    newer = And(rest, p.ts > b.ts)
    old = And(rest, Not(p.ts > b.ts))
    span, gone = z3.ToReal(b1.ts - a1.ts), z3.ToReal(now - b1.ts)
    still = And(rest, b1.ts == a1.ts)
    over = And(rest, Not(b1.ts == a1.ts), gone > span)
    inter = And(rest, Not(b1.ts == a1.ts), Not(gone > span))
    mn, mx = lambda x, y: If(x < y, x, y), lambda x, y: If(x < y, y, x)
    within = lambda v, x, y: And(v >= mn(x, y), v <= mx(x, y))
    return [('a position from the future comes out as it is', Implies(ahead, And(eq(r, p), eq(a1, a), eq(b1, b)))),
            ('a new level starts anew', Implies(other, And(eq(r, p), eq(a1, p), eq(b1, p)))),
            ('an empty position shifts the memory', Implies(empty, And(eq(r, p), eq(a1, b), eq(b1, p)))),
            ('a newer position shifts the memory', Implies(newer, And(eq(a1, b), eq(b1, p)))),
            ('an older one leaves it', Implies(old, And(eq(a1, a), eq(b1, b)))),
            ('the last position, if both have the same time', Implies(still, eq(r, b1))),
            ('no extrapolation', Implies(over, eq(r, p))),
            ('interpolation: x', Implies(inter, r.x * span == b1.x * gone + a1.x * (span - gone))), ('interpolation: y', Implies(inter, r.y * span == b1.y * gone + a1.y * (span - gone))),
            ('interpolation: between the two positions', Implies(And(inter, gone >= 0), And(within(r.x, a1.x, b1.x), within(r.y, a1.y, b1.y)))),
            ('interpolation: at the time asked for, everything else of the last position', Implies(inter, And(r.ts == now, lv(r) == lv(b1), Not(r.isEmpty), r.deviationM == b1.deviationM, r.provider == b1.provider, r.heading == b1.heading))),
            ('the level of the position given', lv(r) == lv(p))]
S_T = Spec(T_ + 'getTimeSmoothedPosition', ensures=sm)
S_C = Spec(T_ + 'NavigationTimeSmoother', 0, ensures=lambda C: [('nothing remembered', And(C.result.mPrevPosition.isEmpty, C.result.mNextPosition.isEmpty))])
def tasks(P):
    return tasks_of(P, [S_C, S_T])

REPLAY = dict(src='p14.cpp', repo=['src/position_postprocessor/navigation_time_smoother.cpp', 'src/point.cpp'], rounds=200000, budget=8, rule='random histories of positions on two levels, repeated and out of order, against an independent memory of two positions')
