"""P02 planar geometry primitives"""
from common import *
TUS = ['src/geometry.cpp']
EPS = Q(1e-8)
BIG = Q(1e-6)

def d2(ax, ay, bx, by):
    return (ax - bx) * (ax - bx) + (ay - by) * (ay - by)

def seg(C):
    p1, p2, p = C.a(0), C.a(1), C.a(2)
    L = d2(p1.x, p1.y, p2.x, p2.y)
    return p1, p2, p, L

def seg_ens(C):
    p1, p2, p, L = seg(C)
    r = C.result
    t = z3.Real('t')
    sx, sy = p1.x + t * (p2.x - p1.x), p1.y + t * (p2.y - p1.y)
    dot = (p.x - p1.x) * (p2.x - p1.x) + (p.y - p1.y) * (p2.y - p1.y)
    fx, fy = p1.x + (dot / L) * (p2.x - p1.x), p1.y + (dot / L) * (p2.y - p1.y)
    return [('non-negative', r >= 0),
            ('no farther than any point of the segment', Implies(And(t >= 0, t <= 1, L >= BIG), r * r <= d2(sx, sy, p.x, p.y))),
            ('attained at the first end', Implies(And(L >= BIG, dot <= 0), r * r == d2(p1.x, p1.y, p.x, p.y))),
            ('attained at the second end', Implies(And(L >= BIG, dot >= L), r * r == d2(p2.x, p2.y, p.x, p.y))),
            ('attained at the foot of the perpendicular', Implies(And(L >= BIG, dot >= 0, dot <= L), r * r == d2(fx, fy, p.x, p.y))),
            ('degenerate segment', Implies(And(p1.x == p2.x, p1.y == p2.y), r * r == d2(p1.x, p1.y, p.x, p.y)))]

def dist4(C):
    r = C.result
    return [('euclidean', And(r >= 0, r * r == d2(C.a(0), C.a(1), C.a(2), C.a(3))))]

def distp(C):
    A, B_, r = C.a(0), C.a(1), C.result
    if nan(r):
        return [('NaN only across levels', A.level.value != B_.level.value)]
    return [('euclidean on one level', And(A.level.value == B_.level.value, r >= 0, r * r == d2(A.x, A.y, B_.x, B_.y)))]

def linedist(C):
    A, B_, P, r = C.a(0), C.a(1), C.a(2), C.result
    samelev = And(A.level.value == B_.level.value, A.level.value == P.level.value)
    L = d2(A.x, A.y, B_.x, B_.y)
    cr = (B_.x - A.x) * (P.y - A.y) - (P.x - A.x) * (B_.y - A.y)
    if nan(r):
        return [('NaN only across levels or for a degenerate line', Or(Not(samelev), L < Q(1e-12)))]
    if not is_num(r):
        return [('finite', z3.BoolVal(False))]
    return [('one level', samelev), ('distance to the line', And(r >= 0, r * r * L == cr * cr))]

def area6(C):
    a = [C.a(i) for i in range(6)]
    return [('oriented area', 2 * C.result == (a[2] - a[0]) * (a[5] - a[1]) - (a[4] - a[0]) * (a[3] - a[1]))]

def areap(C):
    A, B_, P, r = C.a(0), C.a(1), C.a(2), C.result
    samelev = And(A.level.value == B_.level.value, A.level.value == P.level.value)
    if nan(r):
        return [('NaN only across levels', Not(samelev))]
    return [('oriented area on one level', And(samelev, 2 * r == (B_.x - A.x) * (P.y - A.y) - (P.x - A.x) * (B_.y - A.y)))]

def det3(C):
    a = [C.a(i) for i in range(9)]
    d = a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6])
    return [('determinant', C.result == d)]

def ptr_target(C, i, st):
    return C.ex.read(st, C.ex.read(C.pre, C.argrefs[i]).to)

def proj(C):
    ax, ay, bx, by, ox, oy = [C.a(i) for i in range(6)]
    k = C.result
    px, py = ptr_target(C, 6, C.post), ptr_target(C, 7, C.post)
    nx, ny = C.a(6).null, C.a(7).null
    L = d2(ax, ay, bx, by)
    return [('px on the line', Or(nx, px == ax + k * (bx - ax))), ('py on the line', Or(ny, py == ay + k * (by - ay))),
            ('foot of the perpendicular', Implies(L >= BIG, (ox - ax - k * (bx - ax)) * (bx - ax) + (oy - ay - k * (by - ay)) * (by - ay) == 0)),
            ('degenerate segment', Implies(And(ax == bx, ay == by), k == 0))]

def inter(C):
    px, py, qx, qy, ax, ay, bx, by = [C.a(i) for i in range(8)]
    k = C.result
    l, kk = z3.Real('l'), z3.Real('kk')
    meet = lambda k_, l_: And(px + k_ * (qx - px) == ax + l_ * (bx - ax), py + k_ * (qy - py) == ay + l_ * (by - ay))
    det = (qx - px) * (by - ay) - (bx - ax) * (qy - py)
    num = (ax - px) * (qy - py) - (ay - py) * (qx - px)
    if not is_num(k):
        return [('NaN only when the segments do not meet or are parallel', Implies(And(kk >= 0, kk <= 1, l >= 0, l <= 1, meet(kk, l)), absr(det) < BIG)),
                ('outputs untouched', And(ptr_target(C, 8, C.post) == ptr_target(C, 8, C.pre), ptr_target(C, 9, C.post) == ptr_target(C, 9, C.pre)))]
    X, Y = ptr_target(C, 8, C.post), ptr_target(C, 9, C.post)
    nx, ny = C.a(8).null, C.a(9).null
    return [('within the first segment', And(k >= 0, k <= 1)),
            ('within the second segment', Implies(l * det == num, And(l >= 0, l <= 1))),
            ('common point', Implies(l * det == num, meet(k, l))),
            ('not parallel', det != 0),
            ('x', Or(nx, X == px + k * (qx - px))), ('y', Or(ny, Y == py + k * (qy - py)))]

def cross(ax, ay, bx, by, cx, cy):
    return (bx - ax) * (cy - ay) - (cx - ax) * (by - ay)

def check_inter(C):
    ax, ay, bx, by, cx, cy, dx, dy = [C.a(i) for i in range(8)]
    s1, s2 = cross(ax, ay, bx, by, cx, cy), cross(ax, ay, bx, by, dx, dy)
    s3, s4 = cross(cx, cy, dx, dy, ax, ay), cross(cx, cy, dx, dy, bx, by)
    opp = lambda u, v: Or(And(u < 0, v > 0), And(u > 0, v < 0))
    return [('only for crossing segments', Implies(C.result, And(opp(s1, s2), opp(s3, s4)))),
            ('for all crossing segments', Implies(And(opp(s1, s2), opp(s3, s4)), C.result))]

def online(C):
    x, y, x1, y1, x2, y2 = [C.a(i) for i in range(6)]
    cr = (x1 - x) * (y2 - y) - (y1 - y) * (x2 - x)
    dot = (x1 - x) * (x2 - x) + (y1 - y) * (y2 - y)
    return [('close to the line and between the ends', C.result == And(absr(cr) < EPS, dot < EPS))]

SPECS = [Spec(N + 'SegmentPointDist', ensures=seg_ens), Spec(N + 'GetDist', 4, ensures=dist4), Spec(N + 'GetDist', 2, ensures=distp, name=N + 'GetDist(points)'),
         Spec(N + 'GetDist', 3, ensures=linedist, name=N + 'GetDist(point, line)'), Spec(N + 'GetArea', 6, ensures=area6), Spec(N + 'GetArea', 3, ensures=areap, name=N + 'GetArea(points)'),
         Spec(N + 'Determinant', 9, ensures=det3), Spec(N + 'GetProjection', ensures=proj), Spec(N + 'GetIntersection', ensures=inter),
         Spec(N + 'CheckIntersection', ensures=check_inter), Spec(N + 'PointOnLine', ensures=online)]

def tasks(P):
    return tasks_of(P, SPECS)

REPLAY = dict(src='p02.cpp', repo=['src/geometry.cpp'], rounds=60000, budget=20,
              rule='pairs of segments and points, mostly on a half-metre grid (axis-parallel, touching and degenerate cases included), compared with long-double formulas')
