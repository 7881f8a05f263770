"""P10 zone position"""
from common import *
import P03
TUS = ['src/position_estimator/position_estimator_zone.cpp', 'src/level.cpp', 'src/level_collector.cpp']
Z = N + 'PositionEstimatorZone::'

def own(C):
    m, src = C.a(0).mTransmitters, C.a(2)
    return lambda i: ksel(m.dom, [C.at(src, i).id.value])
class G10: pass
def filt(C):
    if C.mode != 'assume':
        return P03.filt(C)
    # the same facts with the place each kept measurement came from
    m, src, r = C.a(0).mTransmitters, C.a(1), C.result
    keep = lambda i: ksel(m.dom, [C.at(src, i).id.value])
    inv, rank = z3.Function('CAME', I, I), z3.Function('RANK', I, I)
    i, j, k = z3.Ints('i! j! k!')
    return [('from', ForAll([k], Implies(And(k >= 0, k < r.n), And(inv(k) >= 0, inv(k) < src.n, keep(inv(k)), rank(inv(k)) == k, *[x[plus(r.lo, k)] == y[plus(src.lo, inv(k))] for x, y in zip(r.data, src.data)])), patterns=pats(r, k)[:1])),
            ('all', ForAll([i], Implies(And(i >= 0, i < src.n, keep(i)), And(rank(i) >= 0, rank(i) < r.n, inv(rank(i)) == i, *[x[plus(r.lo, rank(i))] == y[plus(src.lo, i)] for x, y in zip(r.data, src.data)])), patterns=pats(src, i)[:1])),
            ('order', ForAll([j, k], Implies(And(j >= 0, j < k, k < r.n), inv(j) < inv(k)), patterns=[z3.MultiPattern(inv(j), inv(k))])), ('n', r.n >= 0)]
S_F = [s for s in P03.S_LV if s.name.endswith('getLevelRadioMeasurements')][0]
S_FZ = Spec(S_F.qual, ensures=filt, loops=S_F.loops)

def near_setup(C, st):
    """ghosts: HAS - some measurement belongs to the level; NEAREST - the first strongest of those (exists: the list is finite)"""
    C.has, C.near = z3.FreshConst(B, 'HAS'), z3.FreshConst(I, 'NEAREST')
    src, keep, i = C.a(2), own(C), z3.Int('i!')
    n = C.near
    rs = lambda i: C.at(src, i).rssi
    st.pc += [Implies(C.has, And(n >= 0, n < src.n, keep(n))), ForAll([i], Implies(And(i >= 0, i < src.n, keep(i)), And(C.has, rs(i) <= rs(n), Implies(i < n, rs(i) < rs(n)))), patterns=pats(src, i)[:1])]
    st.pc.append(Implies(C.has, pats(src, n)[0] == pats(src, n)[0]))
    x = z3.Real('x!')
    sq, ep = C.ex.ufn('sqrt', R, R), C.ex.ufn('exp', R, R)
    st.pc += [ForAll([x], Implies(x >= 0, sq(x) >= 0), patterns=[sq(x)]), ForAll([x], ep(x) > 0, patterns=[ep(x)])]
def kv(C, m, k):
    return C.ex.step(None, m, ('kv', (k,))).second
def req(C):
    t, lv = C.this, C.a(0)
    L = lv.mId.value
    return P03.lvl_inv(C, lv) + [('the level has its parameters', And(ksel(t.mLogModelParameterA.dom, [L]), ksel(t.mLogModelParameterB.dom, [L]))), ('parameter B is not 0', t.mLogModelParameterB.val[0][L] != 0)]
def zone(C):
    t, t1, lv, src, r = C.this, C.this1, C.a(0), C.a(2), C.result
    L, st1, E = lv.mId.value, C.a1(4), C.ex.P.enums
    NS = [v for n, v in E.items() if n.endswith('NavigationStatus')][0]
    PR = [v for n, v in E.items() if n.endswith('::Provider') or n == 'Provider'][0]
    h, m = C.has, C.at(src, C.near)
    tx = kv(C, lv.mTransmitters, m.id.value)
    A, B_ = t.mLogModelParameterA.val[0][L], t.mLogModelParameterB.val[0][L]
    dev = C.ex.ufn('sqrt', R, R)(C.ex.ufn('exp', R, R)(C.ex.adiv(A - m.rssi, B_))) + 1
    k = z3.Int('k!')
    same = lambda a, b: And(*[ForAll([k], x[k] == y[k]) for x, y in [(a.dom, b.dom)] + list(zip(a.val, b.val))])
    eq = lambda a, b: And(*[x == y for (_, x), (_, y) in zip(vleaves(a), vleaves(b))])
    return [('no measurement of the level: no solution and no position', Implies(Not(h), And(st1 == NS['NO_SOLUTION'], Implies(src.n > 0, r.isEmpty)))),
            ('nothing heard: the initial position is repeated', Implies(src.n == 0, eq(r, t.mPosition))),
            ('otherwise a solution', Implies(h, st1 == NS['OK'])),
            ('the place of the strongest transmitter of the level, the first one on ties', Implies(h, And(r.x == tx.point.x, r.y == tx.point.y))),
            ('deviation from the signal strength', Implies(h, And(r.deviationM == dev, r.deviationM >= 1))),
            ('level, time and provider', Implies(h, And(r.levelId.value == L, r.ts == C.a(1), Not(r.isEmpty), r.provider == PR['INDOOR'], r.heading == 0))),
            ('the estimator does not change', And(eq(t.mPosition, t1.mPosition), same(t.mLogModelParameterA, t1.mLogModelParameterA), same(t.mLogModelParameterB, t1.mLogModelParameterB)))]
S_Z = Spec(Z + 'calculatePosition', abstract=True, setup=near_setup, requires=req, ensures=zone)

# ---- parameters
def lvls(C):
    return C.ex.read(C.pre, C.a(0).to).mLevels
def par(C, m, c, f):
    ls, i = lvls(C), z3.Int('i!')
    L = C.at(ls, i).mId.value
    return ForAll([i], Implies(And(i >= 0, i < c, i < ls.n), And(ksel(m.dom, [L]), m.val[0][L] == getattr(kv(C, C.a(1).levelsSettings, L), f))), patterns=pats(ls, i)[:1])
def ctor_loops(ctx, C):
    out = []
    for nm, p, m in ctx.vals(lambda v: isinstance(v, (MapV, Rec))):
        ms = [m] if isinstance(m, MapV) else [x for x in m.f.values() if isinstance(x, MapV)]
        for n, x in enumerate(ms):
            for c in loop_ints(ctx):
                out += [('%s %s %d %s' % (f, nm, n, c), par(C, x, c, f)) for f in ('normalModeA', 'normalModeB')]
    return out
def ctor_req(C):
    ls, i = lvls(C), z3.Int('i!')
    return [('location is not null', Not(C.a(0).null)), ('every level has settings', ForAll([i], Implies(And(i >= 0, i < ls.n), ksel(C.a(1).levelsSettings.dom, [C.at(ls, i).mId.value])), patterns=pats(ls, i)[:1]))]
def ctor(C):
    r, ls = C.result, lvls(C)
    return [('every level has its parameter A', par(C, r.mLogModelParameterA, ls.n, 'normalModeA')), ('every level has its parameter B', par(C, r.mLogModelParameterB, ls.n, 'normalModeB')), ('no position yet', r.mPosition.isEmpty)]
S_C = Spec(Z + 'PositionEstimatorZone', 2, requires=ctor_req, ensures=ctor, loops=ctor_loops)
def tasks(P):
    return tasks_of(P, [S_FZ, S_C]) + tasks_of(P, [S_Z], [S_FZ])

REPLAY = dict(src='p10.cpp', repo=['src/position_estimator/position_estimator_zone.cpp', 'src/level_collector.cpp', 'src/level.cpp', 'src/level_geometry.cpp', 'src/radiomap.cpp', 'src/point.cpp', 'src/vector3d.cpp'], rounds=20000, budget=15,
              rule='random levels, parameters and measurement lists (ties, foreign transmitters, empty lists); strongest transmitter and deviation recomputed')
ASSUMPTIONS = ['exp is positive, the square root of a nonnegative number is nonnegative', 'the parameter B of a level is not 0 (with 0 the deviation is infinite)']
