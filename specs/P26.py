"""P26 the standalone position estimation: place of the strongest registered transmitter, smoothed"""
from common import *
D = 'standalone_algorithms/position_estimation/src/'
TUS = [D + 'nearest_transmitter_estimator.cpp', D + 'position_smoother.cpp']
NE, SM = N + 'NearestTransmitterPositionEstimator::', N + 'PositionSmoother::'
LO, HI = Q('0.1'), Q('0.9')
def eq(a, b):
    return And(*[x == y for (_, x), (_, y) in zip(vleaves(a), vleaves(b)) if z3.is_expr(x) and z3.is_expr(y)])
# ---- the smoother
def sinv(t):
    return [('weight of the measurement', And(t.mAlpha >= LO, t.mAlpha <= HI))]
def smooth(C):
    t, t1, r, p = C.this, C.this1, C.result, C.a(0)
    if C.mode == 'assume':
        C.post.notes += (('smoothed', p, r),)
        return []
    last, out, a = t.mPosition, t1.mPosition, t.mAlpha
    mul, div = C.ex.amul, C.ex.adiv
    dt, new = z3.ToReal(p.ts - last.ts) / 1000, p.ts > last.ts
    b = div(mul(a, a), 2 - a)
    px, py = last.x + mul(t.mSpeedX, dt), last.y + mul(t.mSpeedY, dt)
    restart = And(new, Or(Not(t.mWasCalled), dt > 10))
    go = And(new, Not(restart))
    return [('a position that is not newer gives the last one again', Implies(Not(new), And(eq(r, last), eq(out, last), t1.mSpeedX == t.mSpeedX, t1.mSpeedY == t.mSpeedY, t1.mWasCalled == t.mWasCalled))),
            ('a restart takes the position as it is', Implies(restart, And(eq(r, p), eq(out, p), t1.mSpeedX == 0, t1.mSpeedY == 0, t1.mWasCalled))),
            ('otherwise the position comes between prediction and measurement: x', Implies(go, out.x == px + mul(a, p.x - px))), ('y', Implies(go, out.y == py + mul(a, p.y - py))),
            ('the speed follows: x', Implies(go, t1.mSpeedX == t.mSpeedX + mul(div(b, dt), p.x - px))), ('the speed follows: y', Implies(go, t1.mSpeedY == t.mSpeedY + mul(div(b, dt), p.y - py))),
            ('everything else of the position', Implies(go, And(out.precision == p.precision, out.ts == p.ts, out.isEmpty == p.isEmpty, t1.mWasCalled))),
            ('what is remembered comes out', eq(r, out)), ('the weight stays', t1.mAlpha == t.mAlpha)] + [('invariant: ' + n, g) for n, g in sinv(t1)]
S_S = Spec(SM + 'smoothPosition', abstract='poly', requires=lambda C: sinv(C.this), modifies=('this',), ensures=smooth)
def sctor(C):
    r, q = C.result, C.a(0)
    q = If(q < 0, RV(0), If(q > 1, RV(1), q))
    return [('weight of the measurement by the smoothing', r.mAlpha == LO * q + HI * (1 - q)), ('at rest, not called', And(r.mSpeedX == 0, r.mSpeedY == 0, Not(r.mWasCalled), r.mPosition.isEmpty, r.mPosition.ts == -1))] + [('invariant: ' + n, g) for n, g in sinv(r)]
S_SC = Spec(SM + 'PositionSmoother', 1, ensures=sctor)
# ---- registered ones: ghosts - number of registered ones among the first i, place of the k-th registered one
RANK, CAME = z3.Function('RANK', I, I), z3.Function('CAME', I, I)
def keep(C):
    return lambda i: ksel(C.this.m_transmitters.dom, [C.at(C.a(0), i).id])
def fdef(C, c):
    k = keep(C)(c)
    return [Implies(And(c >= 0, c < C.a(0).n), And(RANK(c + 1) == RANK(c) + If(k, 1, 0), Implies(k, CAME(RANK(c)) == c)))]
def same(C, r, k, i):
    return And(*[x[plus(r.lo, k)] == y[plus(C.a(0).lo, i)] for x, y in zip(r.data, C.a(0).data)])
def reg(C, r, c):
    i, j, k = z3.Ints('i! j! k!')
    kp = keep(C)
    return [('number', And(r.n == RANK(c), RANK(c) >= 0)),
            ('only registered ones', ForAll([k], Implies(And(k >= 0, k < r.n), And(CAME(k) >= 0, CAME(k) < c, kp(CAME(k)), RANK(CAME(k)) == k, same(C, r, k, CAME(k)))), patterns=[pats(r, k)[0], CAME(k)])),
            ('all of them', ForAll([i], Implies(And(i >= 0, i < c, kp(i)), And(RANK(i) >= 0, RANK(i) < r.n, CAME(RANK(i)) == i)), patterns=pats(C.a(0), i)[:1])),
            ('in order', ForAll([j, k], Implies(And(j >= 0, j < k, k < r.n), CAME(j) < CAME(k)), patterns=[z3.MultiPattern(CAME(j), CAME(k))]))]
def reg_setup(C, st):
    st.pc += [RANK(z3.IntVal(0)) == 0]
def reg_loops(ctx, C):
    out = []
    for c in loop_ints(ctx):
        ctx.axioms += fdef(C, c)
        for nm, p, r in ctx.vals(lambda v: isinstance(v, Seq)):
            out += [('%s %s %s' % (l, nm, c), f) for l, f in reg(C, r, c)]
    return out
S_R = Spec(NE + 'getRegisteredTransmittersMeasurements', helper=True, setup=reg_setup, loops=reg_loops, ensures=lambda C: reg(C, C.result, C.a(0).n))
# ---- position
def near_setup(C, st):
    """ghosts: HAS - something registered was heard; NEAR - the first strongest of those; LAST - the last of those (they exist: the list is finite)"""
    C.has, C.near, C.last = z3.FreshConst(B, 'HAS'), z3.FreshConst(I, 'NEAR'), z3.FreshConst(I, 'LAST')
    src, kp, i = C.a(0), keep(C), z3.Int('i!')
    n, l = C.near, C.last
    rs = lambda i: C.at(src, i).rssi
    st.pc += [Implies(C.has, And(n >= 0, n < src.n, kp(n), l >= 0, l < src.n, kp(l))), ForAll([i], Implies(And(i >= 0, i < src.n, kp(i)), And(C.has, i <= l, rs(i) <= rs(n), Implies(i < n, rs(i) < rs(n)))), patterns=pats(src, i)[:1])]
    st.pc += [Implies(C.has, pats(src, x)[0] == pats(src, x)[0]) for x in (n, l)]
def kv(C, m, k):
    return C.ex.step(None, m, ('kv', (k,))).second
def position(C):
    t, t1, src, r, h = C.this, C.this1, C.a(0), C.result, C.has
    m = C.at(src, C.near)
    tx = kv(C, t.m_transmitters, m.id)
    ns = [x[1:] for x in C.post.notes if x[0] == 'smoothed']
    mt0, mt1 = t.m_transmitters, t1.m_transmitters
    k = z3.Int('k!')
    out = [('the registry stays', And(*[ForAll([k], x[k] == y[k]) for x, y in [(mt0.dom, mt1.dom)] + list(zip(mt0.val, mt1.val))]))]
    if not ns:
        s0, s1 = t.m_smoother, t1.m_smoother
        return out + [('a position whenever a registered transmitter was heard', Not(h)), ('else none, and nothing changes', And(r.isEmpty, eq(s0, s1)))]
    p, q = ns[0]
    prec = C.ex.ufn('sqrt', R, R)(C.ex.ufn('exp', R, R)((Q('-82') - m.rssi) / Q('3'))) + 1
    return out + [('only for a registered transmitter', h), ('the place of the strongest one, the first on ties', And(p.x == tx.x, p.y == tx.y)), ('precision from its signal', p.precision == prec), ('there is a position', Not(p.isEmpty)),
                  ('time of the last registered measurement', p.ts == C.at(src, C.last).ts), ('smoothed once', And(len(ns) == 1, eq(r, q)))]
S_P = Spec(NE + 'calculatePosition', abstract=True, requires=lambda C: sinv(C.this.m_smoother), setup=near_setup, ensures=position)
# ---- registry
LASTREG = z3.Function('LASTREG', I, I, I)     # place of the last of the first c transmitters with this id
def cdef(C, c, k):
    return LASTREG(c + 1, k) == If(C.at(C.a(0), c).id == k, c, LASTREG(c, k))
def registry(C, m, c):
    k = z3.Int('k!')
    ts = C.a(0)
    tr = lambda k: C.at(ts, LASTREG(c, k))
    v = kv(C, m, k)
    return [('the registered ids', ForAll([k], ksel(m.dom, [k]) == (LASTREG(c, k) >= 0), patterns=[ksel(m.dom, [k])])),
            ('each with its last transmitter', ForAll([k], Implies(LASTREG(c, k) >= 0, And(LASTREG(c, k) < c, v.x == tr(k).x, v.y == tr(k).y, v.id == k)), patterns=[v.x, v.y]))]
def ctor_setup(C, st):
    k = z3.Int('k!')
    st.pc.append(ForAll([k], LASTREG(z3.IntVal(0), k) == -1, patterns=[LASTREG(z3.IntVal(0), k)]))
def ctor_loops(ctx, C):
    out, k = [], z3.Int('k!')
    for c in loop_ints(ctx):
        ctx.axioms.append(Implies(c >= 0, ForAll([k], cdef(C, c, k), patterns=[LASTREG(c + 1, k)])))
        for nm, p, v in ctx.vals(lambda v: isinstance(v, (MapV, Rec))):
            for m in [v] if isinstance(v, MapV) else [x for x in v.f.values() if isinstance(x, MapV)]:
                out += [('%s %s %s' % (l, nm, c), f) for l, f in registry(C, m, c)]
    return out
def ctor(C):
    r = C.result
    return registry(C, r.m_transmitters, C.a(0).n) + [('smoothing of 0.9', r.m_smoother.mAlpha == LO * Q('0.9') + HI * (1 - Q('0.9'))), ('at rest', And(Not(r.m_smoother.mWasCalled), r.m_smoother.mPosition.ts == -1))] + sinv(r.m_smoother)
S_NC = Spec(NE + 'NearestTransmitterPositionEstimator', 1, setup=ctor_setup, loops=ctor_loops, ensures=ctor)
def tasks(P):
    return tasks_of(P, [S_SC, S_S]) + tasks_of(P, [S_R]) + tasks_of(P, [S_P], [S_R, S_S]) + tasks_of(P, [S_NC])

REPLAY = dict(src='p26.cpp', repo=TUS, core=False, inc=['standalone_algorithms/position_estimation/include'], rounds=100000, budget=12,
              rule='random transmitters, ids repeating, and messages with unknown transmitters, ties, old times and gaps of up to 12 s, against a list model with the smoothing filter')
ASSUMPTIONS = ['sqrt and exp, and in the smoother products and quotients of two variables, are uninterpreted functions of their operands in the proofs', 'times of positions are -1 or more']
