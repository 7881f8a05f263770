"""P17 complementary filter: the orientation stays a rotation and follows the sensors as stated"""
from common import *
import math
EPS = Q(2.0 ** -52)
PI = Q(3.141592653589793)
CORE = dict(tus=['src/sensor_fusion/complementary_filter.cpp', 'src/sensor_fusion/quaternion.cpp', 'src/vector3d.cpp'], core=True, err='mIntergalError', ki='mKintergalGain', azi='calculateMagneticAzimuth')
ALONE = dict(tus=['standalone_algorithms/complementary_filter/src/complementary_filter.cpp', 'standalone_algorithms/complementary_filter/src/quaternion.cpp', 'standalone_algorithms/complementary_filter/src/vector3d.cpp'], core=False, err='mIntegralError', ki='mKintegralGain', azi='caclulateMagneticAzimuth')
CF, QU, VE = N + 'ComplementaryFilter::', N + 'Quaternion::', N + 'Vector3d::'
# ghosts: a quaternion and a vector scaled to length 1 (or as they are, if they have no length to speak of)
NQ = [z3.Function('NQ_' + c, R, R, R, R, R) for c in 'wxyz']
NV = [z3.Function('NV_' + c, R, R, R, R) for c in 'xyz']
def q4(q):
    return [q.w, q.x, q.y, q.z]
def v3(v):
    return [v.x, v.y, v.z]
def mul(C):
    return C.ex.amul if C.ex.abstract else lambda x, y: x * y
def total(C, xs):
    m = mul(C)
    r = m(xs[0], xs[0])
    for x in xs[1:]:
        r = r + m(x, x)
    return r
def prod(C, a, b):
    m = mul(C)
    return [m(a[0], b[0]) - m(a[1], b[1]) - m(a[2], b[2]) - m(a[3], b[3]), m(a[0], b[1]) + m(a[1], b[0]) + m(a[2], b[3]) - m(a[3], b[2]),
            m(a[0], b[2]) - m(a[1], b[3]) + m(a[2], b[0]) + m(a[3], b[1]), m(a[0], b[3]) + m(a[1], b[2]) - m(a[2], b[1]) + m(a[3], b[0])]
def conj(q):
    return [q[0], -q[1], -q[2], -q[3]]
def rotate(C, q, v):
    """v turned by q"""
    return prod(C, prod(C, q, [RV(0)] + list(v)), conj(q))[1:]
def cross(C, a, b):
    m = mul(C)
    return [m(a[1], b[2]) - m(a[2], b[1]), m(a[2], b[0]) - m(a[0], b[2]), m(a[0], b[1]) - m(a[1], b[0])]
def alleq(xs, ys):
    return And(*[x == y for x, y in zip(xs, ys)])
def unit(C, q):
    return total(C, q4(q)) == 1
def scaled(G, comps):
    def ens(C):
        r, t = comps(C.result), comps(C.this)
        n = total(C, t)
        s = C.ex.ufn('sqrt', R, R)(n)
        if C.mode == 'assume':
            return [('scaled', alleq(r, [g(*t) for g in G])), ('length 1', Implies(n > EPS * EPS, total(C, r) == 1))]
        return [('scaled', If(s > EPS, And(*[x * s == y for x, y in zip(r, t)]), alleq(r, t))), ('length 1', Implies(n > EPS * EPS, total(C, r) == 1))]
    return ens
S_QN = Spec(QU + 'normalized', define=True, ensures=scaled(NQ, q4))
S_VN = Spec(VE + 'normalized', define=True, ensures=scaled(NV, v3))

def turned(C, q, v):
    """q + q v / 2"""
    return [a + b / 2 for a, b in zip(q, prod(C, q, [RV(0)] + list(v)))]
def uq(C):
    q, v, r = q4(C.a(0)), v3(C.a(1)), q4(C.result)
    p = turned(C, q, v)
    out = [('turned and scaled to length 1', alleq(r, [g(*p) for g in NQ]))]
    return out + [('length 1', unit(C, C.result))]
def uq_pre(C):
    return [('a rotation', unit(C, C.a(0)))]
def uq_setup(C, st):
    q, v = q4(C.a(0)), v3(C.a(1))
    n = total(C, v)
    st.pc += [Implies(unit(C, C.a(0)), C.ex.amul(total(C, q), n) == n)] + [C.ex.amul(x, x) >= 0 for x in v]           # both sides multiplied; squares
S_UQ = Spec(N + 'updateQuaternion', abstract='poly', define=True, setup=uq_setup, requires=uq_pre, ensures=uq)


# ---- angles
def euler(C, q):
    m, at = mul(C), C.ex.ufn('atan2', R, R, R)
    w, x, y, z = q
    s = 2 * (m(w, y) - m(z, x))
    return [at(2 * (m(w, x) + m(y, z)), 1 - 2 * (m(x, x) + m(y, y))), If(s >= 1, PI / 2, If(s <= -1, -PI / 2, C.ex.ufn('asin', R, R)(s))), at(2 * (m(w, z) + m(x, y)), 1 - 2 * (m(y, y) + m(z, z)))]
def rng(x, lim):
    return And(x >= -lim, x <= lim)
def to_euler(C):
    r = [C.result.f[k] for k in sorted(C.result.f)]
    e = euler(C, q4(C.this))
    return [('roll', r[0] == e[0]), ('pitch', r[1] == e[1]), ('yaw', r[2] == e[2]), ('roll from -pi to pi', rng(r[0], PI)), ('pitch from -pi/2 to pi/2', rng(r[1], PI / 2)), ('yaw from -pi to pi', rng(r[2], PI))]
S_E = Spec(QU + 'toEuler', abstract='poly', define=True, ensures=to_euler)
DIR = z3.Function('DIRECTION', R, R)       # any function of period 2 pi: equal values of all such functions mean whole turns apart
def pi_loops(ctx, C):
    out = []
    for l, p, c in ctx.reals():
        ctx.axioms += [DIR(c - 2 * PI) == DIR(c), DIR(c + 2 * PI) == DIR(c)]
        out += [('same direction ' + l, DIR(c) == DIR(p)), ('below pi ' + l, c < PI), ('from -pi ' + l, c >= -PI)]
    return out
S_PI = Spec(N + 'to_minus_Pi_Pi', ensures=lambda C: [('from -pi to below pi', And(C.result >= -PI, C.result < PI)), ('the same direction', DIR(C.result) == DIR(C.a(0)))], loops=pi_loops)

# ---- the filter
def filters(V):
    val = (lambda m: m.data.values) if V['core'] else (lambda m: m.values)
    typ = (lambda m: m.data.type) if V['core'] else (lambda m: m.type)
    A, M, G, O = (0, 1, 2, 5)
    err, gain = lambda t: v3(t.f[V['err']]), lambda t: t.f[V['ki']]
    def kept(C, *but):
        t, t1 = C.this, C.this1
        out = []
        for (p, x), (_, y) in zip(vleaves(t), vleaves(t1)):
            if p[0] not in but and z3.is_expr(x) and not x.eq(y):
                out.append(x == y)
        return [('nothing else changes', And(*out))]
    inv = lambda C, t: [('the orientation is a rotation', unit(C, t.mQ))]
    pre = lambda C: inv(C, C.this)
    def upd(C, q, v):
        """the orientation after turning q by v"""
        p = turned(C, q, v)
        return [g(*p) for g in NQ]
    def azimuth(C, q):
        return -euler(C, q)[2]
    def gyro(C):
        t, t1, m = C.this, C.this1, C.a(0)
        dt = z3.ToReal(m.ts - t.mLastGyroTs) / 1000
        v = [mul(C)(g, dt) + mul(C)(e, dt) for g, e in zip(v3(val(m)), err(t))]
        return inv(C, t1) + [('turned by the rate over the time since the last rate', alleq(q4(t1.mQ), upd(C, q4(t.mQ), v))), ('its time is remembered', t1.mLastGyroTs == m.ts)] + (kept(C, 'mQ', 'mLastGyroTs') if C.mode != 'assume' else [])
    def corr(C, e, k):
        """the orientation after correction by error e with gain k, and the error summed"""
        t = C.this
        return upd(C, q4(t.mQ), [mul(C)(k, x) for x in e]), [x + If(gain(t) > Q(1e-8), mul(C)(gain(t), y), 0) for x, y in zip(err(t), e)]
    def accel(C):
        t, t1 = C.this, C.this1
        a = [g(*v3(val(C.a(0)))) for g in NV]
        e = cross(C, a, rotate(C, conj(q4(t.mQ)), [RV(0), RV(0), RV(1)]))
        q, s = corr(C, e, t.mKaccelerometer)
        return inv(C, t1) + [('turned towards the vertical the acceleration shows', alleq(q4(t1.mQ), q)), ('error summed', alleq(err(t1), s))] + (kept(C, 'mQ', V['err']) if C.mode != 'assume' else [])
    S_G = Spec(CF + 'updateUsingGyroscope', abstract='poly', helper=True, define=True, requires=pre, ensures=gyro, modifies=('this.mQ', 'this.mLastGyroTs'))
    S_A = Spec(CF + 'updateUsingAccelerometer', abstract='poly', helper=True, define=True, requires=pre, ensures=accel, modifies=('this.mQ', 'this.' + V['err']))
    def magn_error(C, q, m):
        """error between the field m shows and its direction north and down"""
        g = rotate(C, q, m)
        y = C.ex.ufn('sqrt', R, R)(mul(C)(g[1], g[1]) + mul(C)(g[0], g[0]))
        return cross(C, m, rotate(C, conj(q), [RV(0), y, g[2]]))
    def magn(C, t1=None):
        t, t1 = C.this, t1 or C.this1
        m = [g(*v3(val(C.a(0)))) for g in NV]
        weak = C.ex.ufn('sqrt', R, R)(total(C, m)) < Q(1e-8)
        q, s = corr(C, magn_error(C, q4(t.mQ), m), t.mKmagnetometer)
        return inv(C, t1) + [('no field, no change', Implies(weak, And(alleq(q4(t1.mQ), q4(t.mQ)), alleq(err(t1), err(t))))),
                             ('turned towards the north the field shows', Implies(Not(weak), alleq(q4(t1.mQ), q))), ('error summed', Implies(Not(weak), alleq(err(t1), s)))]
    S_M = Spec(CF + 'updateUsingMagnetometer', abstract='poly', helper=True, define=True, requires=pre, ensures=lambda C: magn(C) + (kept(C, 'mQ', V['err']) if C.mode != 'assume' else []), modifies=('this.mQ', 'this.' + V['err']))
    def azi_ens(C):
        t, r = C.this, C.result
        h = euler(C, q4(t.mQ))[2] / 2
        sn, cs = C.ex.ufn('sin', R, R)(h), C.ex.ufn('cos', R, R)(h)
        q0 = prod(C, [g(sn, RV(0), RV(0), cs) for g in NQ], q4(t.mQ))
        v = rotate(C, q0, [g(*v3(val(C.a(0)))) for g in NV])
        return [('from -pi to below pi', And(r >= -PI, r < PI)), ('direction of the field in the horizontal plane', DIR(r) == DIR(PI / 2 + C.ex.ufn('atan2', R, R, R)(v[1], v[0])))]
    S_Z = Spec(CF + V['azi'], abstract='poly', helper=True, ensures=azi_ens)
    S_FA = Spec(CF + 'getFusedAzimuth', abstract='poly', ensures=lambda C: [('opposite of the yaw', C.result == azimuth(C, q4(C.this.mQ))), ('from -pi to pi', rng(C.result, PI))])
    fo = lambda C: [('angles', alleq([C.result.roll, C.result.pitch, C.result.yaw], euler(C, q4(C.this.mQ)))), ('at the time of the last measurement', C.result.ts == C.this.mCurrentTs)]
    S_FO = Spec(CF + 'getFusedOrientation', abstract='poly', ensures=fo)
    def low(C):
        p, m, r = C.a(0), C.a(1), C.result
        dt = z3.ToReal(m.ts - p.ts) / 1000
        al = C.ex.adiv(RV(1), 1 + If(dt < Q(0.02), Q(0.02), dt))
        return [('between the last and the new', alleq(v3(val(r)), [mul(C)(al, x) + mul(C)(1 - al, y) for x, y in zip(v3(val(p)), v3(val(m)))])), ('time and type of the new', And(r.ts == m.ts, typ(r) == typ(m)))]
    S_LP = Spec(N + 'lowPassFilter', abstract='poly', helper=True, ensures=low)
    def holds(C, f):
        return C.ex.check(list(C.post.pc) + [Not(f)]) == z3.unsat
    def update(C):
        t, t1, m = C.this, C.this1, C.a(0)
        T = typ(m)
        out = inv(C, t1) + [('its time is the current time', t1.mCurrentTs == m.ts)]
        cases = [x for x in (A, M, G, O) if holds(C, T == x)]
        if cases == [A]:
            out += accel(C)[1:3]
        if cases == [G]:
            first = holds(C, t.mLastGyroTs == -1)
            dt = RV(0) if first else z3.ToReal(m.ts - t.mLastGyroTs) / 1000
            v = [mul(C)(g, dt) + mul(C)(e, dt) for g, e in zip(v3(val(m)), err(t))]
            q = upd(C, q4(t.mQ), v)
            out += [('no rate before: %s' % first, z3.BoolVal(True) if first else t.mLastGyroTs != -1), ('turned by the rate over the time since the last rate', alleq(q4(t1.mQ), q)), ('its time is remembered', t1.mLastGyroTs == m.ts)]
            if V['core']:
                out += [('heading of the rates', t1.mGyroHeading == azimuth(C, q))]
        if cases == [M]:
            out += [('the field turns the orientation only before the first rate', Implies(t.mLastGyroTs != -1, And(alleq(q4(t1.mQ), q4(t.mQ)), alleq(err(t1), err(t)))))]
            if holds(C, t.mLastGyroTs == -1):
                out += magn(C)[1:]
            h = euler(C, q4(t1.mQ))[2] / 2
            q0 = prod(C, [g(C.ex.ufn('sin', R, R)(h), RV(0), RV(0), C.ex.ufn('cos', R, R)(h)) for g in NQ], q4(t1.mQ))
            v = rotate(C, q0, [g(*v3(val(m))) for g in NV])
            z = t1.mMagneticAzimuth
            out += [('azimuth from the field', And(z >= -PI, z < PI, DIR(z) == DIR(PI / 2 + C.ex.ufn('atan2', R, R, R)(v[1], v[0]))))]
        if cases == [O]:
            out += [('azimuth of the device', t1.mDeviceAzimuth == val(m).x)] + ([('its time', t1.mLastDeviceAzimuthTs == m.ts)] if V['core'] else [])
        low = {A: ['mAccelLowPassed', 'mQ', V['err']], M: ['mMagnLowPassed', 'mMagneticAzimuth', 'mQ', V['err']], G: ['mQ', 'mLastGyroTs', 'mGyroHeading'], O: ['mDeviceAzimuth', 'mLastDeviceAzimuthTs']}
        return out + [('one kind of sensor at a time', z3.BoolVal(len(cases) <= 1)), ('no unknown sensor', z3.BoolVal(len(cases) == 1) if cases else And(*[T != x for x in low]))] + kept(C, 'mCurrentTs', *(low[cases[0]] if len(cases) == 1 else []))
    S_U = Spec(CF + 'update', abstract='poly', requires=pre, ensures=update)
    out = [([S_G, S_A, S_M], [S_UQ, S_VN, S_QN, S_E]), ([S_Z], [S_VN, S_QN, S_E, S_PI]), ([S_FA, S_FO], [S_E]), ([S_LP], []), ([S_U], [S_G, S_A, S_M, S_Z, S_FA, S_LP])]
    if V['core']:
        out += [([Spec(CF + 'isDeviceAzimuthOutdated', ensures=lambda C: [('older than its lifetime or never given', C.result == Or(z3.ToReal(C.this.mCurrentTs - C.this.mLastDeviceAzimuthTs) / 1000 > C.this.mDeviceAzimuthLifetimeSeconds, C.this.mLastDeviceAzimuthTs == -1))])], [])]
    def ctor(C):
        r = C.result
        return inv(C, r) + [('level, facing north, no rate and no error yet', And(r.mQ.w == 1, r.mLastGyroTs == -1, alleq(err(r), [RV(0)] * 3)))] + ([('no azimuth of the device yet', r.mLastDeviceAzimuthTs == -1)] if V['core'] else [])
    for k in [4] if V['core'] else [0, 3]:
        out += [([Spec(CF + 'ComplementaryFilter', k, abstract='poly', ensures=ctor)], [])]
    return out

def tasks_for(V):
    def tasks(P):
        return tasks_of(P, [S_QN, S_VN]) + tasks_of(P, [S_UQ], [S_QN]) + tasks_of(P, [S_E, S_PI]) + [t for f, c in filters(V) for t in tasks_of(P, f, c)]
    return tasks
GROUPS = [(CORE['tus'], tasks_for(CORE)), (ALONE['tus'], tasks_for(ALONE))]

REPLAY = dict(src='p17.cpp', repo=['src/sensor_fusion/complementary_filter.cpp', 'src/sensor_fusion/quaternion.cpp', 'src/level_collector.cpp', 'src/level.cpp', 'src/level_geometry.cpp', 'src/radiomap.cpp', 'src/point.cpp', 'src/vector3d.cpp'], rounds=60000, budget=20,
              inc=['standalone_algorithms', 'standalone_algorithms/complementary_filter/include'], rule='random gains and messages of all sensors against a filter on rotation matrices, for the core and the standalone copy')
ASSUMPTIONS = ['measurements are finite', 'products are compared as polynomials; sin, cos, asin, atan2 and scaling to length 1 are functions of their operands', 'to_minus_Pi_Pi is proved for when it ends, which it does for moderate angles']
