"""P20 sensor fusion: what a measurement tells about the motion"""
from common import *
import P17, P18
TUS = ['src/sensor_fusion/sensor_fusion.cpp', 'src/sensor_fusion/complementary_filter.cpp', 'src/sensor_fusion/quaternion.cpp', 'src/sensor_fusion/pedometer.cpp', 'src/vector3d.cpp']
SF = N + 'SensorFusion::'
# contracts of the parts: consequences of those proved in P17 and P18
FAZ = z3.Function('FUSED_AZIMUTH', R, R, R, R, R)
def inv_p(C):
    return P18.pinv(C.this1)
T_U = Spec(P18.PD + 'update', requires=lambda C: P18.pinv(C.this), ensures=inv_p, modifies=('this',))
def steps(C):
    r, i = C.result, z3.Int('i!')
    C.post.notes += (('steps', r),)
    return [('lengths are not negative', ForAll([i], Implies(And(i >= 0, i < r.n), C.at(r, i).len >= 0)))] + inv_p(C)
T_S = Spec(P18.PD + 'calculateSteps', requires=lambda C: P18.pinv(C.this), ensures=steps, modifies=('this',))
UNIT = z3.Function('ROTATION', R, R, R, R, B)       # length 1, see P17
def rot(t):
    return UNIT(*P17.q4(t.mQ))
T_C = Spec(P17.CF + 'update', requires=lambda C: [('a rotation', rot(C.this))], modifies=('this',),
           ensures=lambda C: [('a rotation', rot(C.this1)), ('clock', C.this1.mCurrentTs == C.a(0).ts), ('lifetime', C.this1.mDeviceAzimuthLifetimeSeconds == C.this.mDeviceAzimuthLifetimeSeconds)])
T_A = Spec(P17.CF + 'getFusedAzimuth', ensures=lambda C: [('azimuth', C.result == FAZ(*P17.q4(C.this.mQ)))])
def inv(t):
    return P18.pinv(t.mPedometer) + [('the orientation is a rotation', rot(t.mComplFilter)), ('steps counted', t.mStepCounter >= 0)]
def loops(ctx, C):
    out = []
    for tag, r in [n for n in ctx.cur.notes if n[0] == 'steps']:
        out += fold_sum(ctx, [('len', r.data[1], r.lo)])
        for c in loop_ints(ctx):
            out.append(('sum not negative', summ(r.data[1], r.lo, c) >= 0))
    return out
def disp(C):
    t, t1, r = C.this, C.this1, C.result
    st = [x for tag, x in C.post.notes if tag == 'steps']
    if len(st) != 1:
        return [('the pedometer is asked once', z3.BoolVal(False))]
    s, f = st[0], t1.mComplFilter
    heading = -FAZ(*P17.q4(f.mQ))
    total = summ(s.data[1], s.lo, s.n)
    step = s.n > 0
    old = Or(z3.ToReal(f.mCurrentTs - f.mLastDeviceAzimuthTs) / 1000 > f.mDeviceAzimuthLifetimeSeconds, f.mLastDeviceAzimuthTs == -1)
    return [('a step is reported when the pedometer found one', r.isStepDetected == step),
            ('the way is the sum of the steps times the multiplier', r.distance == If(step, C.ex.amul(total, t.mStepMultiplier), 0)), ('lengths of steps add up', Implies(step, total >= 0)),
            ('steps are counted', And(t1.mStepCounter == t.mStepCounter + s.n, r.stepCounter == If(step, t.mStepCounter + s.n, 0))),
            ('the time of the last motion', r.lastMotionTs == If(step, C.a(1), 0)),
            ('heading against the fused azimuth', r.heading == heading), ('turn since the last step', And(r.deltaAngle == If(step, heading - t.mPrevHeading, 0), t1.mPrevHeading == If(step, heading, t.mPrevHeading))),
            ('azimuth of the field, or of the device while not outdated', r.azimuth == If(t.mUseCalcAzimuth, f.mMagneticAzimuth, If(old, 0, f.mDeviceAzimuth))), ('valid', r.isAzimuthValid == Or(t.mUseCalcAzimuth, Not(old))),
            ('heading of the rates', r.gyroHeading == f.mGyroHeading)] + [('invariant: ' + n, g) for n, g in inv(t1)]
S_D = Spec(SF + 'calculateDisplacement', abstract=True, requires=lambda C: inv(C.this), loops=loops, ensures=disp)
def ctor(C):
    r, s = C.result, C.a(0).commonSettings
    return [('settings taken over', And(r.mUseCalcAzimuth == s.useCalculatedAzimuth, r.mStepMultiplier == s.stepMultiplier, r.mComplFilter.mDeviceAzimuthLifetimeSeconds == s.deviceAzimuthLifetimeSeconds)), ('nothing counted yet', And(r.mStepCounter == 0, r.mPrevHeading == 0)),
            ('level, facing north', And(r.mComplFilter.mQ.w == 1, r.mComplFilter.mQ.x == 0, r.mComplFilter.mQ.y == 0, r.mComplFilter.mQ.z == 0))] + [('invariant: ' + n, g) for n, g in P18.pinv(r.mPedometer)]
S_C = Spec(SF + 'SensorFusion', 1, abstract=True, ensures=ctor)
def tasks(P):
    return tasks_of(P, [S_C]) + tasks_of(P, [S_D], [T_U, T_S, T_C, T_A])

REPLAY = dict(src='p20.cpp', repo=TUS + ['src/level_collector.cpp', 'src/level.cpp', 'src/level_geometry.cpp', 'src/radiomap.cpp', 'src/point.cpp'], rounds=30000, budget=12,
              rule='random walks with all six sensors against the pedometer and the filter run side by side')
ASSUMPTIONS = ['measurements are finite; the contracts used for the pedometer and the filter are consequences of those proved in P18 and P17', 'the fused azimuth is an uninterpreted function of the quaternion here (P17 says which)', 'fewer than 2^31 steps are counted']
