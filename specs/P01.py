"""P01 geographic <-> local metric conversion"""
from common import *
TUS = ['src/point.cpp']
EQ, PO = Q(40075160.0), Q(40008000.0)
PI = Q(3.141592653589793)

def cosb(ex, lat):
    return ex.ufn('cos', R, R)(lat * PI / 180)

def wrap(l):
    return If(l > 180, l - 360, If(l <= -180, l + 360, l))

def norm_ens(C):
    r, l = C.result, C.a(0)
    return [('same meridian', Or(r == l, r == l - 360, r == l + 360)),
            ('in (-180,180]', Implies(And(l > -540, l <= 540), And(r > -180, r <= 180)))]

def g2l(C):
    p, b, r = C.a(0), C.a(1), C.result
    return [('north component', r.y * 360 == (p.latitude - b.latitude) * PO),
            ('east component', r.x * 360 == wrap(p.longitude - b.longitude) * EQ * cosb(C.ex, b.latitude))]

def pole(C):
    b = C.a(1)
    return [('reference away from the poles', And(b.latitude > -90, b.latitude < 90)),
            ('longitude of the reference', And(b.longitude > -180, b.longitude <= 180))]

def l2g_req(C):
    p = C.a(0)
    c = cosb(C.ex, C.a(1).latitude)
    return pole(C) + [('cos>0', c > 0), ('within half a parallel', And(p.x * 360 <= 180 * EQ * c, p.x * 360 >= -180 * EQ * c))]

def l2g(C):
    p, b, r = C.a(0), C.a(1), C.result
    c = cosb(C.ex, b.latitude)
    d = (r.longitude - b.longitude) * EQ * c
    return [('latitude', (r.latitude - b.latitude) * PO == p.y * 360),
            ('longitude modulo 360', Or(d == p.x * 360, d - 360 * EQ * c == p.x * 360, d + 360 * EQ * c == p.x * 360)),
            ('longitude in (-180,180]', And(r.longitude > -180, r.longitude <= 180))]

S_NORM = Spec(N + 'normalizeLongitude', ensures=norm_ens, helper=True)
S_G2L = Spec(N + 'gpsToLocal', ensures=g2l)
S_L2G = Spec(N + 'localToGps', requires=l2g_req, ensures=l2g)

def geo(L, st, name, lat=90):
    g = L.fresh(st, N + 'GeoPoint', name)
    L.assume(st, g.latitude > -lat, g.latitude < lat, g.longitude > -180, g.longitude <= 180)
    return g

def round_trip(L, st):
    """gps -> local -> gps, over the two contracts"""
    p, b = geo(L, st, 'p'), geo(L, st, 'b')
    stdmodel.trig(L.ex, st, b.latitude * PI / 180)
    L.ready(st)
    pr, br = L.ref(st, p), L.ref(st, b)
    for s, loc in L.call(st, 'gpsToLocal', [pr, br]):
        for s2, g in L.call(s, 'localToGps', [L.ref(s, L.rv(s, loc)), br]):
            g = L.rv(s2, g)
            L.oblige(s2, g.latitude == p.latitude, 'latitude survives the round trip')
            L.oblige(s2, g.longitude == p.longitude, 'longitude survives the round trip')
            L.done(s2)

def round_trip2(L, st):
    """local -> gps -> local"""
    b = geo(L, st, 'b')
    x = L.fresh(st, N + 'XYPoint', 'x')
    stdmodel.trig(L.ex, st, b.latitude * PI / 180)
    c = cosb(L.ex, b.latitude)
    L.assume(st, x.x * 360 < 180 * EQ * c, x.x * 360 > -180 * EQ * c)
    L.ready(st)
    br = L.ref(st, b)
    for s, g in L.call(st, 'localToGps', [L.ref(st, x), br]):
        for s2, y in L.call(s, 'gpsToLocal', [L.ref(s, L.rv(s, g)), br]):
            y = L.rv(s2, y)
            L.oblige(s2, y.y == x.y, 'y survives the round trip')
            L.oblige(s2, y.x == x.x, 'x survives the round trip')
            L.done(s2)

def tasks(P):
    cs = [S_G2L, S_L2G]
    return [Task(P, S_NORM), Task(P, S_G2L), Task(P, S_L2G),
            Lemma(P, 'lemma: geo -> local -> geo is the identity', round_trip, cs),
            Lemma(P, 'lemma: local -> geo -> local is the identity', round_trip2, cs)]

REPLAY = dict(src='p01.cpp', repo=['src/point.cpp'], rounds=40000, budget=20,
              rule='random reference/point pairs including antimeridian, near-pole and identical points; every pair is non-trivial')
