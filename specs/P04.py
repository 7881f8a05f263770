"""P04 levels are faithful local copies of the geographic levels; the navigation graph stays well formed"""
from common import *
from cv.execu import plus
from cv.stdmodel import geo_fn
TUS = ['src/level.cpp', 'src/radiomap.cpp', 'src/level_collector.cpp', 'src/level_geometry.cpp', 'src/point.cpp']
A = N + '(anonymous)::'
G = N + 'Graph<' + N + 'XYPoint>::'

def uf(C, nm):
    return C.ex.ufn(nm, R, R, R, R, R)

def local(C, lat, lon, ref):
    """gpsToLocal of (lat, lon) about ref (formula and inverse: P01)"""
    a = (lat, lon, ref.latitude, ref.longitude)
    return uf(C, 'g2lx')(*a), uf(C, 'g2ly')(*a)

def is_local(C, pt, lat, lon, ref):
    x, y = local(C, lat, lon, ref)
    return And(pt.x == x, pt.y == y)

S_G2L = Spec(N + 'gpsToLocal', ensures=lambda C: [('a function of its arguments', is_local(C, C.result, C.a(0).latitude, C.a(0).longitude, C.a(1)))])

def conv_loops(src_of, elem):
    """out[0..c) are the converted elements of src"""
    def loops(ctx, C):
        src = src_of(C)
        out = []
        i = z3.Int('i!')
        for lab, pre, c in ctx.ints():
            if lab.endswith('.n') or lab.endswith('.lo') or lab.endswith('.card'):
                continue
            for nm, p, v in ctx.vals(lambda v: isinstance(v, Seq)):
                try:
                    f = elem(C, v, src, i)
                except (AttributeError, KeyError, TypeError, z3.Z3Exception):
                    continue
                out.append(('conv %s %s' % (lab, nm), And(v.n == c, ForAll([i], Implies(And(i >= 0, i < c), f), patterns=[v.data[0][plus(v.lo, i)]]))))
        return out
    return loops

def tx_elem(C, v, src, i):
    t, g = C.at(v, i), C.at(src, i)
    return And(t.id.value == g.id.value, is_local(C, t.point, g.point.latitude, g.point.longitude, C.a(0)),
               t.point.z == C.a(2) + g.point.altitude, t.type == g.type, same_model(t, g))

def same_model(t, g):
    return And(*[a == b for (_, a), (_, b) in zip(vleaves(t.pathlossModel), vleaves(g.pathlossModel))])

def tx_conv(C):
    i = z3.Int('i!')
    r, src = C.result, C.a(1)
    return [('as many transmitters', r.n == src.n),
            ('each converted: id, type and path-loss model kept, x/y local, z = level altitude + own altitude',
             ForAll([i], Implies(And(i >= 0, i < src.n), tx_elem(C, r, src, i)), patterns=[r.data[0][plus(r.lo, i)], src.data[0][plus(src.lo, i)]]))]

def rp_elem(C, v, src, i):
    t, g = C.at(v, i), C.at(src, i)
    same = [a == b for (_, a), (_, b) in zip(vleaves(t.fingerprints), vleaves(g.fingerprints))]
    return And(t.id.value == g.id.value, is_local(C, t.point, g.point.latitude, g.point.longitude, C.a(0)), *same)

def rp_conv(C):
    i = z3.Int('i!')
    r, src = C.result, C.a(1)
    return [('as many reference points', r.n == src.n),
            ('each converted: id and fingerprints kept, point local',
             ForAll([i], Implies(And(i >= 0, i < src.n), rp_elem(C, r, src, i)), patterns=[r.data[0][plus(r.lo, i)], src.data[0][plus(src.lo, i)]]))]

def bbox(C):
    r, b, ref = C.result, C.a(1), C.a(0)
    return [(n, is_local(C, r.f[n], b.f[n].x, b.f[n].y, ref)) for n in ('min_corner', 'max_corner')]

def binding(C):
    b = C.a(0).geometry.mBoundingBox
    mn = lambda x, y: If(x < y, x, y)
    return [('the reference is the south-west corner of the bounding box', And(C.result.latitude == mn(b.min_corner.x, b.max_corner.x),
                C.result.longitude == mn(b.min_corner.y, b.max_corner.y)))]

# ---- graph -------------------------------------------------------------------
def g_inv(C, g):
    i, a, b = z3.Ints('i! a! b!')
    vs = g.mVertices
    return [('vertices are numbered by position', ForAll([i], Implies(And(i >= 0, i < vs.n), C.at(vs, i).id == i), patterns=[vs.data[0][plus(vs.lo, i)]])),
            ('edges are normalised and join existing vertices', ForAll([a, b], Implies(ksel(g.mEdges.dom, [a, b]), And(a >= 0, a <= b, b < vs.n)), patterns=[ksel(g.mEdges.dom, [a, b])])),
            ('fits int', vs.n < 2 ** 31)]

def pre_small(C, g):
    return [('room for one more vertex', g.mVertices.n < 2 ** 31 - 1)]

def add_vertex(C):
    g0, g = C.this.mVertices, C.this1.mVertices
    i = z3.Int('i!')
    last = C.at(g, g0.n)
    return g_inv(C, C.this1) + [('one vertex appended', And(g.n == g0.n + 1, C.result.id == g0.n, last.id == g0.n,
                last.point.x == C.a(0).x, last.point.y == C.a(0).y, C.result.point.x == C.a(0).x, C.result.point.y == C.a(0).y)),
            ('earlier vertices kept', ForAll([i], Implies(And(i >= 0, i < g0.n), And(*[x[plus(g.lo, i)] == y[plus(g0.lo, i)] for x, y in zip(g.data, g0.data)])), patterns=[g.data[0][plus(g.lo, i)]])),
            ('edges kept', same_edges(C.this.mEdges, C.this1.mEdges))]

def same_edges(e0, e1):
    a, b = z3.Ints('a! b!')
    return ForAll([a, b], ksel(e1.dom, [a, b]) == ksel(e0.dom, [a, b]), patterns=[ksel(e1.dom, [a, b])])

def norm(p, q):
    return If(p < q, p, q), If(p < q, q, p)

def add_edge(C):
    a, b = z3.Ints('a! b!')
    p, q = norm(C.a(0), C.a(1))
    e0, e1 = C.this.mEdges, C.this1.mEdges
    g0, g = C.this.mVertices, C.this1.mVertices
    i = z3.Int('i!')
    return g_inv(C, C.this1) + [('exactly this edge is added', ForAll([a, b], ksel(e1.dom, [a, b]) == Or(ksel(e0.dom, [a, b]), And(a == p, b == q)), patterns=[ksel(e1.dom, [a, b])])),
            ('only existing vertices are joined', And(C.a(0) >= 0, C.a(0) < g0.n, C.a(1) >= 0, C.a(1) < g0.n)),
            ('vertices kept', And(g.n == g0.n, ForAll([i], Implies(And(i >= 0, i < g0.n), And(*[x[plus(g.lo, i)] == y[plus(g0.lo, i)] for x, y in zip(g.data, g0.data)])), patterns=[g.data[0][plus(g.lo, i)]])))]

def add_edge_throws(C):
    n = C.this.mVertices.n
    return Not(And(C.a(0) >= 0, C.a(0) < n, C.a(1) >= 0, C.a(1) < n))

S_GR = [Spec(G + 'hasVertex', requires=lambda C: g_inv(C, C.this), ensures=lambda C: [('exactly the existing ids', C.result == And(C.a(0) >= 0, C.a(0) < C.this.mVertices.n))]),
        Spec(G + 'addVertex', requires=lambda C: g_inv(C, C.this) + pre_small(C, C.this), ensures=add_vertex, modifies=('this.mVertices',)),
        Spec(G + 'addEdge', requires=lambda C: g_inv(C, C.this), ensures=add_edge, throws=add_edge_throws, modifies=('this.mEdges',))]

def vert_ok(C, g, geo, c):
    i = z3.Int('i!')
    vs, gs = g.mVertices, geo.mVertices
    return And(vs.n == c, ForAll([i], Implies(And(i >= 0, i < c), is_local(C, C.at(vs, i).point, C.at(gs, i).point.latitude, C.at(gs, i).point.longitude, C.a(0))), patterns=[vs.data[0][plus(vs.lo, i)]]))

def graph_loops(ctx, C):
    geo = C.a(1)
    out = []
    i, a, b = z3.Ints('i! a! b!')
    for nm, p, g in ctx.vals(lambda v: isinstance(v, Rec) and 'mVertices' in v.f):
        for l, f in g_inv(C, g):
            out.append(('g ' + l, f))
        out.append(('all vertices', vert_ok(C, g, geo, geo.mVertices.n)))
        out.append(('no edges yet', ForAll([a, b], Not(ksel(g.mEdges.dom, [a, b])), patterns=[ksel(g.mEdges.dom, [a, b])])))
        out.append(('edges from geo', ForAll([a, b], Implies(ksel(g.mEdges.dom, [a, b]), ksel(geo.mEdges.dom, [a, b])), patterns=[ksel(g.mEdges.dom, [a, b])])))
        arrs, pos = C.ex.enum(ctx.pre, geo.mEdges)
        for lab, pre, c in ctx.ints():
            if lab.endswith('.n') or lab.endswith('.card') or lab.endswith('.lo'):
                continue
            out.append(('vertices ' + lab, vert_ok(C, g, geo, c)))
            out.append(('edges ' + lab, ForAll([a, b], ksel(g.mEdges.dom, [a, b]) == And(ksel(geo.mEdges.dom, [a, b]), pos(a, b) < c), patterns=[ksel(g.mEdges.dom, [a, b])])))
    for nm, p, m in ctx.vals(lambda v: isinstance(v, MapV)):
        out.append(('map all', ForAll([i], Implies(And(i >= 0, i < geo.mVertices.n), And(ksel(m.dom, [i]), m.val[0][i] == i)), patterns=[m.val[0][i], ksel(m.dom, [i])])))
        for lab, pre, c in ctx.ints():
            if lab.endswith('.n') or lab.endswith('.card') or lab.endswith('.lo'):
                continue
            out.append(('map ' + lab, ForAll([i], Implies(And(i >= 0, i < c), And(ksel(m.dom, [i]), m.val[0][i] == i)), patterns=[m.val[0][i]])))
    return out

def graph_conv(C):
    g, geo = C.result, C.a(1)
    a, b = z3.Ints('a! b!')
    return g_inv(C, g) + [('every vertex converted in order', vert_ok(C, g, geo, geo.mVertices.n)),
            ('same edges', ForAll([a, b], ksel(g.mEdges.dom, [a, b]) == ksel(geo.mEdges.dom, [a, b]), patterns=[ksel(g.mEdges.dom, [a, b])]))]

S_HELP = [Spec(A + 'getTransmittersInLocalCoordinates', ensures=tx_conv, loops=conv_loops(lambda C: C.a(1), tx_elem), helper=True),
          Spec(A + 'getRefPointsInLocalCoordinates', ensures=rp_conv, loops=conv_loops(lambda C: C.a(1), rp_elem), helper=True),
          Spec(A + 'getBBoxInLocalCoordinates', ensures=bbox, helper=True),
          Spec(A + 'getGraphInLocalCoordinates', requires=lambda C: g_inv(C, C.a(1)), ensures=graph_conv, loops=graph_loops, helper=True)]
S_BIND = Spec(N + 'getBinding', ensures=binding)

def eqv(a, b):
    """equality of two values of the same type (sequences: same elements)"""
    if isinstance(a, Rec):
        return And(*[eqv(a.f[n], b.f[n]) for n in a.f])
    if isinstance(a, Seq):
        i = z3.Int('i!')
        return And(a.n == b.n, *[ForAll([i], Implies(And(i >= 0, i < a.n), x[plus(a.lo, i)] == y[plus(b.lo, i)]), patterns=[x[plus(a.lo, i)]]) for x, y in zip(a.data, b.data)])
    if isinstance(a, MapV):
        ks = [z3.Const('k!%d' % i, s) for i, s in enumerate(dom_sorts(a.dom.sort()))]
        return ForAll(ks, And(ksel(a.dom, ks) == ksel(b.dom, ks), *[Implies(ksel(a.dom, ks), ksel(x, ks) == ksel(y, ks)) for x, y in zip(a.val, b.val)]), patterns=[ksel(a.dom, ks)])
    if z3.is_expr(a):
        return a == b
    return z3.BoolVal(True)

def dom_sorts(s):
    out = []
    while s.kind() == z3.Z3_ARRAY_SORT:
        out.append(s.domain())
        s = s.range()
    return out

def geom_ctor(C):
    return [('allowed area kept', eqv(C.result.mAllowedArea, C.a(0))), ('bounding box kept', eqv(C.result.mBoundingBox, C.a(1)))]

def off_ax(C, area):
    """ghost: number of inner rings of the polygons before polygon k"""
    off = C.ex.ufn('ring_offset', I, I)
    k = z3.Int('k!')
    nn = C.at(area, k).inners.n
    return off, [off(0) == 0, ForAll([k], Implies(And(k >= 0, k < area.n), off(k + 1) == off(k) + nn), patterns=[off(k + 1)]),
                 ForAll([k], Implies(And(k >= 0, k < area.n), off(k + 1) == off(k) + nn), patterns=[off(k)])]

def ring_eq(C, ring, src, corr):
    w = C.ex.T.build(src.t, geo_fn(C.ex, 'correct', C.ex.T.sorts(src.t), src)) if corr else src
    return And(*[a == b for (_, a), (_, b) in zip(vleaves(ring), vleaves(w))])

def rings_upto(C, rings, area, off, c, corr):
    """rings[off(k)+j] is the j-th inner ring of polygon k, for the first c polygons"""
    k, j = z3.Ints('k! j!')
    inn = C.at(area, k).inners
    return ForAll([k, j], Implies(And(k >= 0, k < c, j >= 0, j < inn.n), And(off(k) >= 0, off(k) + j < rings.n, ring_eq(C, C.at(rings, off(k) + j), C.at(inn, j), corr))),
                  patterns=pats(inn, j))

def env(C, ring):
    return C.ex.T.build(Ty('tup', 'box', (POINT, POINT)), geo_fn(C.ex, 'envelope', [R] * 4, ring))

def tree_ok(C, tree, rings, c, src=False):
    i = z3.Int('i!')
    e = C.at(tree, i)
    return ForAll([i], Implies(And(i >= 0, i < c), And(e.second == i, *[a == b for (_, a), (_, b) in zip(vleaves(e.first), vleaves(env(C, C.at(rings, i))))])), patterns=pats(tree, i) + (pats(rings, i) if src else []))

def geom_ctor_full(C):
    off, ax = off_ax(C, C.a(0))
    r = C.result
    return [('as many barriers as inner rings', Implies(And(*ax), r.mInnerBarriers.n == off(C.a(0).n))),
            ('every inner ring is a barrier', Implies(And(*ax), rings_upto(C, r.mInnerBarriers, C.a(0), off, C.a(0).n, True))),
            ('one index entry per barrier', r.mTree.n == r.mInnerBarriers.n),
            ('each barrier is indexed by its envelope', tree_ok(C, r.mTree, r.mInnerBarriers, r.mTree.n))]

def geom_loops(ctx, C):
    area = C.a(0)
    off, ax = off_ax(C, area)
    ctx.axioms += ax
    out = []
    i = z3.Int('i!')
    rings = [(n, p, v) for n, p, v in ctx.vals(lambda v: isinstance(v, (Rec, Seq)))]
    cands = []
    for n, p, v in rings:
        vs = [(n + '.' + k, p.f[k] if p is not None else None, x) for k, x in v.f.items()] if isinstance(v, Rec) else [(n, p, v)]
        cands += [(n, p, x) for n, p, x in vs if isinstance(x, Seq)]
    ring_c = [(n, p, v) for n, p, v in cands if v.t.args[0].k == 'seq']
    tree_c = [(n, p, v) for n, p, v in cands if v.t.args[0].k == 'tup' and v.t.args[0].name == 'pair']
    cnt = [(l, a, b) for l, a, b in ctx.ints() if not l.endswith(('.n', '.lo', '.card'))]
    for n, p, v in ring_c:
        for l, a, c in cnt:
            out.append(('rings n %s' % l, v.n == off(c)))
            out.append(('rings %s' % l, rings_upto(C, v, area, off, c, False)))
            out.append(('rings bound %s' % l, And(off(c) >= 0, c >= 0)))
            # inner loop over the rings of one polygon: p holds what was there before
            out.append(('in-n %s' % l, v.n == p.n + c - a))
            for kk in ctx_consts(ctx, C):
                inn = C.at(area, kk).inners
                out.append(('in-rings %s %s' % (l, kk), ForAll([i], Implies(And(i >= 0, i < c), ring_eq(C, C.at(v, off(kk) + i), C.at(inn, i), False)), patterns=pats(inn, i))))
            # correction loop
            out.append(('corrected n %s' % l, v.n == p.n))
            out.append(('corrected %s' % l, ForAll([i], Implies(And(i >= 0, i < c), ring_eq(C, C.at(v, i), C.at(p, i), True)), patterns=pats(v, i))))
            out.append(('not yet %s' % l, ForAll([i], Implies(And(i >= c, i < v.n), ring_eq(C, C.at(v, i), C.at(p, i), False)), patterns=pats(v, i))))
            for n2, p2, t in tree_c:
                out.append(('tree n %s %s' % (n2, l), t.n == c))
                out.append(('tree %s %s' % (n2, l), tree_ok(C, t, v, c)))
    return out

def ctx_consts(ctx, C):
    """index of the polygon being visited by the enclosing loop, if any"""
    out = []
    for r, v in ctx.pre.store.items():
        if isinstance(v, It) and z3.is_expr(v.idx) and not z3.is_int_value(v.idx) and not any(r == m[4] for m in ctx.full):
            out.append(v.idx)
    return out

S_GEOM = Spec(N + 'LevelGeometry::LevelGeometry', 2, ensures=geom_ctor)
S_GEOM_FULL = Spec(N + 'LevelGeometry::LevelGeometry', 2, ensures=geom_ctor_full, loops=geom_loops, name='LevelGeometry: barriers')

def rel(C, name, a, b):
    return geo_fn(C.ex, name, [B], a, b)[0]

def touch_pre(C):
    t = C.this
    i = z3.Int('i!')
    e = C.at(t.mTree, i).first
    return [('each barrier is indexed once by its envelope', And(t.mTree.n == t.mInnerBarriers.n, tree_ok(C, t.mTree, t.mInnerBarriers, t.mTree.n, True))),
            ('assumed: what meets a ring meets its envelope', ForAll([i], Implies(And(i >= 0, i < t.mTree.n, rel(C, 'intersects', C.a(0), C.at(t.mInnerBarriers, i))),
                rel(C, 'intersects', C.a(0), e)), patterns=pats(t.mTree, i) + pats(t.mInnerBarriers, i)))]

def leaves_area(C, c):
    k = z3.Int('k!')
    area = C.this.mAllowedArea
    o = C.at(area, k).outer
    return ForAll([k], Implies(And(k >= 0, k < c), Not(rel(C, 'covered_by', C.a(0), o))), patterns=[x for _, x in vleaves(o)])

def touch(C):
    t = C.this
    i = z3.Int('i!')
    return [('true exactly when the path leaves the allowed area or meets an inner ring',
             C.result == Or(leaves_area(C, t.mAllowedArea.n), Exists([i], And(i >= 0, i < t.mInnerBarriers.n, rel(C, 'intersects', C.a(0), C.at(t.mInnerBarriers, i))))))]

def touch_loops(ctx, C):
    out = []
    t = C.this
    k = z3.Int('k!')
    o = C.at(t.mAllowedArea, k).outer
    cnt = [(l, a, b) for l, a, b in ctx.ints() if not l.endswith(('.n', '.lo', '.card'))]
    bools = [(l, b) for l, a, b, ty in ctx.mods if ty == 'bool']
    for l, a, c in cnt:
        for bl, b in bools:
            for s, f in (('', b), ('!', Not(b))):
                out.append(('found%s %s %s' % (s, bl, l), Implies(f, Exists([k], And(k >= 0, k < c, rel(C, 'covered_by', C.a(0), o))))))
                out.append(('none%s %s %s' % (s, bl, l), Implies(Not(f), leaves_area(C, c))))
        out.append(('none so far ' + l, leaves_area(C, c)))
        for r, v in ctx.pre.store.items():
            if isinstance(v, Seq) and v.t.args[0].k == 'tup' and v.t.args[0].name == 'pair':
                e = C.at(v, k).second
                out.append(('no hit %s %s' % (r, l), ForAll([k], Implies(And(k >= 0, k < c), Not(rel(C, 'intersects', C.a(0), C.at(t.mInnerBarriers, e)))), patterns=pats(v, k))))
        out.append(('no ring ' + l, ForAll([k], Implies(And(k >= 0, k < c), Not(rel(C, 'intersects', C.a(0), C.at(t.mInnerBarriers, k)))), patterns=pats(t.mInnerBarriers, k))))
    return out

S_TOUCH = Spec(N + 'LevelGeometry::isPathTouchesBarriers', requires=touch_pre, ensures=touch, loops=touch_loops)

def corrected(b):
    mn, mx = (lambda x, y: If(y < x, y, x)), (lambda x, y: If(y < x, x, y))
    p, q = b.f['min_corner'].f, b.f['max_corner'].f
    return [mn(p['x'], q['x']), mn(p['y'], q['y']), mx(p['x'], q['x']), mx(p['y'], q['y'])]

def geom_box(C, lg, geo, ref):
    b = geo.mBoundingBox
    p, q = b.f['min_corner'].f, b.f['max_corner'].f
    x0, y0 = local(C, p['x'], p['y'], ref)
    x1, y1 = local(C, q['x'], q['y'], ref)
    mn, mx = (lambda x, y: If(y < x, y, x)), (lambda x, y: If(y < x, x, y))
    r = lg.mBoundingBox
    return And(r.min_corner.x == mn(x0, x1), r.min_corner.y == mn(y0, y1), r.max_corner.x == mx(x0, x1), r.max_corner.y == mx(y0, y1))

S_GEOCONV = Spec(A + 'getGeometryInLocalCoordinates', ensures=lambda C: [('the box of the level is the local image of the geographic box', geom_box(C, C.result, C.a(1), C.a(0)))], helper=True)
S_POLY = Spec(A + 'getPolygonInLocalCoordinates', helper=True)

import P03
S_P03 = [s for s in P03.S_RM + P03.S_LV if s.name.endswith(('Radiomap::Radiomap', 'addTransmitters'))]
for s in S_P03:
    s.modifies = ('this.mTransmitters',) if s.name.endswith('addTransmitters') else ()

def add_level(C):
    ls0, ls = C.this.mLevels, C.this1.mLevels
    g = C.a(0)
    i, k, a, b = z3.Ints('i! k! a! b!')
    lv = C.at(ls, ls0.n)
    bd = lv.mBindingPoint
    box = g.geometry.mBoundingBox
    mn = lambda x, y: If(x < y, x, y)
    gt, gr = g.transmitters, g.referencePoints
    D = Ctx_(C, lv, g)
    tx = lv.mTransmitters
    return P03.lc_inv(C, C.this1) + [
        ('one level appended, the earlier ones untouched', And(ls.n == ls0.n + 1, *[ForAll([i], Implies(And(i >= 0, i < ls0.n), x[plus(ls.lo, i)] == y[plus(ls0.lo, i)]), patterns=[x[plus(ls.lo, i)]]) for x, y in zip(ls.data, ls0.data)])),
        ('known by its id', And(lv.mId.value == g.id.value, ksel(C.this1.mLevelsIndices.dom, [g.id.value]))),
        ('bound at the south-west corner', And(bd.latitude == mn(box.min_corner.x, box.max_corner.x), bd.longitude == mn(box.min_corner.y, box.max_corner.y))),
        ('local box', geom_box(C, lv.mGeometry, g.geometry, bd)),
        ('every transmitter filed', ForAll([i], Implies(And(i >= 0, i < gt.n), ksel(tx.dom, [C.at(gt, i).id.value])), patterns=[gt.data[0][plus(gt.lo, i)]])),
        ('filed transmitters are converted ones', ForAll([k], Implies(ksel(tx.dom, [k]), Exists([i], And(i >= 0, i < gt.n, C.at(gt, i).id.value == k,
            tx_same(C, tx, k, C.at(gt, i), bd, g.altitude)))), patterns=[ksel(tx.dom, [k])])),
        ('reference points converted in order', And(lv.mRadiomap.mReferencePoints.n == gr.n, ForAll([i], Implies(And(i >= 0, i < gr.n), And(C.at(lv.mRadiomap.mReferencePoints, i).id.value == C.at(gr, i).id.value,
            is_local(C, C.at(lv.mRadiomap.mReferencePoints, i).point, C.at(gr, i).point.latitude, C.at(gr, i).point.longitude, bd))), patterns=[gr.data[0][plus(gr.lo, i)]]))),
        ('graph vertices converted in order', vert_ok(D, lv.mGraph, g.graph, g.graph.mVertices.n)),
        ('graph edges kept', ForAll([a, b], ksel(lv.mGraph.mEdges.dom, [a, b]) == ksel(g.graph.mEdges.dom, [a, b]), patterns=[ksel(g.graph.mEdges.dom, [a, b])]))]

class Ctx_:
    """vert_ok reads the reference from argument 0"""
    def __init__(self, C, lv, g):
        self.C, self.lv = C, lv
        self.ex, self.at = C.ex, C.at
    def a(self, i):
        return self.lv.mBindingPoint

def tx_same(C, m, k, g, ref, alt):
    t = C.ex.T.build(m.t.args[1], [ksel(x, [k]) for x in m.val])
    return And(t.id.value == g.id.value, is_local(C, t.point, g.point.latitude, g.point.longitude, ref), t.point.z == alt + g.point.altitude, t.type == g.type)

S_ADD = Spec(N + 'LevelCollector::addGeoLevel', requires=lambda C: P03.lc_inv(C, C.this) + g_inv(C, C.a(0).graph), ensures=add_level)

def tasks(P):
    return [Task(P, s, [S_G2L] + S_GR[1:]) for s in S_HELP] + tasks_of(P, S_GR + [S_BIND]) + [
        Task(P, S_GEOM), Task(P, S_GEOM_FULL), Task(P, S_TOUCH), Task(P, S_GEOCONV, [S_G2L, S_HELP[2], S_POLY, S_GEOM]),
        Task(P, S_ADD, [S_G2L, S_GEOCONV] + S_HELP + S_GR[1:] + S_P03 + [S_BIND])]

REPLAY = dict(src='p04.cpp', repo=['src/level_collector.cpp', 'src/level.cpp', 'src/level_geometry.cpp', 'src/radiomap.cpp', 'src/point.cpp'], rounds=2500, budget=24,
              rule='random geographic levels (swapped boxes, inner rings, graphs with invalid edges, duplicate edges) converted and compared field by field with an independent conversion; random paths against rectangular barriers')
