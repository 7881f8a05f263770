"""P09 fingerprint (k nearest neighbours) position"""
from common import *
TUS = ['src/knn/knn_utils.cpp', 'src/position_estimator/position_estimator_knn.cpp', 'src/radiomap.cpp', 'src/level_collector.cpp', 'src/level.cpp', 'src/level_geometry.cpp']
K = N + 'PositionEstimatorKnn::'
def ids_of(C, seq):
    names = ['.'.join(p) for p, _ in vleaves(C.at(seq, z3.IntVal(0)))]
    return seq.data[names.index('id.value')]

# ---- white list
def white(C):
    wl, src, r = C.a(0), C.a(1), C.result
    ids, oi = ids_of(C, src), ids_of(C, r)
    i, j = z3.Ints('i! j!')
    same = lambda a, b: And(*[x[plus(r.lo, a)] == y[plus(src.lo, b)] for x, y in zip(r.data, src.data)])
    if C.mode == 'assume':
        C.post.notes += (('wl', r, wl),)
    return [('nothing else is kept', ForAll([i], Implies(And(i >= 0, i < r.n), And(ksel(wl.dom, [oi[plus(r.lo, i)]]), Exists([j], And(j >= 0, j < src.n, same(i, j))))))),
            ('no more than given', And(r.n >= 0, r.n <= src.n)),
            ('every listed one is kept', ForAll([j], Implies(And(j >= 0, j < src.n, ksel(wl.dom, [ids[plus(src.lo, j)]])), Exists([i], And(i >= 0, i < r.n, same(i, j))))))]
S_WL = Spec(N + 'getWhitelistedMeasurements', ensures=white)

# ---- triangle
def wt(C, m, k):
    return If(ksel(m.dom, [k]), m.val[0][k], RV(0))
def tri(C, t):
    return [t.rp1.value, t.rp2.value, t.rp3.value]
def tw(C, m, t):
    a, b, c = [wt(C, m, k) for k in tri(C, t)]
    return a + b + c
EPS = Q(2.220446049250313e-16)
def in_map(C, rm, k):
    return ksel(rm.mReferencePointsIndex.dom, [k])
def rp_at(C, rm, k):
    return C.at(rm.mReferencePoints, rm.mReferencePointsIndex.val[0][k])
def tri_pos(C):
    ts, rm, m, r = C.a(0), C.a(1), C.a(2), C.result
    if C.mode == 'assume':
        C.post.notes += (('pos', r, ('tri', ts, rm, m)),)
        return []
    i = heaviest(C)
    ks = tri(C, C.at(ts, i))
    ws = [wt(C, m, k) for k in ks]
    n = ws[0] + ws[1] + ws[2]
    ps = [rp_at(C, rm, k).point for k in ks]
    ok = And(Not(n < EPS), *[in_map(C, rm, k) for k in ks])
    mean = lambda f: C.ex.adiv(sum((C.ex.amul(w, getattr(p, f)) for w, p in list(zip(ws, ps))[1:]), C.ex.amul(ws[0], getattr(ps[0], f))), n)
    return [('weighted mean of the corners of the heaviest triangle, the first one on ties; the origin if it has no weight (x)', r.x == If(ok, mean('x'), 0)),
            ('weighted mean of the corners of the heaviest triangle, the first one on ties; the origin if it has no weight (y)', r.y == If(ok, mean('y'), 0))]
def heaviest(C):
    """ghost: index of the first triangle of the highest total weight (exists: the list is finite and not empty)"""
    if not hasattr(C, '_hv'):
        C._hv = z3.FreshConst(I, 'HEAVIEST')
    return C._hv
def hv_setup(C, st):
    ts, m, i, j = C.a(0), C.a(2), heaviest(C), z3.Int('j!')
    w = lambda k: tw(C, m, C.at(ts, k))
    st.pc += [i >= 0, i < ts.n, ForAll([j], Implies(And(j >= 0, j < ts.n), And(w(j) <= w(i), Implies(j < i, w(j) < w(i)))), patterns=pats(ts, j)[:1])]
    C.ex.at_best = True
def map_req(C, rm):
    k = z3.Int('k!')
    ix = rm.mReferencePointsIndex
    return ForAll([k], Implies(ksel(ix.dom, [k]), And(ix.val[0][k] >= 0, ix.val[0][k] < rm.mReferencePoints.n)))
S_TRI = Spec(N + 'calcPositionInTriangle', abstract=True, requires=lambda C: [('there is a triangle', C.a(0).n > 0), ('index of the radio map', map_req(C, C.a(1)))], setup=hv_setup, ensures=tri_pos)

# ---- k heaviest
def psc(C):
    n = [x for x in C.post.notes if x[0] == 'psc'] if C.post is not None else []
    return n[-1] if n else None
def wsum(C, w, ks, f, c):
    """ghost: sums over the chosen points of weight*coordinate, and of the weights"""
    F = z3.Function('W' + f, z3.ArraySort(I, R), z3.ArraySort(I, I), I, R)
    return F(w, ks, c)
def chosen(q):
    return q.data[-1], q.data[0]
def wsum_ax(C, rm, w, ks, c):
    p = rp_at(C, rm, ks[c]).point
    out = []
    for f, t in (('x', C.ex.amul(w[c], p.x)), ('y', C.ex.amul(w[c], p.y)), ('n', w[c])):
        out += [wsum(C, w, ks, f, z3.IntVal(0)) == 0, Implies(c >= 0, wsum(C, w, ks, f, c + 1) == wsum(C, w, ks, f, c) + t)]
    return out
def kh_loops(ctx, C):
    rm = C.a(0)
    out = []
    for nm, p, q in [('chosen', None, x[2]) for x in ctx.pre.notes if x[0] == 'psc']:
        w, ks = chosen(q)
        for c in loop_ints(ctx):
            ctx.axioms += wsum_ax(C, rm, w, ks, c)
            for f in 'xyn':
                for lab, pp, acc in ctx.reals():
                    out.append(('sum %s %s %s' % (f, lab, c), acc == wsum(C, w, ks, f, c)))
    return out
def kheavy(C):
    rm, m, k, r = C.a(0), C.a(1), C.a(2), C.result
    n = If(k < m.card, k, m.card)
    if C.mode == 'assume':
        C.post.notes += (('pos', r, ('k', rm, m, k)),)
        return []
    note = psc(C)
    if note is None:
        return [('the k heaviest points are selected', z3.BoolVal(False))]
    q = note[2]
    w, ks = chosen(q)
    i, j = z3.Ints('i! j!')
    x = z3.Const('x!', I)
    return [('as many points as asked for, or all', q.n == n),
            ('each chosen point is a weighted reference point, with its weight', ForAll([i], Implies(And(i >= 0, i < q.n), And(ksel(m.dom, [ks[i]]), m.val[0][ks[i]] == w[i])))),
            ('no point is chosen twice', ForAll([i, j], Implies(And(i >= 0, i < j, j < q.n), ks[i] != ks[j]))),
            ('no point left out is heavier than a chosen one', ForAll([x, i], Implies(And(ksel(m.dom, [x]), i >= 0, i < q.n), Or(m.val[0][x] <= w[i], Exists([j], And(j >= 0, j < q.n, ks[j] == x)))))),
            ('the weighted mean of the chosen points, the origin without weight', And(r.x == If(wsum(C, w, ks, 'n', n) < EPS, 0, C.ex.adiv(wsum(C, w, ks, 'x', n), wsum(C, w, ks, 'n', n))),
                                                                                 r.y == If(wsum(C, w, ks, 'n', n) < EPS, 0, C.ex.adiv(wsum(C, w, ks, 'y', n), wsum(C, w, ks, 'n', n)))))]
def weighted_in_map(C, rm, m):
    k = z3.Int('k!')
    return ForAll([k], Implies(ksel(m.dom, [k]), in_map(C, rm, k)), patterns=[ksel(m.dom, [k])])
S_KH = Spec(N + 'calcKHeaviestRefPointsAverage', abstract=True, requires=lambda C: [('index of the radio map', map_req(C, C.a(0))), ('weighted points are in the radio map', weighted_in_map(C, C.a(0), C.a(1)))], ensures=kheavy, loops=kh_loops)

# ---- trust in transmitters
def flds(C, seq):
    names = ['.'.join(p) for p, _ in vleaves(C.at(seq, z3.IntVal(0)))]
    return dict(zip(names, seq.data))
TR = z3.Function('TRUST', R, R, R)          # trust of a measurement, of its power and signal strength (defined by calculateTransmitterTrustworthiness)
def trust(C):
    m = C.a(0)
    pw = C.ex.ufn('pow', R, R, R)
    p = If(m.power < Q(0.00001), RV(-10), m.power)
    d = pw(RV(10), C.ex.adiv(p - m.rssi, RV(30)))
    t = C.ex.adiv(RV(1), pw(d, Q(1.8)))
    if C.mode == 'assume':
        return [('trust', C.result == TR(m.power, m.rssi)), ('positive', C.result > 0)]
    return [('the strength of the signal relative to one metre, as a distance to the power of -1.8', C.result == t), ('positive', C.result > 0)]
def pow_pos(C, st):
    x, y = z3.Reals('x! y!')
    pw = C.ex.ufn('pow', R, R, R)
    st.pc.append(ForAll([x, y], Implies(x > 0, pw(x, y) > 0), patterns=[pw(x, y)]))
    div_signs(C, st)
TS = z3.Function('TRUSTSUM', I, R)
def tsum_ax(C, src, c):
    f = flds(C, src)
    i = plus(src.lo, c)
    return [TS(z3.IntVal(0)) == 0, Implies(c >= 0, TS(c + 1) == TS(c) + TR(f['power'][i], f['rssi'][i]))]
def last_of(C, src, i, n):
    """no later measurement (before n) of the same transmitter"""
    j = z3.Int('j!')
    ids = flds(C, src)['id.value']
    return ForAll([j], Implies(And(j > i, j < n), ids[plus(src.lo, j)] != ids[plus(src.lo, i)]), patterns=[ids[plus(src.lo, j)]])
def tw_loops(ctx, C):
    src = C.a(0)
    f = flds(C, src)
    ids = f['id.value']
    i, j, k = z3.Ints('i! j! k!')
    T = lambda i: TR(f['power'][plus(src.lo, i)], f['rssi'][plus(src.lo, i)])
    ctx.axioms += [ForAll([i], T(i) > 0, patterns=[T(i)])]
    out = []
    mods = [nm for nm, *_ in ctx.mods]
    for nm, p, m in ctx.vals(lambda v: isinstance(v, MapV)):
        for c in loop_ints(ctx):
            ctx.axioms += tsum_ax(C, src, c)
            for lab, pp, acc in ctx.reals():
                out.append(('sum %s %s' % (lab, c), And(acc == TS(c), acc >= 0, Implies(c > 0, acc > 0))))
            out.append(('heard %s %s' % (nm, c), ForAll([i], Implies(And(i >= 0, i < c, i < src.n), And(ksel(m.dom, [ids[plus(src.lo, i)]]), Or(m.val[0][ids[plus(src.lo, i)]] == T(i), Not(last_of(C, src, i, c))))), patterns=[ids[plus(src.lo, i)]])))
            out.append(('only heard %s %s' % (nm, c), ForAll([k], Implies(ksel(m.dom, [k]), Exists([i], And(i >= 0, i < c, ids[plus(src.lo, i)] == k))), patterns=[ksel(m.dom, [k])])))
            out.append(('positive %s %s' % (nm, c), And(m.card >= 0, Implies(m.card > 0, c > 0), ForAll([k], Implies(ksel(m.dom, [k]), m.val[0][k] > 0), patterns=[ksel(m.dom, [k])]))))
            if not any(nm == x for x in mods):
                pass
            # second loop: those before position c of the map are divided
            arrs, pos = C.ex.enum(ctx.pre, p)
            out.append(('same keys %s %s' % (nm, c), ForAll([k], ksel(m.dom, [k]) == ksel(p.dom, [k]), patterns=[ksel(m.dom, [k])])))
            out.append(('divided %s %s' % (nm, c), ForAll([k], Implies(ksel(p.dom, [k]), m.val[0][k] == If(pos(k) < c, C.ex.adiv(p.val[0][k], TS(src.n)), p.val[0][k])), patterns=[m.val[0][k]])))
            out.append(('still positive %s %s' % (nm, c), ForAll([k], Implies(ksel(p.dom, [k]), m.val[0][k] > 0), patterns=[m.val[0][k]])))
    return out
class G9: pass
def tweights(C):
    src, m = C.a(0), C.result
    f = flds(C, src)
    ids = f['id.value']
    i, k = z3.Ints('i! k!')
    T = lambda i: TR(f['power'][plus(src.lo, i)], f['rssi'][plus(src.lo, i)])
    if C.mode == 'assume':
        G9.tw = m
        return [('w', ForAll([k], Implies(ksel(m.dom, [k]), m.val[0][k] > 0), patterns=[ksel(m.dom, [k])])),
                ('h', ForAll([i], Implies(And(i >= 0, i < src.n), ksel(m.dom, [ids[plus(src.lo, i)]])), patterns=[ids[plus(src.lo, i)]]))]
    return [('every heard transmitter has its trust divided by the sum over all measurements (the last one counts)', ForAll([i], Implies(And(i >= 0, i < src.n, last_of(C, src, i, src.n)),
                And(ksel(m.dom, [ids[plus(src.lo, i)]]), m.val[0][ids[plus(src.lo, i)]] == C.ex.adiv(T(i), TS(src.n)))))),
            ('every heard transmitter has a weight', ForAll([i], Implies(And(i >= 0, i < src.n), ksel(m.dom, [ids[plus(src.lo, i)]])))),
            ('only heard transmitters have one', ForAll([k], Implies(ksel(m.dom, [k]), Exists([i], And(i >= 0, i < src.n, ids[plus(src.lo, i)] == k))))),
            ('weights are positive', ForAll([k], Implies(ksel(m.dom, [k]), m.val[0][k] > 0)))]
S_TT = Spec(N + 'calculateTransmitterTrustworthiness', helper=True, abstract=True, setup=pow_pos, ensures=trust)
S_TWS = Spec(N + 'calcTransmittersWeights', helper=True, abstract=True, setup=pow_pos, ensures=tweights, loops=tw_loops)

# ---- weights of the reference points
# statistics of a reference point: one entry per pair (measurement, fingerprint of its transmitter at that point), in the order of the measurements.
# PC(p, k): fingerprints of point k among the first p of the radio map; CN(c, k): statistics of point k from the first c measurements
PC, CN = z3.Function('PC', I, I, I), z3.Function('CN', I, I, I)
FI, FO, NI, NO = z3.Function('FI', I, I, I, R), z3.Function('FO', I, I, R), z3.Function('NI', I, I, I, R), z3.Function('NO', I, I, R)
def rm_leaves(C):
    """(reference point, mean) arrays of the radio map argument"""
    fp = C.a(0)
    names = ['.'.join(p) for p, _ in vleaves(C.at(fp, z3.IntVal(0)))]
    return fp, fp.data[[n.endswith('first.value') and n.startswith('second') for n in names].index(True)], fp.data[[n.endswith('mean') for n in names].index(True)]
def rng(C, key):
    lb, ub, facts = stdmodel.mm_range(C.ex, C.a(0), key)
    return lb, ub
def slot(C, c, p):
    """place of the pair (measurement c, fingerprint p) among the statistics of its reference point"""
    fp, rp, mean = rm_leaves(C)
    ids = flds(C, C.a(1))['id.value']
    k = rp[plus(fp.lo, p)]
    lb, ub = rng(C, ids[plus(C.a(1).lo, c)])
    return CN(c, k) + PC(p, k) - PC(lb, k)
def stat(C, m, k):
    v = C.ex.step(None, m, ('kv', (k,))).second
    el = lambda i: dict(('.'.join(p), x) for p, x in vleaves(C.at(v, i)))
    return v, el
def placed(C, m, cmax, pend=None):
    """every pair of the measurements before cmax (and of measurement cmax up to fingerprint pend) is in its place"""
    fp, rp, mean = rm_leaves(C)
    src = C.a(1)
    f = flds(C, src)
    c, p = z3.Ints('c! p!')
    k = rp[plus(fp.lo, p)]
    ic = plus(src.lo, c)
    lb, ub = rng(C, f['id.value'][ic])
    v, el = stat(C, m, k)
    e = el(slot(C, c, p))
    done = And(c >= 0, c < cmax, p < ub)
    if pend is not None:
        done = Or(done, And(c == cmax, p < pend, p < ub))
    return ForAll([c, p], Implies(And(done, c < src.n, p >= lb, p < fp.n, p >= 0), And(m.dom[k], slot(C, c, p) >= 0, slot(C, c, p) < v.n,
                  e['txId.value'] == f['id.value'][ic], e['rssiMeasured'] == f['rssi'][ic], e['rssiDatabase'] == mean[plus(fp.lo, p)])),
                  patterns=[z3.MultiPattern(f['id.value'][ic], rp[plus(fp.lo, p)])])
def is_stats(v):
    return isinstance(v, MapV) and v.t.args[1].k == 'seq'
def is_w(v):
    return isinstance(v, MapV) and v.t.args[1].k == 'real' and 'ReferencePoint' in v.t.args[0].name
def pc_ax(C, p):
    fp, rp, mean = rm_leaves(C)
    k = z3.Int('k!')
    return [ForAll([k], PC(z3.IntVal(0), k) == 0, patterns=[PC(z3.IntVal(0), k)]),
            ForAll([k], Implies(And(p >= 0, p < fp.n), PC(p + 1, k) == PC(p, k) + If(rp[plus(fp.lo, p)] == k, 1, 0)), patterns=[PC(p + 1, k)])]
def cn_ax(C, c):
    src = C.a(1)
    lb, ub = rng(C, flds(C, src)['id.value'][plus(src.lo, c)])
    k = z3.Int('k!')
    return [ForAll([k], CN(z3.IntVal(0), k) == 0, patterns=[CN(z3.IntVal(0), k)]),
            ForAll([k], Implies(And(c >= 0, c < src.n), CN(c + 1, k) == CN(c, k) + PC(ub, k) - PC(lb, k)), patterns=[CN(c + 1, k)])]
KNOWN = z3.Function('KNOWN', I, B)      # any set of reference points that contains every one of the radio map
def known_setup(C, st):
    pow_pos(C, st)
    fp, rp, mean = rm_leaves(C)
    p = z3.Int('p!')
    st.pc.append(ForAll([p], Implies(And(p >= 0, p < fp.n), KNOWN(rp[plus(fp.lo, p)])), patterns=[rp[plus(fp.lo, p)]]))
def thr(C):
    return C.a(2)        # difference mode?
MINW = Q(1e-6)
def terms(C, m, k, i, j):
    """(penalty, divisor) of the pair (i, j) of statistics, and of statistic i alone"""
    v, el = stat(C, m, k)
    tw = G9.tw
    w = lambda x: If(ksel(tw.dom, [x]), ksel(tw.val[0], [x]), RV(0))
    a, b = el(i), el(j)
    apw = C.ex.amul(w(a['txId.value']), w(b['txId.value']))
    mx = lambda x: If(x < MINW, MINW, x)
    d2 = mx(C.ex.amul(ar((a['rssiDatabase'] - b['rssiDatabase']) - (a['rssiMeasured'] - b['rssiMeasured'])), apw))
    w1 = w(a['txId.value'])
    d1 = mx(C.ex.amul(ar(a['rssiDatabase'] + a['rssiMeasured']), w1))
    return (d2, apw), (d1, w1)
def ar(x):
    return If(x >= 0, x, -x)
def f_ax(C, m, k, i, j=None):
    z = z3.IntVal(0)
    out = [FO(k, z) == 0, NO(k, z) == 0]
    (d2, n2), (d1, n1) = terms(C, m, k, i, j if j is not None else i)
    out += [FI(k, i, z) == 0, NI(k, i, z) == 0,
            Implies(i >= 0, And(FO(k, i + 1) == FO(k, i) + If(thr(C), FI(k, i, i), d1), NO(k, i + 1) == NO(k, i) + If(thr(C), NI(k, i, i), n1)))]
    if j is not None:
        out += [Implies(j >= 0, And(FI(k, i, j + 1) == FI(k, i, j) + d2, NI(k, i, j + 1) == NI(k, i, j) + n2))]
    return out
EPSW = Q(1e-8)
def final(C, k, n):
    x = If(NO(k, n) > EPSW, C.ex.adiv(FO(k, n), NO(k, n)), FO(k, n))
    return C.ex.adiv(RV(1), C.ex.adiv(C.ex.ufn('sqrt', R, R)(x), z3.ToReal(n)))
def its(st, root=None):
    return [v for r, v in st.store.items() if isinstance(v, It) and (root is None or v.lv.root == root)]
def rpw_loops(ctx, C):
    src = C.a(1)
    fp, rp, mean = rm_leaves(C)
    ids = flds(C, src)['id.value']
    k = z3.Int('k!')
    out = []
    modst = ctx.vals(is_stats)
    cs = loop_ints(ctx)
    n_all = lambda k: CN(src.n, k)
    ws = ctx.vals(is_w)
    if modst and not ws:
        # collecting the statistics
        nm, p, m = modst[0]
        v = lambda k: stat(C, m, k)[0]
        for c in cs:
            ctx.axioms += cn_ax(C, c) + stdmodel.mm_range(C.ex, fp, ids[plus(src.lo, c)])[2]
            out.append(('counted %s' % c, ForAll([k], And(CN(c, k) >= 0, m.dom[k] == (CN(c, k) > 0), Implies(m.dom[k], And(KNOWN(k), v(k).n == CN(c, k)))), patterns=[m.dom[k]])))
            out.append(('counts %s' % c, ForAll([k], CN(c, k) >= 0, patterns=[CN(c, k)])))
            out.append(('placed %s' % c, placed(C, m, c)))
        for o in its(ctx.pre, C.argrefs[1].root):
            c = o.idx
            lb, ub = rng(C, ids[plus(src.lo, c)])
            for q in cs:
                ctx.axioms += pc_ax(C, q)
                d = lambda k: PC(q, k) - PC(lb, k)
                out.append(('range %s' % q, And(q >= lb, q <= ub)))
                out.append(('counted %s %s' % (c, q), ForAll([k], And(d(k) >= 0, m.dom[k] == (CN(c, k) + d(k) > 0), Implies(m.dom[k], And(KNOWN(k), v(k).n == CN(c, k) + d(k)))), patterns=[m.dom[k]])))
                out.append(('counts %s %s' % (c, q), ForAll([k], d(k) >= 0, patterns=[PC(q, k)])))
                out.append(('placed %s %s' % (c, q), placed(C, m, c, q)))
        return out
    for nm, p, t in ctx.vals(lambda v: isinstance(v, MapV)):
        vs = [(a, b) for a, b in zip(p.val, t.val)]
        if p.dom.sort().domain() == I and (not is_w(t) or modst and not p.dom.eq(t.dom)):
            out.append(('same %s' % nm, ForAll([k], And(t.dom[k] == p.dom[k], Implies(p.dom[k], And(*[a[k] == b[k] for a, b in vs]))), patterns=[t.dom[k]])))
            if p.val and p.val[0].sort().range() == R and not is_w(t):
                out.append(('same or zero %s' % nm, ForAll([k], If(t.dom[k], t.val[0][k], RV(0)) == If(p.dom[k], p.val[0][k], RV(0)), patterns=[t.dom[k]])))
    sts = [v for v in ctx.pre.store.values() if is_stats(v)]
    if not sts:
        return out
    m = sts[0]
    n = lambda k: stat(C, m, k)[0].n
    if not modst:
        sroot = [r for r, v in ctx.pre.store.items() if is_stats(v)][0]
        arrs, pos = C.ex.enum(ctx.pre, m)
        outer = [v.pos for v in ctx.pre.store.values() if isinstance(v, MIt) and v.kind == 'pos' and v.lv.root == sroot]
        vecit = [v for v in ctx.cur.store.values() if isinstance(v, It) and v.lv.root == sroot]
        posm = [c for lab, pp, c in ctx.ints() if lab.endswith('.pos')]
        idxm = [c for lab, pp, c in ctx.ints() if lab.endswith('.idx')]
        for nm, p, x in ws:
            for role, O_, I_ in (('penalty', FO, FI), ('divisor', NO, NI)):
                low = (lambda x, e: And(e >= 0, x)) if role == 'penalty' else (lambda x, e: x)
                def done(c, k, extra=None):
                    return And(m.dom[k], pos(k) < c, n(k) >= 3)
                def val_ok(k, e):
                    return And(x.val[0][k] == e, x.val[0][k] >= MINW) if role == 'penalty' else x.val[0][k] == e
                for c in posm:
                    # over the reference points
                    out.append(('%s %s at %s' % (role, nm, c), ForAll([k], And(x.dom[k] == done(c, k), Implies(x.dom[k], val_ok(k, O_(k, n(k))))), patterns=[x.dom[k]])))
                for c in outer:
                    if posm:
                        continue
                    k0 = arrs[0][c]
                    others = ForAll([k], Implies(k != k0, And(x.dom[k] == done(c, k), Implies(x.dom[k], val_ok(k, O_(k, n(k)))))), patterns=[x.dom[k]])
                    out.append(('others %s %s' % (role, nm), others))
                    fixed = [v.idx for v in vecit if not any(v.idx.eq(q) for q in idxm) and z3.is_const(v.idx) and not z3.is_int_value(v.idx)]
                    for q in idxm:
                        # over the statistics of one point (outer index)
                        ctx.axioms += f_ax(C, m, k0, q)
                        has = If(thr(C), q > 1, q > 0)
                        nn = O_(k0, q) >= 0 if role == 'penalty' else z3.BoolVal(True)
                        if not fixed:
                            out.append(('%s %s upto %s' % (role, nm, q), And(nn, x.dom[k0] == has, Implies(has, val_ok(k0, O_(k0, q))), Implies(Not(has), O_(k0, q) == 0))))
                        for i in fixed:
                            ctx.axioms += f_ax(C, m, k0, i, q)
                            has2 = Or(i > 1, q > 0)
                            tot = O_(k0, i) + I_(k0, i, q)
                            nn = And(I_(k0, i, q) >= 0, Implies(q > 0, I_(k0, i, q) >= MINW)) if role == 'penalty' else z3.BoolVal(True)
                            out.append(('%s %s pairs %s %s' % (role, nm, i, q), And(nn, x.dom[k0] == has2, Implies(has2, val_ok(k0, tot)), Implies(Not(has2), tot == 0))))
    for nm, p, x in ws:
        # turning penalties into weights
        arrs, pos = C.ex.enum(ctx.pre, p)
        for c in cs:
            if any(lab.endswith('.idx') for lab, *_ in ctx.mods):
                continue
            fn = final(C, k, n(k))
            out.append(('inverted %s %s' % (nm, c), ForAll([k], And(x.dom[k] == p.dom[k], Implies(p.dom[k], And(x.val[0][k] == If(pos(k) < c, fn, p.val[0][k]), x.val[0][k] > 0))), patterns=[x.dom[k]])))
    return out
def rpw(C):
    src, m = C.a(1), C.result
    k = z3.Int('k!')
    n = CN(src.n, k)
    if C.mode == 'assume':
        C.post.notes += (('rpw', m),)
        fp, rp, mean = rm_leaves(C)
        p = z3.Int('p!')
        return [('pos', ForAll([k], Implies(ksel(m.dom, [k]), And(m.val[0][k] > 0, Exists([p], And(p >= 0, p < fp.n, rp[plus(fp.lo, p)] == k)))), patterns=[ksel(m.dom, [k])]))]
    return [('only points of the radio map have a weight', ForAll([k], Implies(m.dom[k], KNOWN(k)))),
            ('a reference point has a weight exactly with at least three statistics', ForAll([k], m.dom[k] == (n >= 3))),
            ('weights are positive', ForAll([k], Implies(m.dom[k], m.val[0][k] > 0))),
            ('weights follow the formula', ForAll([k], Implies(m.dom[k], m.val[0][k] == final(C, k, n))))]
S_RPW = Spec(N + 'calcRpWeightsKnn', abstract=True, setup=known_setup, ensures=rpw, loops=rpw_loops)

# ---- what a level offers: heard transmitters, radio map, triangles
def lvls(C):
    return C.ex.read(C.pre, C.a(0).to).mLevels
def rps(lv):
    return lv.mRadiomap.mReferencePoints
HEARD = z3.Function('HEARD', I, I, B)      # any relation that holds for (level, transmitter) whenever a reference point of the level has a fingerprint of it
def heard_ax(C, st):
    ls = lvls(C)
    i, r, t = z3.Ints('i! r! t!')
    lv = C.at(ls, i)
    fp = C.at(rps(lv), r).fingerprints
    st.pc.append(ForAll([i, r, t], Implies(And(i >= 0, i < ls.n, r >= 0, r < rps(lv).n, ksel(fp.dom, [t])), HEARD(lv.mId.value, t)), patterns=[z3.MultiPattern(ksel(fp.dom, [t]))]))
def is_sets(v):
    return isinstance(v, MapV) and v.t.args[1].k == 'set'
def rt_state(C, m, c, rr=None):
    """every fingerprint of the levels before c (and of the points before rr of level c) is recorded"""
    ls = lvls(C)
    i, r, t = z3.Ints('i! r! t!')
    lv = C.at(ls, i)
    fp = C.at(rps(lv), r).fingerprints
    inner = C.ex.step(None, m, ('kv', (lv.mId.value,))).second
    done = And(i >= 0, i < c, r < rps(lv).n)
    if rr is not None:
        done = Or(done, And(i == c, r < rr, r < rps(lv).n))
    return ForAll([i, r, t], Implies(And(done, i < ls.n, r >= 0, ksel(fp.dom, [t])), And(ksel(m.dom, [lv.mId.value]), ksel(inner.dom, [t]))), patterns=[ksel(fp.dom, [t])])
def only_heard(C, m):
    x, t = z3.Ints('x! t!')
    inner = C.ex.step(None, m, ('kv', (x,))).second
    return ForAll([x, t], Implies(And(ksel(m.dom, [x]), ksel(inner.dom, [t])), HEARD(x, t)), patterns=[ksel(inner.dom, [t])])
def lvl_idx(ctx, C):
    """the index of the loop over the levels, seen from an inner loop"""
    ls = lvls(C)
    return [v.idx for v in ctx.pre.store.values() if isinstance(v, It) and v.lv.root == C.a(0).to.root and z3.is_const(v.idx) and not z3.is_int_value(v.idx) and not v.idx.eq(ls.n)]
def rt_loops(ctx, C):
    out = []
    for nm, p, m in ctx.vals(is_sets):
        out.append(('only heard %s' % nm, only_heard(C, m)))
        out.append(('not empty %s' % nm, nonempty(C, m)))
        for c in loop_ints(ctx):
            out.append(('recorded %s %s' % (nm, c), rt_state(C, m, c)))
            for o in lvl_idx(ctx, C):
                out.append(('recorded %s %s %s' % (nm, o, c), rt_state(C, m, o, c)))
    return out
def nonempty(C, m):
    x = z3.Int('x!')
    inner = C.ex.step(None, m, ('kv', (x,))).second
    return ForAll([x], Implies(ksel(m.dom, [x]), inner.card > 0), patterns=[ksel(m.dom, [x])])
def ref_tx(C):
    return [('every transmitter in a fingerprint of the level is recorded', rt_state(C, C.result, lvls(C).n)), ('nothing else is recorded', only_heard(C, C.result)), ('no level is recorded without a transmitter', nonempty(C, C.result))]
S_RT = Spec(N + 'getLevelReferenceTransmittersMap', requires=lambda C: [('location is not null', Not(C.a(0).null))], setup=heard_ax, ensures=ref_tx, loops=rt_loops)

# ---- triangles of the levels
# ghosts: number of triangles returned for level i, and the corners of triangle j of level i
TN = z3.Function('TRIS', I, I)
TC = [z3.Function('CORNER%s' % x, I, I, I) for x in 'ABC']
def tv_level(C):
    its = [v for v in C.pre.store.values() if isinstance(v, It) and getattr(C.ex.read(C.pre, v.lv), 't', None) is not None and (C.ex.read(C.pre, v.lv).t.args[0].name or '').endswith('::Level')]
    it = [v for v in its if not v.idx.eq(C.ex.read(C.pre, v.lv).n)][-1]
    return it.idx, C.at(C.ex.read(C.pre, it.lv), it.idx)
def tv_req(C):
    i, lv = tv_level(C)
    vs, ps = C.a(0), rps(lv)
    j = z3.Int('j!')
    v, p = C.at(vs, j), C.at(ps, j)
    w, h = box_wh(C, lv)
    return [('as many vertices as reference points', vs.n == ps.n), ('vertex by vertex', ForAll([j], Implies(And(j >= 0, j < ps.n), And(v.x == p.point.x, v.y == p.point.y, v.id.value == p.id.value)))),
            ('edges up to the larger side of the level', C.a(1) == If(w < h, h, w))]
def box_wh(C, lv):
    b = lv.mGeometry.mBoundingBox
    return b.max_corner.x - b.min_corner.x, b.max_corner.y - b.min_corner.y
def tv(C):
    i, lv = tv_level(C)
    r, j = C.result, z3.Int('j!')
    t = C.at(r, j)
    return [('n', And(r.n == TN(i), r.n >= 0)), ('c', ForAll([j], Implies(And(j >= 0, j < r.n), And(*[getattr(t, m).id.value == f(i, j) for m, f in zip(('mA', 'mB', 'mC'), TC)])), patterns=pats(r, j)[:1]))]
S_TV = Spec(N + 'TriangulateVertices', trusted=True, requires=tv_req, ensures=tv)
def tri_has(C, i):
    return And(rps(C.at(lvls(C), i)).n > 3, TN(i) > 0)
def tri_entry(C, m, i):
    lv = C.at(lvls(C), i)
    s = kv(C, m, lv.mId.value)
    j = z3.Int('j!')
    return Implies(tri_has(C, i), And(s.n == TN(i), ForAll([j], Implies(And(j >= 0, j < s.n), And(*[x == f(i, j) for x, f in zip(tri(C, C.at(s, j)), TC)])))))
def tri_loops(ctx, C):
    ls = lvls(C)
    out = []
    i, j, k = z3.Ints('i! j! k!')
    lid = lambda i: C.at(ls, i).mId.value
    for nm, p, m in ctx.vals(lambda v: isinstance(v, MapV)):
        for c in loop_ints(ctx):
            out.append(('levels %s %s' % (nm, c), ForAll([i], Implies(And(i >= 0, i < ls.n), And(ksel(m.dom, [lid(i)]) == And(i < c, tri_has(C, i)), Implies(i < c, tri_entry(C, m, i)))), patterns=pats(ls, i)[:1])))
            out.append(('only levels %s' % nm, ForAll([k], Implies(ksel(m.dom, [k]), LVL(k)), patterns=[ksel(m.dom, [k])])))
    for nm, p, s in ctx.vals(lambda v: isinstance(v, Seq) and v.t.args[0].k == 'rec'):
        for c in loop_ints(ctx):
            if s.t.args[0].name.endswith('TriangleVertex'):
                for o in lvl_idx(ctx, C):
                    v, q = C.at(s, j), C.at(rps(C.at(ls, o)), j)
                    out.append(('vertices %s %s' % (nm, c), And(s.n == c, ForAll([j], Implies(And(j >= 0, j < c), And(v.x == q.point.x, v.y == q.point.y, v.id.value == q.id.value)), patterns=pats(s, j)[:1]))))
            if s.t.args[0].name.endswith('RefPointsTriangle'):
                for o in lvl_idx(ctx, C):
                    out.append(('corners %s %s' % (nm, c), And(s.n == c, ForAll([j], Implies(And(j >= 0, j < c), And(*[x == f(o, j) for x, f in zip(tri(C, C.at(s, j)), TC)])), patterns=pats(s, j)[:1]))))
    return out
LVL = z3.Function('LEVELID', I, B)      # any set that contains the ids of all levels
def unique_ids(C):
    ls = lvls(C)
    i, j = z3.Ints('i! j!')
    return ForAll([i, j], Implies(And(i >= 0, i < j, j < ls.n), C.at(ls, i).mId.value != C.at(ls, j).mId.value))
def lvl_setup(C, st):
    ls, i = lvls(C), z3.Int('i!')
    st.pc.append(ForAll([i], Implies(And(i >= 0, i < ls.n), LVL(C.at(ls, i).mId.value)), patterns=pats(ls, i)[:1]))
def tris(C):
    ls, m, i, k = lvls(C), C.result, z3.Int('i!'), z3.Int('k!')
    return [('exactly the levels with more than three points and a triangulation have an entry', ForAll([i], Implies(And(i >= 0, i < ls.n), ksel(m.dom, [C.at(ls, i).mId.value]) == tri_has(C, i)))),
            ('an entry holds the triangles of its level', ForAll([i], Implies(And(i >= 0, i < ls.n), tri_entry(C, m, i)))),
            ('only levels have one', ForAll([k], Implies(ksel(m.dom, [k]), LVL(k))))]
S_TS = Spec(N + 'triangulate', requires=lambda C: [('location is not null', Not(C.a(0).null)), ('level ids differ', unique_ids(C))], setup=lvl_setup, ensures=tris, loops=tri_loops)

# ---- position
def eq_v(a, b):
    """the same value, component by component"""
    return And(*[x == y for (p, x), (q, y) in zip(vleaves(a), vleaves(b))])
def kv(C, m, k):
    return C.ex.step(None, m, ('kv', (k,))).second
def cp_req(C):
    t, lv = C.this, C.a(0)
    L = lv.mId.value
    fp = kv(C, t.mLevelsRadiomaps, L)
    names = ['.'.join(p) for p, _ in vleaves(C.at(fp, z3.IntVal(0)))]
    rp = fp.data[[n.endswith('first.value') and n.startswith('second') for n in names].index(True)]
    p = z3.Int('p!')
    return [('the level has transmitters', ksel(t.mLevelReferenceTransmittersMap.dom, [L])), ('the level has a radio map', ksel(t.mLevelsRadiomaps.dom, [L])),
            ('index of the radio map', map_req(C, lv.mRadiomap)),
            ('radio map of the level', ForAll([p], Implies(And(p >= 0, p < fp.n), in_map(C, lv.mRadiomap, rp[plus(fp.lo, p)]))))]
def cp(C):
    t, t1, lv, r = C.this, C.this1, C.a(0), C.result
    L = lv.mId.value
    st1 = C.a1(4)
    E = C.ex.P.enums
    NS = [v for n, v in E.items() if n.endswith('NavigationStatus')][0]
    PR = [v for n, v in E.items() if n.endswith('::Provider') or n == 'Provider'][0]
    notes = C.post.notes
    last = lambda k: [x for x in notes if x[0] == k][-1:] 
    wl, rw, pos = last('wl'), last('rpw'), last('pos')
    repeat = eq_v(r, t.mPosition)
    tm = t.mLevelTriangles
    out = [('the answer is remembered', eq_v(r, t1.mPosition)), ('nothing heard: no solution', Implies(C.a(2).n == 0, And(st1 == NS['NO_SOLUTION'], repeat)))]
    if not wl:
        return out + [('answered without looking at the measurements only if there are none', C.a(2).n == 0)]
    v, ids = wl[0][1], wl[0][2]
    k = z3.Int('k!')
    few = v.n < t.mMinMsrNumForPositionCalculation
    tr = kv(C, tm, L)
    notri = And(t.mUseTriangles, Not(ksel(tm.dom, [L])))
    empty = And(t.mUseTriangles, ksel(tm.dom, [L]), tr.n == 0)
    out += [('measurements are filtered by the transmitters of the level', eq_v(ids, kv(C, t.mLevelReferenceTransmittersMap, L))),
            ('too few measurements: no solution', Implies(few, And(st1 == NS['NO_SOLUTION'], repeat))),
            ('level without triangles: error', Implies(And(Not(few), C.a(2).n > 0, notri), And(st1 == NS['NAVIGATION_ERROR'], repeat))),
            ('empty triangle list', Implies(And(Not(few), C.a(2).n > 0, empty), And(st1 == NS['NO_RPS'], repeat)))]
    if not pos:
        return out + [('no position is calculated only in these cases', Or(few, notri, empty))]
    kind = pos[0][2]
    p = pos[0][1]
    if kind[0] == 'tri':
        out += [('triangles of the level', And(t.mUseTriangles, eq_v(kind[1], tr), eq_v(kind[2], lv.mRadiomap), eq_v(kind[3], rw[0][1])))]
    else:
        out += [('the k heaviest of the level', And(Not(t.mUseTriangles), eq_v(kind[1], lv.mRadiomap), eq_v(kind[2], rw[0][1]), kind[3] == t.mK))]
    return out + [('status', st1 == NS['OK']), ('position of the level', And(r.x == p.x, r.y == p.y, r.levelId.value == L, r.deviationM == 1, r.ts == C.a(1), Not(r.isEmpty), r.provider == PR['INDOOR'], r.heading == 0))]
S_CP = Spec(K + 'calculatePosition', requires=cp_req, ensures=cp)

S_FH = Spec(N + 'func_helper', helper=True, ensures=lambda C: [('the value of the key, or the default', C.result == If(ksel(C.a(0).dom, [C.a(1).value]), C.a(0).val[0][C.a(1).value], C.a(2)))])
S_TW = Spec(N + 'getTriangleWeight', helper=True, ensures=lambda C: [('total weight of the corners', C.result == tw(C, C.a(1), C.a(0)))])
def tasks(P):
    return tasks_of(P, [S_WL, S_FH]) + tasks_of(P, [S_TW, S_TRI], [S_FH, S_TW]) + tasks_of(P, [S_KH, S_TT]) + tasks_of(P, [S_TWS], [S_TT]) + tasks_of(P, [S_RPW], [S_TWS]) + tasks_of(P, [S_RT]) + tasks_of(P, [S_CP], [S_WL, S_RPW, S_TRI, S_KH]) + tasks_of(P, [S_TS], [S_TV])

REPLAY = dict(src='p09.cpp', repo=['src/position_estimator/position_estimator_knn.cpp', 'src/knn/knn_utils.cpp', 'src/triangulation.cpp', 'src/geometry.cpp', 'src/level_collector.cpp', 'src/level.cpp', 'src/level_geometry.cpp', 'src/radiomap.cpp', 'src/point.cpp', 'src/vector3d.cpp'], rounds=3000, budget=20,
              rule='random radio maps, measurement lists and settings, sequences of calls; weights, triangle choice and k heaviest points recomputed independently')
ASSUMPTIONS = ['the level handed to calculatePosition has a radio map with fingerprints (KNN is used with radio-map level detection, which only picks such levels)',
               'pow is positive for positive arguments; quotients and products keep the sign rules used', 'TriangulateVertices is a function of its arguments and its corners come from them (P22)']
TRUSTED = ['TriangulateVertices (its own contract is P22)']
BOUNDED = ['contents of the per-level fingerprint maps built by getLevelsRadiomaps', 'the constructor']
