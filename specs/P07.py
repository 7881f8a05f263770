"""P07 level detection"""
from common import *
import P03
TUS = ['src/level_estimator/level_estimator_transmitters.cpp', 'src/level_estimator/level_estimator_radiomap.cpp', 'src/level.cpp', 'src/knn/knn_utils.cpp', 'src/level_collector.cpp', 'src/radiomap.cpp']
LT, LR = N + 'LevelEstimatorTransmitters::', N + 'LevelEstimatorRadiomap::'
AB = z3.ArraySort(I, B)
AI = z3.ArraySort(I, I)
AR = z3.ArraySort(I, R)
# number of the first c measurements that belong to the level; sum of their signal strengths; sum of their transmitters' A
KC = z3.Function('KCNT', AB, AI, I, I, I)
KS = z3.Function('KSUM', AB, AI, AR, I, I, R)
KA = z3.Function('KSUMA', AB, AI, AR, I, I, R)
SA = z3.Function('SUMA', AR, AI, I, I, R)      # sum of A over a list of ids

def parts(C, seq):
    """(ids, rssi) arrays of a measurement list"""
    t = seq.t.args[0]
    names = [p for p, _ in vleaves(C.at(seq, z3.IntVal(0)))]
    d = {'.'.join(p): a for p, a in zip(names, seq.data)}
    return d['id.value'], d['rssi']

def a_of(C, m):
    """array id -> A of the path-loss model of a level's transmitters"""
    k = z3.Int('k!')
    v = C.ex.step(None, m, ('kv', (k,))).second
    x = v.pathlossModel.A
    return x.arg(0)

def unfold(C, m, src, c):
    ids, rs = parts(C, src)
    lo = src.lo
    A = a_of(C, m)
    z = z3.IntVal(0)
    h = m.dom[ids[plus(lo, c)]]
    return [KC(m.dom, ids, lo, z) == 0, KS(m.dom, ids, rs, lo, z) == 0, KA(m.dom, ids, A, lo, z) == 0,
            Implies(c >= 0, And(KC(m.dom, ids, lo, c + 1) == KC(m.dom, ids, lo, c) + If(h, 1, 0), KC(m.dom, ids, lo, c) >= 0,
                                KS(m.dom, ids, rs, lo, c + 1) == KS(m.dom, ids, rs, lo, c) + If(h, rs[plus(lo, c)], 0),
                                KA(m.dom, ids, A, lo, c + 1) == KA(m.dom, ids, A, lo, c) + If(h, A[ids[plus(lo, c)]], 0)))]

def suma_ax(A, ids, lo, c):
    return [SA(A, ids, lo, z3.IntVal(0)) == 0, Implies(c >= 0, SA(A, ids, lo, c + 1) == SA(A, ids, lo, c) + A[ids[plus(lo, c)]])]

def frame_lemmas():
    """a sum over the first n elements does not depend on the elements behind them (lemma by induction over n)"""
    d, x, k, n = z3.Const('d!', AR), z3.Real('x!'), z3.Int('k!'), z3.Int('n!')
    A, e, y = z3.Const('A!', AR), z3.Const('e!', AI), z3.Int('y!')
    z = z3.IntVal(0)
    return [ForAll([d, x, k, n], Implies(And(n >= 0, k >= n), SUMR(z3.Store(d, k, x), z, n) == SUMR(d, z, n)), patterns=[SUMR(z3.Store(d, k, x), z, n)]),
            ForAll([A, e, y, k, n], Implies(And(n >= 0, k >= n), SA(A, z3.Store(e, k, y), z, n) == SA(A, e, z, n)), patterns=[SA(A, z3.Store(e, k, y), z, n)])]

def filt_loops(ctx, C):
    m, src = C.a(0).mTransmitters, C.a(1)
    A = a_of(C, m)
    out = []
    ids, rs = parts(C, src)
    i = z3.Int('i!')
    for nm, p, v in ctx.vals(lambda v: isinstance(v, Seq) and len(v.data) == len(src.data)):
        oi, orr = parts(C, v)
        ctx.axioms += frame_lemmas() if not ctx.axioms else []
        # definitions of the sums over the growing list, unfolded at its end
        d, x = z3.Const('d!', AR), z3.Real('x!')
        e = z3.Const('e!', AI)
        z = z3.IntVal(0)
        ctx.axioms += [ForAll([d], SUMR(d, z, z) == 0, patterns=[SUMR(d, z, z)]), ForAll([e], SA(A, e, z, z) == 0, patterns=[SA(A, e, z, z)]),
                       ForAll([d], summ(d, 0, v.n + 1) == summ(d, 0, v.n) + d[v.n], patterns=[summ(d, 0, v.n + 1)]),
                       ForAll([e], SA(A, e, z3.IntVal(0), v.n + 1) == SA(A, e, z3.IntVal(0), v.n) + A[e[v.n]], patterns=[SA(A, e, z3.IntVal(0), v.n + 1)])]
        for c in loop_ints(ctx):
            ctx.axioms += unfold(C, m, src, c)
            out += [('cnt %s' % c, And(v.lo == 0, v.n <= c, v.n == KC(m.dom, ids, src.lo, c))), ('sum %s' % c, summ(orr, 0, v.n) == KS(m.dom, ids, rs, src.lo, c)),
                    ('sumA %s' % c, SA(A, oi, z3.IntVal(0), v.n) == KA(m.dom, ids, A, src.lo, c)),
                    ('heard %s' % c, ForAll([i], Implies(And(i >= 0, i < v.n), m.dom[oi[plus(v.lo, i)]]), patterns=[oi[plus(v.lo, i)]]))]
    return out

def filt(C):
    m, src, r = C.a(0).mTransmitters, C.a(1), C.result
    A = a_of(C, m)
    ids, rs = parts(C, src)
    oi, orr = parts(C, r)
    i = z3.Int('i!')
    return [('as many as heard', And(r.lo == 0, r.n >= 0, r.n <= src.n, r.n == KC(m.dom, ids, src.lo, src.n))),
            ('signal strengths of those heard', summ(orr, 0, r.n) == KS(m.dom, ids, rs, src.lo, src.n)),
            ('transmitters of those heard', SA(A, oi, z3.IntVal(0), r.n) == KA(m.dom, ids, A, src.lo, src.n)),
            ('all belong to the level', ForAll([i], Implies(And(i >= 0, i < r.n), m.dom[oi[plus(r.lo, i)]]), patterns=[oi[plus(r.lo, i)]]))]

def mx1(n):
    return z3.ToReal(If(n >= 1, n, 1))

def avg_rssi_loops(ctx, C):
    q = C.a(0)
    return fold_sum(ctx, [('r', parts(C, q)[1], q.lo)])
def avg_rssi(C):
    q = C.a(0)
    return [('mean signal strength', C.result == C.ex.adiv(summ(parts(C, q)[1], q.lo, q.n), mx1(q.n)))]

def avg_a_loops(ctx, C):
    m, q = C.a(0).mTransmitters, C.a(1)
    A, ids = a_of(C, m), parts(C, q)[0]
    out = []
    for c in loop_ints(ctx):
        ctx.axioms += suma_ax(A, ids, q.lo, c)
        for lab, p, acc in ctx.reals():
            out.append(('sumA %s %s' % (lab, c), acc == SA(A, ids, q.lo, c)))
    return out
def avg_a(C):
    m, q = C.a(0).mTransmitters, C.a(1)
    return [('mean reference power', C.result == C.ex.adiv(SA(a_of(C, m), parts(C, q)[0], q.lo, q.n), mx1(q.n)))]
def avg_a_req(C):
    m, q = C.a(0).mTransmitters, C.a(1)
    i = z3.Int('i!')
    ids = parts(C, q)[0]
    return [('all belong to the level', ForAll([i], Implies(And(i >= 0, i < q.n), m.dom[ids[plus(q.lo, i)]]), patterns=[ids[plus(q.lo, i)]]))]

# ---- detection by transmitters
def levels(C):
    return C.ex.read(C.pre, C.this.mLevelIndex.to).mLevels

def tx_am(C):
    if not hasattr(C, '_am'):
        ls, src = levels(C), C.a(0)
        ids, rs = parts(C, src)
        def cnt(i):
            return KC(C.at(ls, i).mTransmitters.dom, ids, src.lo, src.n)
        def cost(i):
            m = C.at(ls, i).mTransmitters
            n = cnt(i)
            avg = C.ex.adiv(KS(m.dom, ids, rs, src.lo, src.n), mx1(n)) + If(C.this.mUseTxPower, C.ex.adiv(KA(m.dom, ids, a_of(C, m), src.lo, src.n), mx1(n)), 0)
            return C.ex.adiv(avg, 1 + C.ex.adiv(Q(0.1) * z3.ToReal(n), z3.ToReal(src.n)))
        C._am = ArgMax(C, 'tx', lambda i: cnt(i) > 0, cost, RV(-1000), ls.n)
    return C._am

def setup_tx(C, st):
    st.pc += tx_am(C).defs
    src, ls = C.a(0), levels(C)
    ids, rs = parts(C, src)
    i = z3.Int('i!')
    m = C.at(ls, i).mTransmitters
    n = KC(m.dom, ids, src.lo, src.n)
    # lemma (by induction over the list): the number heard lies between 0 and the length of the list
    st.pc += [ForAll([i], And(n >= 0, n <= src.n), patterns=[n])]
    div_signs(C, st)

def best_id(C, ls, a, v):
    return v == If(a < 0, C.ex.strcode(''), C.at(ls, a).mId.value)

def tx_loops(ctx, C):
    ls = levels(C)
    def ident(a):
        return [(nm, best_id(C, ls, a, v.value)) for nm, p, v in ctx.vals(lambda v: isinstance(v, Rec) and v.t.k == 'rec' and list(v.f) == ['value'])]
    return tx_am(C).loop(ctx, ident)

def tx_detect(C):
    am, ls = tx_am(C), levels(C)
    a = am.ARG(ls.n)
    return [('the level with the highest cost, the first one on ties, none if no level reaches -1000', And(best_id(C, ls, a, C.result.value), am.facts(ls.n)))]

def loc_req(C):
    return [('level index is not null', Not(C.this.mLevelIndex.null))]

TX_FILED = lambda C: P03.lvl_inv(C, C.a(0))
S_F = Spec(N + 'getLevelRadioMeasurements', ensures=filt, loops=filt_loops)
S_R = Spec(N + 'getAverageRssi', helper=True, abstract=True, ensures=avg_rssi, loops=avg_rssi_loops)
S_A = Spec(N + 'getAverageA', helper=True, abstract=True, requires=avg_a_req, ensures=avg_a, loops=avg_a_loops)
S_T = Spec(LT + 'detectCurrentLevel', abstract=True, requires=loc_req, setup=setup_tx, ensures=tx_detect, loops=tx_loops)

# ---- detection by radio map
PS = z3.Function('PSIM', R, AR, I, I, R)     # prefix sums over the radio map of 1/(||rssi|-|mean||+0.1)
def ar(x):
    return If(x >= 0, x, -x)
def mean_arr(C, fp):
    names = ['.'.join(p) for p, _ in vleaves(C.at(fp, z3.IntVal(0)))]
    return fp.data[[k for k, n in enumerate(names) if n.endswith('mean')][0]]
def rng(C, fp, k):
    lb, ub, facts = stdmodel.mm_range(C.ex, fp, k)
    return lb, ub
def sim(C, r, mean):
    return C.ex.adiv(RV(1), ar(ar(r) - ar(mean)) + Q(0.1))

class WG: pass
def wfun(C):
    if not hasattr(C, '_w'):
        C._w = (z3.Function('WSUM', I, R), z3.Function('WUNI', I, I))
    return C._w
def w_loops(ctx, C):
    src, fp = C.a(0), C.a(1)
    ids, rs = parts(C, src)
    mean = mean_arr(C, fp)
    W, U = wfun(C)
    out = []
    z = z3.IntVal(0)
    for c in loop_ints(ctx):
        # outer loop over the measurements
        lb, ub = rng(C, fp, ids[plus(src.lo, c)])
        r = rs[plus(src.lo, c)]
        sm = PS(r, mean, fp.lo, ub) - PS(r, mean, fp.lo, lb)
        ctx.axioms += [W(z) == 0, U(z) == 0, Implies(c >= 0, And(W(c + 1) == W(c) + If(ub > lb, C.ex.adiv(sm, z3.ToReal(ub - lb)), 0), U(c + 1) == U(c) + If(ub > lb, 1, 0), U(c) >= 0, U(c) <= c))]
        for lab, p, acc in ctx.reals():
            out.append(('weight %s %s' % (lab, c), acc == W(c)))
        for c2 in loop_ints(ctx):
            if not c2.eq(c):
                out.append(('unique %s %s' % (c, c2), c2 == U(c)))
    # inner loop over the range of one transmitter: positions of the multimap, for the measured value of the current measurement
    for r in meas_rssi(ctx, C, src):
        for c in loop_ints(ctx):
            ctx.axioms += [Implies(c >= 0, PS(r, mean, fp.lo, c + 1) == PS(r, mean, fp.lo, c) + sim(C, r, mean[plus(fp.lo, c)]))]
            for lab, p, acc in ctx.reals():
                for lab2, p2, c2 in ctx.ints():
                    if c2.eq(c):
                        out.append(('range %s %s' % (lab, c), acc == p + PS(r, mean, fp.lo, c) - PS(r, mean, fp.lo, p2)))
    return out
def meas_rssi(ctx, C, src):
    """signal strength of the measurement the outer loop looks at: its index is an integer constant of the state before the inner loop"""
    ids, rs = parts(C, src)
    out = []
    for r, v in ctx.pre.store.items():
        if isinstance(v, It) and v.lv.root == C.argrefs[0].root:
            out.append(rs[plus(src.lo, v.idx)])
        elif z3.is_expr(v) and v.sort() == I and z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and 'idx' in v.decl().name():
            out.append(rs[plus(src.lo, v)])
    return out
def weight(C):
    src = C.a(0)
    W, U = wfun(C)
    if C.mode == 'assume':
        return [('weight of a level (a function of its radio map and the measurements)', C.result == wuf(C, src, C.a(1)))]
    return [('similarity of the heard transmitters times their number', C.result == C.ex.amul(W(src.n), z3.ToReal(U(src.n))))]
def wuf(C, src, fp, name='LVLWEIGHT'):
    ls = [l for _, l in vleaves(src)] + [l for _, l in vleaves(fp)]
    return z3.Function(name, *[l.sort() for l in ls], R)(*ls)

S_W = Spec(LR + 'calcWeight', helper=True, abstract=True, ensures=weight, loops=w_loops)
S_KNN = Spec(N + 'calcRpWeightsKnn', trusted=True, ensures=lambda C: knn_cap(C))
def knn_cap(C):
    WG.map = C.result
    return []
def best_rp(C):
    if C.mode == 'assume':
        return [('weight of a level (a function of its radio map and the measurements)', C.result == wuf(C, C.a(0), C.a(1), 'BESTRP'))]
    m, k = WG.map, z3.Int('k!')
    return [('not below any reference point\'s weight, nor below 0', And(C.result >= 0, ForAll([k], Implies(ksel(m.dom, [k]), m.val[0][k] <= C.result)))),
            ('weight of some reference point, or 0', Or(C.result == 0, Exists([k], And(ksel(m.dom, [k]), m.val[0][k] == C.result))))]
def best_rp_loops(ctx, C):
    m, k = WG.map, z3.Int('k!')
    arrs, pos = C.ex.enum(ctx.pre, m)
    i = z3.Int('i!')
    out = []
    for c in loop_ints(ctx):
        for lab, p, b in ctx.reals():
            out.append(('max %s' % c, And(b >= 0, ForAll([i], Implies(And(i >= 0, i < c, i < m.card), m.val[0][arrs[0][i]] <= b), patterns=[arrs[0][i]]))))
            for nm, pp, v in ctx.vals(lambda v: isinstance(v, Rec) and v.t.k == 'rec' and list(v.f) == ['value']):
                out.append(('from %s' % c, Or(b == 0, And(ksel(m.dom, [v.value]), m.val[0][v.value] == b))))
    return out
S_B = Spec(LR + 'calcWeightBestRp', helper=True, ensures=best_rp, loops=best_rp_loops)

def rm_map(C, i):
    ls = levels(C)
    return C.ex.step(None, C.this.mLevelsRadiomaps, ('kv', (C.at(ls, i).mId.value,))).second
def rm_am(C):
    if not hasattr(C, '_am'):
        ls, src = levels(C), C.a(0)
        C._am = ArgMax(C, 'rm', lambda i: z3.BoolVal(True), lambda i: If(C.this.mUseBestRp, wuf(C, src, rm_map(C, i), 'BESTRP'), wuf(C, src, rm_map(C, i))), RV(0), ls.n)
    return C._am
def rm_loops(ctx, C):
    ls = levels(C)
    def ident(a):
        return [(nm, best_id(C, ls, a, v.value)) for nm, p, v in ctx.vals(lambda v: isinstance(v, Rec) and v.t.k == 'rec' and list(v.f) == ['value'])]
    return rm_am(C).loop(ctx, ident)
def rm_detect(C):
    am, ls = rm_am(C), levels(C)
    return [('the level of the highest positive weight, the first one on ties, otherwise none', And(best_id(C, ls, am.ARG(ls.n), C.result.value), am.facts(ls.n)))]
def rm_req(C):
    ls, i = levels(C), z3.Int('i!')
    return loc_req(C) + [('every level has a radio map', ForAll([i], Implies(And(i >= 0, i < ls.n), ksel(C.this.mLevelsRadiomaps.dom, [C.at(ls, i).mId.value])), patterns=pats(ls, i)))]
S_RD = Spec(LR + 'detectCurrentLevel', requires=rm_req, setup=lambda C, st: st.pc.extend(rm_am(C).defs), ensures=rm_detect, loops=rm_loops)

def maps_loops(ctx, C):
    ls = C.ex.read(C.pre, C.a(0).to).mLevels
    i = z3.Int('i!')
    out = []
    for nm, p, v in ctx.vals(lambda v: isinstance(v, MapV)):
        for c in loop_ints(ctx):
            out.append(('filed %s %s' % (nm, c), ForAll([i], Implies(And(i >= 0, i < c, i < ls.n), ksel(v.dom, [C.at(ls, i).mId.value])), patterns=pats(ls, i))))
    return out
def maps(C):
    ls = C.ex.read(C.pre, C.a(0).to).mLevels
    i = z3.Int('i!')
    return [('every level gets a radio map', ForAll([i], Implies(And(i >= 0, i < ls.n), ksel(C.result.dom, [C.at(ls, i).mId.value]))))]
S_M = Spec(N + 'getLevelsRadiomaps', requires=lambda C: [('location is not null', Not(C.a(0).null))], ensures=maps, loops=maps_loops)

def tasks(P):
    return tasks_of(P, [S_F, S_R, S_W, S_M]) + tasks_of(P, [S_A]) + tasks_of(P, [S_T], [S_F, S_R, S_A]) + tasks_of(P, [S_B], [S_KNN]) + tasks_of(P, [S_RD], [S_W, S_B])

REPLAY = dict(src='p07.cpp', repo=['src/level_estimator/level_history.cpp', 'src/level_estimator/barometer.cpp', 'src/level_estimator/level_estimator.cpp', 'src/level_estimator/level_estimator_transmitters.cpp', 'src/level_estimator/level_estimator_radiomap.cpp',
              'src/knn/knn_utils.cpp', 'src/triangulation.cpp', 'src/geometry.cpp', 'src/level_collector.cpp', 'src/level.cpp', 'src/level_geometry.cpp', 'src/radiomap.cpp', 'src/point.cpp', 'src/vector3d.cpp'], rounds=4000, budget=20,
              rule='random locations with transmitters and fingerprints shared between levels and random measurement lists; the cost or weight of every level recomputed independently')
ASSUMPTIONS = ['calcWeight and calcWeightBestRp are functions of their arguments (they read no members)', 'the weights of calcRpWeightsKnn are the subject of P09']
BOUNDED = ['contents of the per-level radio maps built by getLevelsRadiomaps (that every level has one is proved)']
