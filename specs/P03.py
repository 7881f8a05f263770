"""P03 location model look-ups"""
from common import *
TUS = ['src/level.cpp', 'src/radiomap.cpp', 'src/level_collector.cpp']

def key(idrec):
    return [idrec.value]

# ---- Radiomap ------------------------------------------------------------
def rm_inv(C, rm):
    """class invariant of the radio map"""
    rps, ix = rm.mReferencePoints, rm.mReferencePointsIndex
    i, k = z3.Ints('i! k!')
    j = ksel(ix.val[0], [k])
    return [('index entries point at their reference point', ForAll([k], Implies(ksel(ix.dom, [k]),
                And(j >= 0, j < rps.n, C.at(rps, j).id.value == k)), patterns=[ksel(ix.dom, [k])])),
            ('every reference point is indexed', ForAll([i], Implies(And(i >= 0, i < rps.n), ksel(ix.dom, [C.at(rps, i).id.value])), patterns=[pat(rps, i)]))]

def rm_ctor_loops(ctx, C):
    out = []
    rps = C.a(0)
    i, k = z3.Ints('i! k!')
    for lab, pre, c in ctx.ints():
        if lab.endswith('.card'):
            continue
        for nm, _, v in ctx.vals(lambda v: True):
            ix = v.f.get('mReferencePointsIndex') if isinstance(v, Rec) else v if isinstance(v, MapV) else None
            if not isinstance(ix, MapV):
                continue
            j = ksel(ix.val[0], [k])
            out.append(('idx %s %s' % (lab, nm), ForAll([k], Implies(ksel(ix.dom, [k]), And(j >= 0, j < c, j < rps.n, C.at(rps, j).id.value == k)), patterns=[ksel(ix.dom, [k])])))
            out.append(('all %s %s' % (lab, nm), ForAll([i], Implies(And(i >= 0, i < c), ksel(ix.dom, [C.at(rps, i).id.value])), patterns=[pat(rps, i)])))
    return out

def same_seq(C, a, b):
    i = z3.Int('i!')
    return And(a.n == b.n, *[ForAll([i], Implies(And(i >= 0, i < a.n), x[plus(a.lo, i)] == y[plus(b.lo, i)]), patterns=[x[plus(a.lo, i)]]) for x, y in zip(a.data, b.data)])

def pat(q, i):
    return q.data[0][plus(q.lo, i)]

def plus(a, b):
    from cv.execu import plus as p
    return p(a, b)

def rm_ctor(C):
    rm = C.result
    return rm_inv(C, rm) + [('reference points kept', same_seq(C, rm.mReferencePoints, C.a(0)))]

def has_rp(C):
    return [('finds exactly the indexed ids', C.result == ksel(C.this.mReferencePointsIndex.dom, key(C.a(0))))]

def in_list(C, seq, fid, w):
    """id occurs in the list (w: witness variable)"""
    i = z3.Int('i!')
    return z3.Exists([i], And(i >= 0, i < seq.n, fid(C.at(seq, i)) == w))

def get_rp(C):
    return [('returns the reference point asked for', C.result.id.value == C.a(0).value)]

S_RM = [Spec(N + 'Radiomap::Radiomap', ensures=rm_ctor, loops=rm_ctor_loops),
        Spec(N + 'Radiomap::hasReferencePoint', requires=lambda C: rm_inv(C, C.this), ensures=has_rp),
        Spec(N + 'Radiomap::getReferencePoint', requires=lambda C: rm_inv(C, C.this), ensures=get_rp,
             throws=lambda C: Not(ksel(C.this.mReferencePointsIndex.dom, key(C.a(0)))))]

# ---- Level -----------------------------------------------------------------
def tx_inv(C, m):
    k = z3.Int('k!')
    return ForAll([k], Implies(ksel(m.dom, [k]), m.val[0][k] == k), patterns=[ksel(m.dom, [k])])

def lvl_inv(C, lv):
    return [('transmitters are filed under their id', tx_inv(C, lv.mTransmitters))]

def add_tx_loops(ctx, C):
    txs = C.a(0)
    m0 = C.this.mTransmitters
    m = C.ex.read(ctx.cur, C.thisref).mTransmitters
    i, k = z3.Ints('i! k!')
    out = [('inv', tx_inv(C, m)),
           ('old kept', ForAll([k], Implies(ksel(m0.dom, [k]), And(ksel(m.dom, [k]), *[ksel(a, [k]) == ksel(b, [k]) for a, b in zip(m.val, m0.val)])), patterns=[ksel(m.dom, [k]), ksel(m0.dom, [k])]))]
    for lab, pre, c in ctx.ints():
        out.append(('added ' + lab, ForAll([i], Implies(And(i >= 0, i < c, i < txs.n), ksel(m.dom, [C.at(txs, i).id.value])), patterns=[pat(txs, i)])))
        out.append(('only ' + lab, ForAll([k], Implies(And(ksel(m.dom, [k]), Not(ksel(m0.dom, [k]))),
                   Exists([i], And(i >= 0, i < c, i < txs.n, C.at(txs, i).id.value == k, *[ksel(a, [k]) == x[plus(txs.lo, i)] for a, x in zip(m.val, txs.data)]))), patterns=[ksel(m.dom, [k])])))
    return out

def add_tx(C):
    txs = C.a(0)
    m0, m = C.this.mTransmitters, C.this1.mTransmitters
    i, k = z3.Ints('i! k!')
    return [('inv', tx_inv(C, m)),
            ('every transmitter added', ForAll([i], Implies(And(i >= 0, i < txs.n), ksel(m.dom, [C.at(txs, i).id.value])), patterns=[pat(txs, i)])),
            ('earlier transmitters kept unchanged', ForAll([k], Implies(ksel(m0.dom, [k]), And(ksel(m.dom, [k]), *[ksel(a, [k]) == ksel(b, [k]) for a, b in zip(m.val, m0.val)])), patterns=[ksel(m.dom, [k])])),
            ('nothing else appears', ForAll([k], Implies(And(ksel(m.dom, [k]), Not(ksel(m0.dom, [k]))),
                Exists([i], And(i >= 0, i < txs.n, *[ksel(a, [k]) == x[plus(txs.lo, i)] for a, x in zip(m.val, txs.data)]))), patterns=[ksel(m.dom, [k])]))]

def filt_loops(ctx, C):
    """out is the stable filter of in[0..c)"""
    m = C.a(0).mTransmitters
    src = C.a(1)
    keep = lambda i: ksel(m.dom, [C.at(src, i).id.value])
    return filter_inv(ctx, C, src, keep)

def filter_inv(ctx, C, src, keep):
    out = []
    rank = filt_rank(C, src, keep)
    i = z3.Int('i!')
    for lab, pre, c in ctx.ints():
        if lab.endswith('.n') or lab.endswith('.lo'):
            continue
        for nm, p, v in ctx.vals(lambda v: isinstance(v, Seq)):
            if len(v.data) != len(src.data):
                continue
            out.append(('filter %s %s' % (lab, nm), And(v.n == rank(c), ForAll([i], Implies(And(i >= 0, i < c, keep(i)),
                        And(rank(i) >= 0, rank(i) < v.n, *[x[plus(v.lo, rank(i))] == y[plus(src.lo, i)] for x, y in zip(v.data, src.data)])), patterns=[rank(i)]))))
        ctx.axioms += rank_ax(rank, c, keep)
    return out

def filt_rank(C, src, keep):
    if not hasattr(C, '_rank'):
        C._rank = {}
    key_ = src.data[0].get_id()
    if key_ not in C._rank:
        C._rank[key_] = z3.Function('rank%d' % len(C._rank), I, I)
    return C._rank[key_]

def rank_ax(rank, c, keep):
    """rank(i) = number of kept elements before i: definition unfolded at c, plus monotonicity (a lemma by induction)"""
    i, j = z3.Ints('i! j!')
    return [rank(z3.IntVal(0)) == 0, rank(c + 1) == rank(c) + If(keep(c), 1, 0),
            ForAll([i], Implies(i >= 0, And(rank(i) >= 0, rank(i) <= i)), patterns=[rank(i)]),
            ForAll([i, j], Implies(And(0 <= i, i < j), And(rank(i) <= rank(j), Implies(keep(i), rank(i) < rank(j)))), patterns=[z3.MultiPattern(rank(i), rank(j))])]

def filt(C):
    m = C.a(0).mTransmitters
    src, r = C.a(1), C.result
    keep = lambda i: ksel(m.dom, [C.at(src, i).id.value])
    rank = filt_rank(C, src, keep)
    i = z3.Int('i!')
    return [('as many as heard from this level', r.n == rank(src.n)),
            ('each kept measurement at its rank, unchanged', ForAll([i], Implies(And(i >= 0, i < src.n, keep(i)),
                And(rank(i) < r.n, *[x[plus(r.lo, rank(i))] == y[plus(src.lo, i)] for x, y in zip(r.data, src.data)])), patterns=[rank(i)]))]

S_LV = [Spec(N + 'Level::containsTransmitter', ensures=lambda C: [('exactly the filed ids', C.result == ksel(C.this.mTransmitters.dom, key(C.a(0))))]),
        Spec(N + 'Level::transmitter', requires=lambda C: lvl_inv(C, C.this), ensures=lambda C: [('the transmitter asked for', C.result.id.value == C.a(0).value)],
             throws=lambda C: Not(ksel(C.this.mTransmitters.dom, key(C.a(0))))),
        Spec(N + 'Level::addTransmitters', requires=lambda C: lvl_inv(C, C.this), ensures=add_tx, loops=add_tx_loops),
        Spec(N + 'getLevelRadioMeasurements', ensures=filt, loops=filt_loops)]

# ---- LevelCollector ---------------------------------------------------------
def lc_inv(C, lc):
    ls, ix = lc.mLevels, lc.mLevelsIndices
    i, k = z3.Ints('i! k!')
    j = ksel(ix.val[0], [k])
    return [('index entries point at their level', ForAll([k], Implies(ksel(ix.dom, [k]), And(j >= 0, j < ls.n, C.at(ls, j).mId.value == k)), patterns=[ksel(ix.dom, [k])])),
            ('every level is indexed', ForAll([i], Implies(And(i >= 0, i < ls.n), ksel(ix.dom, [C.at(ls, i).mId.value])), patterns=[pat(ls, i)]))]

def find_tx_loops(ctx, C):
    ls, t = C.this.mLevels, C.a(0).value
    i = z3.Int('i!')
    return [('none before ' + lab, ForAll([i], Implies(And(i >= 0, i < c), Not(ksel(C.at(ls, i).mTransmitters.dom, [t]))), patterns=[pat(ls, i)]))
            for lab, pre, c in ctx.ints()]

def find_tx(C):
    ls, t, r = C.this.mLevels, C.a(0).value, C.result
    i, j = z3.Ints('i! j!')
    has = lambda i: ksel(C.at(ls, i).mTransmitters.dom, [t])
    return [('nothing only if no level knows the transmitter', Or(r.has, ForAll([i], Implies(And(i >= 0, i < ls.n), Not(has(i)))))),
            ('the first level that knows it', Implies(r.has, Exists([i], And(i >= 0, i < ls.n, has(i), C.at(ls, i).mId.value == r.val.value,
                ForAll([j], Implies(And(j >= 0, j < i), Not(has(j))))))))]

S_LC = [Spec(N + 'LevelCollector::hasLevel', ensures=lambda C: [('exactly the indexed ids', C.result == ksel(C.this.mLevelsIndices.dom, key(C.a(0))))]),
        Spec(N + 'LevelCollector::level', requires=lambda C: lc_inv(C, C.this), ensures=lambda C: [('the level asked for', C.result.mId.value == C.a(0).value)],
             throws=lambda C: Not(ksel(C.this.mLevelsIndices.dom, key(C.a(0))))),
        Spec(N + 'LevelCollector::findLevelByTransmitterId', ensures=find_tx, loops=find_tx_loops)]

def tasks(P):
    return tasks_of(P, S_RM + S_LV + S_LC)

REPLAY = dict(src='p03.cpp', repo=['src/level_collector.cpp', 'src/level.cpp', 'src/level_geometry.cpp', 'src/radiomap.cpp', 'src/point.cpp'], rounds=3000, budget=20,
              rule='random locations of 0-5 levels with overlapping transmitter lists and reference points, every look-up compared with a plain list model')
