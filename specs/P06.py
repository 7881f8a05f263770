"""P06 radio measurement window and averaging"""
from common import *
import P03
DATA = lambda e: e.data                      # P25 uses these contracts for the standalone copy
OUT = 'RadioMeasurementData'
FIELDS = ('type', 'stddev', 'power')
ID = lambda e: getattr(e.id, 'value', e.id)
TUS = ['src/measurements/measurement_preprocessor.cpp']
B_ = N + 'RadioMeasurementBuffer::'

def add(C):
    t, t1, m = C.this, C.this1, C.a(0)
    b0, b1 = t.mMeasurements, t1.mMeasurements
    i = z3.Int('i!')
    x = C.at(b1, b0.n)
    return [('stored last', b1.n == b0.n + 1),
            ('stored with its time and id', And(x.ts == m.ts, x.data.id.value == m.data.id.value, x.data.type == m.data.type)),
            ('values kept, bias added to the signal strength', And(x.data.rssi == m.data.rssi + t.mRssiBias, x.data.distance == m.data.distance, x.data.stddev == m.data.stddev, x.data.power == m.data.power)),
            ('earlier ones kept', And(*[ForAll([i], Implies(And(i >= 0, i < b0.n), a[plus(b1.lo, i)] == b[plus(b0.lo, i)]), patterns=[a[plus(b1.lo, i)]]) for a, b in zip(b1.data, b0.data)])),
            ('the clock is the time of the newest', t1.mCurrentTs == m.ts),
            ('the first one starts the window', t1.mLastExtractionTs == If(t.mCurrentTs == 0, m.ts, t.mLastExtractionTs))]

# --- extraction -------------------------------------------------------------
# ghost state: w = the buffer ordered by id (a permutation of the buffer, from the contract of std::sort);
# SR/SD prefix sums over w; gs(i): a group (equal ids) starts at i; rank(i): number of groups before i; end(i): end of the group of i
def ghosts(C, w):
    if not hasattr(C, '_g'):
        C._g = {}
    k = w.data[0].get_id()
    if k not in C._g:
        class G: pass
        g = C._g[k] = G()
        n = str(len(C._g))
        g.SR, g.SD = z3.Function('SR' + n, I, R), z3.Function('SD' + n, I, R)
        g.rank = z3.Function('grank' + n, I, I)
        g.end = z3.Function('gend' + n, I, I)
    return C._g[k]

def sorted_by_id(C, st):
    """the buffer as ordered by id: the first reordering made on this path"""
    for k, v, w, perm, inv in st.notes:
        return v, w, perm, inv
    return None

def gaxioms(C, w):
    g = ghosts(C, w)
    i, j = z3.Ints('i! j!')
    el = lambda i: DATA(C.at(w, i))
    gs = lambda i: Or(i == 0, ID(el(i)) != ID(el(i - 1)))
    g.gs = gs
    return [g.SR(z3.IntVal(0)) == 0, g.SD(z3.IntVal(0)) == 0, g.rank(z3.IntVal(0)) == 0,
            ForAll([i], Implies(And(i >= 0, i < w.n), And(g.SR(i + 1) == g.SR(i) + el(i).rssi, g.SD(i + 1) == g.SD(i) + el(i).distance)), patterns=[g.SR(i), g.SD(i)]),
            ForAll([i], Implies(And(i >= 0, i < w.n), And(g.end(i) > i, g.end(i) <= w.n, Or(g.end(i) == w.n, ID(el(g.end(i))) != ID(el(i))))), patterns=[g.end(i)]),
            ForAll([i, j], Implies(And(i >= 0, i < w.n, i <= j, j < g.end(i)), ID(el(j)) == ID(el(i))), patterns=[z3.MultiPattern(g.end(i), ID(el(j)))]),
            # rank: counts group starts; constant within a group, one more at the next
            ForAll([i], Implies(And(i >= 0, i < w.n, gs(i)), And(g.rank(g.end(i)) == g.rank(i) + 1, g.rank(i) >= 0)), patterns=[g.end(i)])]

def entry_ok(C, g, w, i, e):
    """output entry e is the mean over the group [i, end(i)) of w"""
    el = DATA(C.at(w, i))
    cnt = z3.ToReal(g.end(i) - i)
    return And(ID(e) == ID(el), e.rssi == C.ex.adiv(g.SR(g.end(i)) - g.SR(i), cnt), e.distance == C.ex.adiv(g.SD(g.end(i)) - g.SD(i), cnt), *[e.f[k] == el.f[k] for k in FIELDS])

def loops(ctx, C):
    sb = sorted_by_id(C, ctx.cur)
    if sb is None:
        return []
    v, w, perm, inv = sb
    ax = gaxioms(C, w)
    g = ghosts(C, w)
    ctx.axioms += ax
    out = []
    i = z3.Int('i!')
    if ctx.node.get('kind') == 'ModelLoop':
        for lab, p, acc in ctx.reals():
            for lab2, i0, c in ctx.ints():
                out.append(('sumR', acc - p == g.SR(c) - g.SR(i0)))
                out.append(('sumD', acc - p == g.SD(c) - g.SD(i0)))
        return out
    for nm, pre, cur in ctx.vals(lambda v: isinstance(v, Seq) and v.t.args[0].k == 'rec' and v.t.args[0].name.endswith('::' + OUT)):
        for lab, p, c in ctx.ints():
            if lab.endswith('.n') or lab.endswith('.lo'):
                continue
            ctx.axioms.append(Implies(And(c >= 0, c < w.n), g.end(c) > c))       # instance of the definition, brings the term in
            out.append(('start %s' % lab, Or(c == w.n, g.gs(c))))
            out.append(('count %s' % lab, And(cur.n == g.rank(c), cur.n >= 0)))
            out.append(('groups %s %s' % (lab, nm), ForAll([i], Implies(And(i >= 0, i < c, i < w.n, g.gs(i)),
                And(g.rank(i) >= 0, g.rank(i) < cur.n, g.end(i) <= c, entry_ok(C, g, w, i, C.at(cur, g.rank(i))))), patterns=[g.rank(i), g.end(i)])))
    return out

def extract(C):
    t, t1, r = C.this, C.this1, C.result
    step = If(C.a(0) > 0, C.a(0), t.mLastStepTs)
    early = t.mCurrentTs - t.mLastExtractionTs < t.mSignalWindowShiftMs
    b0, b1 = t.mMeasurements, t1.mMeasurements
    i, j = z3.Ints('i! j!')
    out = [('last step remembered', t1.mLastStepTs == step), ('clock kept', t1.mCurrentTs == t.mCurrentTs),
           ('window restarts exactly when it had passed', t1.mLastExtractionTs == If(early, t.mLastExtractionTs, t.mCurrentTs)),
           ('nothing before the window has passed', Implies(early, r.n == 0)),
           ('buffer kept before the window has passed', Implies(early, b1.n == b0.n))]
    standing = And(t.mUseStops, step > 0, t.mCurrentTs - step > t.mStopDetectionTimeMs)
    def member(q):
        return lambda x: Exists([j], And(j >= q.lo, j < q.lo + q.n, *[a == d[j] for a, d in zip(x, q.data)]))
    inb0, inb1 = member(b0), member(b1)
    el1 = lambda i: [d[plus(b1.lo, i)] for d in b1.data]
    el0 = lambda i: [d[plus(b0.lo, i)] for d in b0.data]
    out += [('while standing still nothing is dropped', Implies(And(Not(early), standing), b1.n == b0.n)),
            ('no keep period: buffer emptied', Implies(And(Not(early), Not(standing), t.mRadioKeepPeriodMs == 0), b1.n == 0)),
            ('only buffered ones stay', ForAll([i], Implies(And(i >= 0, i < b1.n), inb0(el1(i))))),
            ('older than the keep period are dropped', Implies(And(Not(early), Not(standing), t.mRadioKeepPeriodMs != 0),
                ForAll([i], Implies(And(i >= 0, i < b1.n), C.at(b1, i).ts >= t.mCurrentTs - t.mRadioKeepPeriodMs)))),
            ('those within the keep period stay', Implies(And(Not(early), Or(standing, t.mRadioKeepPeriodMs != 0)),
                ForAll([i], Implies(And(i >= 0, i < b0.n, Or(standing, C.at(b0, i).ts >= t.mCurrentTs - t.mRadioKeepPeriodMs)), inb1(el0(i))))))]
    sb = sorted_by_id(C, C.post)
    if sb is not None:
        v, w, perm, inv = sb
        g = ghosts(C, w)
        gaxioms(C, w)
        out += [('one entry per transmitter', r.n == g.rank(w.n)),
                ('each entry is the mean over all buffered measurements of its transmitter', ForAll([i], Implies(And(i >= 0, i < w.n, g.gs(i)),
                    And(g.rank(i) >= 0, g.rank(i) < r.n, entry_ok(C, g, w, i, C.at(r, g.rank(i))))), patterns=[g.rank(i)]))]
    else:
        out += [('no entry without averaging', early)]
    return out

def ctor(C):
    r = C.result
    return [('taken over', And(r.mRadioKeepPeriodMs == C.a(0), r.mSignalWindowShiftMs == C.a(1), r.mStopDetectionTimeMs == C.a(2), r.mRssiBias == C.a(3), r.mUseStops == C.a(4))),
            ('empty', And(r.mMeasurements.n == 0, r.mLastExtractionTs == 0, r.mCurrentTs == 0, r.mLastStepTs == 0))]

S = [Spec(N + 'RadioMeasurementBuffer::RadioMeasurementBuffer', 5, ensures=ctor),
     Spec(B_ + 'addMeasurement', ensures=add),
     Spec(B_ + 'extractMeasurements', ensures=extract, loops=loops, abstract=True)]

def tasks(P):
    return tasks_of(P, S)

REPLAY = dict(src='p06.cpp', repo=['src/measurements/measurement_preprocessor.cpp', 'src/level_collector.cpp', 'src/level.cpp', 'src/level_geometry.cpp', 'src/radiomap.cpp', 'src/point.cpp', 'src/vector3d.cpp'], rounds=20000, budget=20,
              rule='random window settings and histories of additions and extractions, against a list model of the window')
ASSUMPTIONS = ['sums over a group are stated over the buffer as reordered by std::sort (a permutation of the buffer, by its assumed contract), so they equal the sums over the buffer']
