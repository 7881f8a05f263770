"""Loops: havoc what an iteration can change, keep the inductive candidates."""
import itertools, os, time
import z3
from .values import *
from . import execu

UNROLL = 12
DBG = os.environ.get('VDBG')

def leaf_map(v):
    return dict(vleaves(v))

def shape_ok(a, b):
    if type(a) is not type(b) and not (z3.is_expr(a) and z3.is_expr(b)):
        return False
    la, lb = leaf_map(a), leaf_map(b)
    return set(la) == set(lb)

def iteration(ex, s, cond, inc, body):
    """one iteration from s: (ends, exits, breaks, rets)"""
    ends, exits, breaks, rets = [], [], [], []
    starts = []
    if cond is not None:
        for s2, v in ex.ev(cond, s):
            v = ex.rv(s2, v)
            for s3, t in ex.split(s2, v):
                (starts if t else exits).append(s3)
    else:
        starts = [s]
    for s2 in starts:
        for s3, oc in ex.stmt(body, s2):
            if oc is None or oc == ('continue',):
                if inc is not None:
                    ends += [s4 for s4, _ in ex.ev(inc, s3)]
                else:
                    ends.append(s3)
            elif oc == ('break',):
                breaks.append(s3)
            else:
                rets.append((s3, oc))
    return ends, exits, breaks, rets

def run_loop(ex, node, st, cond, inc, body):
    # -- loops whose condition is decided by constants are simply executed
    out = []
    cur = [(st, 0)]
    pending = []
    is_true_lit = cond is None or (cond.get('kind') == 'CXXBoolLiteralExpr')
    while cur:
        s, k = cur.pop()
        if cond is None or is_true_lit or k >= UNROLL:
            pending.append(s)
            continue
        probe = s.clone()
        rec = ex.recording
        ex.recording = False
        nt = len(ex.throws)
        try:
            r = ex.ev(cond, probe)
        finally:
            ex.recording = rec
            del ex.throws[nt:]
        if len(r) == 1:
            v = z3.simplify(ex.rv(r[0][0], r[0][1]))
            if z3.is_false(v):
                for s2, _ in ex.ev(cond, s):
                    out.append((s2, None))
                continue
            if z3.is_true(v):
                ends, exits, breaks, rets = iteration(ex, s, cond, inc, body)
                out += [(x, None) for x in exits + breaks] + rets
                cur += [(x, k + 1) for x in ends]
                continue
        pending.append(s)
    for s in pending:
        out += cut_loop(ex, node, s, cond, inc, body)
    return out

def patient(ex, fs):
    """more effort for a candidate of the specification, within a per-task allowance"""
    if ex.patience <= 0:
        return False
    t = time.time()
    s = z3.SimpleSolver()
    s.set('auto_config', False)
    s.set('mbqi', False)
    s.set('timeout', 12000)
    s.add(*fs)
    r = s.check()
    if r == z3.unsat:
        return True
    ex.patience -= time.time() - t
    return False

class NonFinite(Unsupported):
    pass

def cut_loop(ex, node, st, cond, inc, body, depth=0):
    try:
        return cut_loop1(ex, node, st.clone(), cond, inc, body)
    except NonFinite:
        if depth >= 2:
            raise
    # a variable is NaN or infinite on entry and finite later: peel one iteration
    ends, exits, breaks, rets = iteration(ex, st, cond, inc, body)
    out = [(x, None) for x in exits + breaks] + rets
    for s in ends:
        out += cut_loop(ex, node, s, cond, inc, body, depth + 1)
    return out

def cut_loop1(ex, node, st, cond, inc, body):
    key = (node.get('id'), tuple(ex.callstack))
    rec0, mods0 = ex.recording, getattr(ex, 'modsmode', False)
    throws0 = len(ex.throws)
    # ---- 1. what can an iteration change?
    ex.recording = False
    ex.modsmode = True
    hav = {}           # (root, path) -> fresh constant
    hook0 = ex.task
    ex.task = None
    def havoc_state():
        h = st.clone()
        byroot = {}
        for (r, p), c in hav.items():
            byroot.setdefault(r, {})[p] = c
        for r, sub in byroot.items():
            h.store[r] = vrebuild(st.store[r], sub)
            v = h.store[r]
            wf_facts(ex, v, h.pc, sub)
        return h
    try:
        for _ in range(8):
            h = havoc_state()
            ends, exits, breaks, rets = iteration(ex, h.clone(), cond, inc, body)
            new = False
            for e in ends:
                for r in st.store:
                    a, b = h.store[r], e.store.get(r)
                    if b is None:
                        raise Unsupported('root lost in loop')
                    if a is b:
                        continue
                    if not shape_ok(a, b):
                        if any(isinstance(x, FSpec) for v in (a, b) for _, x in vleaves(v)):
                            raise NonFinite('non-finite loop variable ' + r)
                        raise Unsupported('loop changes the shape of ' + r)
                    la, lb = leaf_map(a), leaf_map(b)
                    for p in la:
                        if not same(la[p], lb[p]) and (r, p) not in hav:
                            if not z3.is_expr(la[p]) or not z3.is_expr(lb[p]):
                                raise NonFinite('non-finite loop variable')
                            x, y = z3.simplify(la[p]), z3.simplify(lb[p])
                            if x.eq(y):
                                continue
                            nm = r.split('#')[0] + ''.join('.' + q for q in p)
                            hav[(r, p)] = z3.FreshConst(la[p].sort(), nm)
                            new = True
            if not new:
                break
        else:
            raise Unsupported('loop modification analysis diverges')
    finally:
        ex.recording, ex.modsmode, ex.task = rec0, mods0, hook0
        del ex.throws[throws0:]
    # map values: card/dom/val change together
    h = havoc_state()
    if mods0:
        # inside another loop's modification analysis: no invariants needed
        ends, exits, breaks, rets = iteration(ex, h, cond, inc, body)
        return [(x, None) for x in exits + breaks] + rets
    # ---- 2. candidates
    mods = []
    for (r, p), c in hav.items():
        pre = leaf_map(st.store[r])[p]
        so = c.sort()
        t = 'int' if so == I else 'real' if so == R else 'bool' if so == B else 'array'
        mods.append((r.split('#')[0] + ''.join('.' + q for q in p), pre, c, t, r, p))
    cands = generic(ex, st, h, mods, cond)
    ctx = execu.LoopCtx(ex, ex.callstack[-1] if ex.callstack else '', st, h, [m[:4] for m in mods], None, node)
    ctx.full = mods
    ctx.hav = hav
    npc = len(st.pc)
    if ex.task is not None:
        for lab, f in ex.task.loop_inv(ctx):
            cands.append(('spec:' + lab, f))
    h.pc += st.pc[npc:]        # ghost enumerations introduced by the invariants
    for a in ctx.axioms:
        st.pc.append(a)
        h.pc.append(a)
    killed = ex.loopcache.setdefault(key, set())
    seen = set()
    alive = []
    for lab, f in cands:
        f = z3.simplify(f) if not execu.has_quant(f) else f
        if z3.is_true(f):
            continue
        while lab in seen:
            lab += "'"
        if lab in killed:
            seen.add(lab)
            continue
        seen.add(lab)
        alive.append((lab, f))
    def subst(s):
        """the loop variables in state s, None if one is not a number there"""
        sub, maps = {}, {}
        for (r, p), c in hav.items():
            if r not in maps:
                maps[r] = leaf_map(s.store[r])
            v = maps[r][p]
            if not z3.is_expr(v):
                return None
            if v.sort() != c.sort():
                v = z3.ToReal(v)
            sub[c.decl().name()] = (c, v)
        return sub
    def at(f, sub):
        return z3.BoolVal(False) if sub is None else z3.substitute(f, *[sub[n] for n in execu.symbols(f) if n in sub])
    # ---- 3. Houdini
    def prune(s, cs):
        cs = list(cs)
        sub = subst(s)
        goals = [(l, at(f, sub)) for l, f in cs]
        if not goals:
            return []
        if s is st or True:
            big = z3.And(*[g for _, g in goals])
            if ex.check(list(s.pc) + [z3.Not(big)], 3000000, False) == z3.unsat:
                return cs
        keep = []
        pcs = [(f, execu.symbols(f)) for f in s.pc]
        for (l, f), (_, g) in zip(cs, goals):
            t0 = time.time()
            if z3.is_true(z3.simplify(g)) or ex.check(execu.relevant(pcs, g, 6) + [z3.Not(g)], 2000000 if l.startswith('spec:') else 500000, l.startswith('spec:')) == z3.unsat or \
                    (l.startswith('spec:') and patient(ex, list(s.pc) + [z3.Not(g)])):
                keep.append((l, f))
                if DBG == 'T':
                    print('%6.2f kept %s' % (time.time() - t0, l))
                    if time.time() - t0 > 6: sv = z3.Solver(); sv.add(*s.pc); sv.add(z3.Not(g)); open('/tmp/slow.smt2', 'w').write(sv.to_smt2())
            else:
                if DBG == 'T': print('%6.2f killed %s %s' % (time.time() - t0, l, 'init' if s is st else ''))
                killed.add(l)
                if DBG and DBG != 'T' and DBG in l:
                    print('KILLED', l, 'initially' if s is st else 'in the step')
                    sv = z3.Solver(); sv.add(*s.pc); sv.add(z3.Not(g)); open('/tmp/killed.smt2', 'w').write(sv.to_smt2())
                    print(z3.simplify(g)); [print('PC', p) for p in s.pc]
        return keep
    alive = prune(st, alive)
    ex.recording = False
    ex.task = None
    inner_cache = {k: set(v) for k, v in ex.loopcache.items()}
    try:
        for rnd in range(25):
            n0 = len(alive)
            s = h.clone()
            s.pc += [f for _, f in alive]
            ex.task = TaskProxy(hook0)
            ends, exits, breaks, rets = iteration(ex, s, cond, inc, body)
            ex.task = None
            for e in ends:
                alive = prune(e, alive)
            if len(alive) == n0:
                break
        else:
            raise Unsupported('Houdini diverges')
    finally:
        ex.recording, ex.task = rec0, hook0
        del ex.throws[throws0:]
    if ex.recording:
        ex.inv_log.append((ctx.func, node.get('id'), [l for l, _ in alive]))
    # ---- 4. continue from the cut point
    s = h.clone()
    s.pc += [f for _, f in alive]
    ends, exits, breaks, rets = iteration(ex, s, cond, inc, body)
    step = getattr(getattr(hook0, 'spec', None), 'step', None)
    if step is not None and ex.recording:
        for e in ends:                  # what every iteration does: related to the state at its start
            for l, g in step(ctx, hook0.C, h, e):
                ex.oblige(e, g, l, 'step')
    return [(x, None) for x in exits + breaks] + rets

class TaskProxy:
    """during Houdini: loop invariants of inner loops are still offered, throws are not reported"""
    def __init__(self, t):
        self.t = t
        self.name = t.name if t is not None else ''
    def loop_inv(self, ctx):
        return self.t.loop_inv(ctx) if self.t is not None else []
    def on_throw(self, ex, st, e):
        pass

def wf_facts(ex, v, pc, sub):
    def go(v, path):
        if isinstance(v, Rec):
            for n, x in v.f.items():
                go(x, path + (n,))
        elif isinstance(v, Opt):
            go(v.val, path + ('*',))
        elif isinstance(v, Seq):
            if path + ('n',) in sub:
                pc.append(v.n >= 0)
                pc.append(v.n < 2 ** 62)
            if any(path + ('d%d' % i,) in sub for i in range(len(v.data))):
                w = []
                ex.T.wf(Seq(v.t, z3.IntVal(0), v.n, v.data), v.t, w)
                pc.extend([x for x in w if execu.has_quant(x)])
        elif isinstance(v, MapV):
            if path + ('card',) in sub or path + ('dom',) in sub:
                w = []
                ex.T.wf(v, v.t, w)
                pc.extend(w)
    go(v, ())

def comparisons(f, out, neg=False):
    if z3.is_not(f):
        comparisons(f.arg(0), out, not neg)
    elif z3.is_and(f) or z3.is_or(f):
        for c in f.children():
            comparisons(c, out, neg)
    elif z3.is_app(f) and f.num_args() == 2 and f.arg(0).sort() in (I, R) and \
            f.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
        out.append((f.arg(0), f.arg(1)))

def generic(ex, st, h, mods, cond):
    out = []
    ints = [m for m in mods if m[3] == 'int' and not m[0].endswith('.lo')]
    for lab, a, c, t, r, p in mods:
        if t in ('int', 'real'):
            out.append((lab + '>=pre', c >= a))
            out.append((lab + '<=pre', c <= a))
            out.append((lab + '>=0', c >= 0))
            if t == 'real':
                out.append((lab + '>0', c > 0))
        elif t == 'bool':
            out.append((lab + '->pre', z3.Implies(c, a)))
            out.append((lab + '<-pre', z3.Implies(a, c)))
            for x in ints[:4]:          # a flag for the first iteration
                out.append(('%s:%s at start' % (lab, x[0]), c == (x[2] == x[1])))
                out.append(('%s:%s moved' % (lab, x[0]), c == (x[2] != x[1])))
    for x, y in itertools.combinations(ints[:7], 2):
        d = x[2] - x[1]
        e = y[2] - y[1]
        out.append(('%s-%s:eq' % (x[0], y[0]), d == e))
        out.append(('%s-%s:le' % (x[0], y[0]), d <= e))
        out.append(('%s-%s:ge' % (x[0], y[0]), d >= e))
        out.append(('%s-%s:neg' % (x[0], y[0]), d == -e))
    # bounds read off the condition
    if cond is not None:
        rec = ex.recording
        ex.recording = False
        nt = len(ex.throws)
        task = ex.task
        ex.task = None
        try:
            for s, v in ex.ev(cond, h.clone()):
                v = ex.rv(s, v)
                cs = []
                if z3.is_expr(v):
                    comparisons(v, cs)
                for i, (a, b) in enumerate(cs):
                    out.append(('cond%d<=' % i, a <= b))
                    out.append(('cond%d>=' % i, a >= b))
        except Unsupported:
            pass
        finally:
            ex.recording, ex.task = rec, task
            del ex.throws[nt:]
    # containers
    roots = {}
    for lab, a, c, t, r, p in mods:
        roots.setdefault(r, {})[p] = (a, c)
    for r in roots:
        pre, cur = st.store[r], h.store[r]
        def go(a, b, path, lab):
            if isinstance(a, Rec):
                for n in a.f:
                    go(a.f[n], b.f[n], path + (n,), lab + '.' + n)
            elif isinstance(a, Seq):
                k = z3.Int('k!')
                for i, (x, y) in enumerate(zip(a.data, b.data)):
                    if not x.eq(y):
                        out.append(('%s.frame%d' % (lab, i), z3.ForAll([k], z3.Implies(z3.And(k >= a.lo, k < a.lo + a.n),
                                    y[k] == x[k]), patterns=[y[k]])))
            elif isinstance(a, MapV):
                if not a.dom.eq(b.dom):
                    ks = [z3.Const('k!%d' % i, s) for i, s in enumerate(ex.T.sorts(a.t.args[0]))]
                    out.append((lab + '.domgrow', z3.ForAll(ks, z3.Implies(ksel(a.dom, ks), ksel(b.dom, ks)), patterns=[ksel(b.dom, ks)])))
        go(pre, cur, (), r.split('#')[0])
    # iterator bounds
    for lab, a, c, t, r, p in mods:
        if t == 'int' and p and p[-1] == 'idx':
            it = h.store[r]
            if isinstance(it, It):
                try:
                    q = ex.read(h, it.lv)
                    out.append((lab + '<=n', c <= q.n))
                except Unsupported:
                    pass
    return out
