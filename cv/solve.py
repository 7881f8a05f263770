"""Discharging obligations: z3 in process, nlsat on the abstracted real part, cvc5 and a second z3 as fallbacks.
Resource limits (not wall time) decide, so that answers do not depend on the machine's load."""
import os, subprocess, tempfile, time
import z3
from .execu import has_quant, symbols, relevant

class Result:
    __slots__ = ('status', 'backend', 'model', 'time', 'detail')
    def __init__(self, status, backend, model=None, t=0.0, detail=''):
        self.status, self.backend, self.model, self.time, self.detail = status, backend, model, t, detail

def _z3(fs, rl, to=60000, mk=None):
    s = mk() if mk else z3.Solver()
    s.set('timeout', to)
    try:
        s.set('rlimit', rl)
    except z3.Z3Exception:
        pass
    s.add(*fs)
    try:
        r = s.check()
    except z3.Z3Exception:          # canceled by the timer
        r = z3.unknown
    return r, s

def EM():
    """quantifier instantiation by e-matching only: fails fast where no trigger applies"""
    s = z3.SimpleSolver()
    s.set('auto_config', False)
    s.set('mbqi', False)
    return s

def abstract(fs):
    """replace every non-arithmetic real/int/bool term (uf, select, ...) by a constant: sound for unsat"""
    cache = {}
    def go(e):
        k = e.get_id()
        if k in cache:
            return cache[k][1]
        r = None
        if z3.is_quantifier(e):
            r = None
        elif z3.is_app(e):
            kd = e.decl().kind()
            if kd in ARITH:
                ch = [go(c) for c in e.children()]
                if any(c is None for c in ch):
                    r = None
                else:
                    try:
                        r = e.decl()(*ch) if ch else e
                        if kd in (z3.Z3_OP_AND,):
                            r = z3.And(*ch)
                        elif kd == z3.Z3_OP_OR:
                            r = z3.Or(*ch)
                        elif kd == z3.Z3_OP_ADD:
                            r = z3.Sum(*ch)
                        elif kd == z3.Z3_OP_MUL:
                            r = z3.Product(*ch)
                    except z3.Z3Exception:
                        r = None
            elif e.sort() in (z3.RealSort(), z3.BoolSort(), z3.IntSort()):
                r = z3.Const('abs!%d' % k, e.sort()) if e.num_args() else e
        cache[k] = (e, r)
        return r
    out = []
    for f in fs:
        if has_quant(f):
            continue
        g = go(f)
        if g is not None:
            out.append(g)
    return out

ARITH = {getattr(z3, 'Z3_OP_' + n) for n in ('ADD SUB MUL DIV UMINUS LE LT GE GT EQ DISTINCT AND OR NOT IMPLIES ITE '
         'TRUE FALSE ANUM TO_REAL POWER IFF XOR').split()}

def _cli(cmd, fs, to):
    s = z3.Solver()
    s.add(*fs)
    txt = s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + txt)
        n = f.name
    try:
        p = subprocess.run(cmd + [n], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=to)
        o = p.stdout.strip().splitlines()
        return o[0] if o else 'unknown'
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return 'unknown'
    finally:
        os.unlink(n)

def ite_conds(fs, limit=6):
    out, seen = [], set()
    st = list(fs)
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            continue
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(e):
                c = e.arg(0)
                if not any(c.eq(x) for x in out):
                    out.append(c)
            st.extend(e.children())
    return out[:limit]

NL = lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()

def nonlinear(fs):
    seen = set()
    st = list(fs)
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_MUL and sum(1 for c in e.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1:
                return True
            if k == z3.Z3_OP_DIV and not z3.is_rational_value(e.arg(1)):
                return True
            if k in (z3.Z3_OP_POWER,):
                return True
            st.extend(e.children())
        elif z3.is_quantifier(e):
            st.append(e.body())
    return False

def nlsat(a, rl, to):
    try:
        return _z3(a, rl, to, NL)[0]
    except z3.Z3Exception:
        return z3.unknown

def nlcases(fs, rl, to):
    """case split on the conditions of if-then-else terms, nlsat on each case"""
    def go(fs, depth):
        fs = [z3.simplify(f) for f in fs]
        if any(z3.is_false(f) for f in fs):
            return True
        cs = ite_conds(fs, 1) if depth else []
        if not cs:
            return nlsat(abstract(fs), rl, to) == z3.unsat
        c = cs[0]
        for v in (True, False):
            b = z3.BoolVal(v)
            # the same comparison may appear negated or mirrored: simplify canonicalises most of it
            g = [z3.substitute(f, (c, b)) for f in fs] + [c if v else z3.Not(c)]
            if not go(g, depth - 1):
                return False
        return True
    return go(list(fs), 6)

def discharge(pc, goal, effort=1, hints=()):
    """is pc => goal valid?  status 'proved' | 'refuted' (model) | 'unknown'"""
    t0 = time.time()
    ng = z3.Not(goal)
    fs = list(pc)
    def done(st, be, m=None, d=''):
        return Result(st, be, m, time.time() - t0, d)
    gq = has_quant(ng)
    g0 = z3.simplify(ng) if not gq else ng
    if z3.is_false(g0):
        return done('proved', 'simplifier')
    qf = [f for f in fs if not has_quant(f)]
    allqf = len(qf) == len(fs) and not gq
    model = None
    if not allqf:
        for sub in [relevant(fs, goal, 3), fs]:
            if _z3(sub + [ng], 400000, 5000, EM)[0] == z3.unsat:
                return done('proved', 'z3')
    def full(rl, to):
        for sub in ([relevant(qf, goal, 2)] if not gq else []) + [relevant(fs, goal, 3), fs]:
            r, s = _z3(sub + [ng], rl, to)
            if r == z3.unsat:
                return 'unsat', None
            if r == z3.sat and len(sub) == len(fs):
                return 'sat', s.model()
        return 'unknown', None
    r, m = full(400000, 4000)
    if r == 'unsat':
        return done('proved', 'z3')
    if r == 'sat':
        return done('refuted', 'z3', m)
    if effort == 0:
        return done('unknown', 'z3', None, 'not pursued: other obligations of this function already fail')
    nl = not gq and nonlinear(qf + [ng])
    if nl:
        for d in (1, 2, 4):
            a = abstract(relevant(qf, goal, d) + [ng])
            if nlsat(a, 3000000, 4000) == z3.unsat:
                return done('proved', 'z3-nlsat')
        for d in (1, 2, 4):
            if nlcases(relevant(qf, goal, d) + [ng], 3000000, 4000):
                return done('proved', 'z3-nlsat')
    r, m = full(3000000 * effort, 20000 * effort)
    if r == 'unsat':
        return done('proved', 'z3')
    if r == 'sat':
        return done('refuted', 'z3', m)
    if nl:
        for d in (2, 4):
            if nlcases(relevant(qf, goal, d) + [ng], 10000000 * effort, 15000 * effort):
                return done('proved', 'z3-nlsat')
    to = 20 * effort
    for sub in (relevant(fs, goal, 3), fs):
        r = _cli(['cvc5', '--rlimit=%d' % (2000000 * effort), '--tlimit=%d' % (to * 1000)], sub + [ng], to + 5)
        if r == 'unsat':
            return done('proved', 'cvc5')
    r = _cli(['z3-new', 'rlimit=%d' % (20000000 * effort), '-T:%d' % to], fs + [ng], to + 5)
    if r == 'unsat':
        return done('proved', 'z3-new')
    # candidate counterexample from the quantifier-free part, for the replay driver
    r, s = _z3(qf + ([] if gq else [g0]), 2000000, 20000)
    if r == z3.sat:
        model = s.model()
    return done('refuted' if (r == z3.sat and allqf) else 'unknown', 'z3', model)
