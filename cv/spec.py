"""Contracts and verification tasks."""
import time, traceback
import os, pickle
import z3
from .values import *
from .frontend import ExtractError
from . import execu, solve, stdmodel
from .execu import Exec, State, has_quant, symbols, relevant

class Ctx:
    """what a contract's clauses see: arguments (by position), *this, result, before and after"""
    def __init__(self, ex, f, pre, argrefs, this):
        self.ex, self.f, self.pre, self.argrefs, self.thisref = ex, f, pre, argrefs, this
        self.post = None
        self.res = None
        self.mode = 'check'
    @property
    def T(self):
        return self.ex.T
    def a(self, i):
        return self.ex.read(self.pre, self.argrefs[i])
    def a1(self, i):
        return self.ex.read(self.post, self.argrefs[i])
    @property
    def this(self):
        return self.ex.read(self.pre, self.thisref)
    @property
    def this1(self):
        return self.ex.read(self.post, self.thisref)
    @property
    def result(self):
        return self.ex.rv(self.post, self.res)
    def at(self, seq, i):
        """element i of a sequence value"""
        return self.ex.step(None, seq, ('i', i))

class Spec:
    """contract of one function of /repo"""
    def __init__(self, qual, nparams=None, requires=None, ensures=None, modifies=(), loops=None, throws=None, name=None, pred=None,
                 setup=None, trusted=False, returns=None, on_throw=None, helper=False, abstract=False, args=None, define=False, join=False, step=None):
        self.step = step               # obligations at the end of every loop iteration: fn(ctx, C, state at its start, state at its end)
        self.join = join               # branches are joined after each if-statement
        self.define = define           # equations of the contract define the components of the result: callers see the defining terms
        self.args = args or {}         # parameter index -> fn(ex, st, this): value of a parameter that refers into another object (iterators)
        self.abstract = abstract       # products/quotients of variables stay uninterpreted
        self.helper = helper           # an internal function: a refactoring may remove it, its callers are then verified with the code inlined
        self.qual, self.nparams, self.pred = qual, nparams, pred
        self.requires, self.ensures, self.modifies, self.loops = requires, ensures, modifies, loops
        self.throws = throws           # None: must not throw; 'any'; callable(C) -> condition under which a throw is allowed
        self.name = name or qual
        self.setup = setup
        self.trusted = trusted

    def find(self, P):
        try:
            return P.func(self.qual, self.nparams, self.pred)
        except ExtractError:
            if not self.trusted:
                raise
            return P.func(self.qual, self.nparams, self.pred, decl=True)

    def clauses(self, fn, C):
        if fn is None:
            return []
        r = fn(C)
        return [(l, f) for l, f in r]

    # ---- use at a call site
    def contract(self):
        return {'name': self.name, 'apply': self.apply, 'nparams': self.nparams}

    def apply(self, ex, st, vals, this):
        f = self.find(ex.P)
        refs = []
        for p, v in zip(f.params, vals):
            refs.append(v if isinstance(v, LRef) else ex.alloc(st, v, 'arg'))
        C = Ctx(ex, f, st.clone(), refs, this)
        C.mode = 'assume'
        for l, g in self.clauses(self.requires, C):
            ex.oblige(st, g, 'requires of %s: %s' % (self.name, l), 'requires')
        C.pre = st.clone()
        hav = []
        for m in self.modifies:
            if m == 'this':
                lv = this
            elif isinstance(m, int):
                lv = refs[m]
            else:
                lv = this
                for x in m.split('.')[1:]:
                    lv = lv.add(('f', x))
            old = ex.read(st, lv)
            hav.append(lv)
            ex.write(st, lv, fresh_like(ex, st, old))
        if f.kind == 'CXXConstructorDecl':
            w = []
            res = fresh_obj(ex, st, Ty('rec', f.record), w)
            st.pc += w
            C.post, C.res = st, res
            for l, g in self.clauses(self.ensures, C):
                st.pc.append(g)
            return [(st, res)]
        rt = ex.T.of({'qualType': f.rettype})
        if rt.k == 'opaque':
            rt = ret_type(ex, f)
        res = None
        if rt.k not in ('void',):
            w = []
            res = ex.T.fresh(rt if rt.k != 'ref' else rt.args[0], 'res', wf=w)
            if not z3.is_expr(res):
                st.pc += w
        C.post, C.res = st, res
        gs = [g for l, g in self.clauses(self.ensures, C)]
        if z3.is_expr(res):
            # a contract "result == t" defines the result: use t itself (also inside predicates over bound variables)
            for g in gs:
                if z3.is_eq(g) and any(g.arg(k).eq(res) and not stdmodel.occurs(res, g.arg(1 - k)) for k in (0, 1)):
                    t = g.arg(1) if g.arg(0).eq(res) else g.arg(0)
                    st.pc += [z3.substitute(x, (res, t)) for x in w + gs if not x.eq(g)]
                    return [(st, t)]
            st.pc += w
        elif self.define:
            # equations for components of the result or of what is modified: callers see the defining terms
            places = [(None, res)] if isinstance(res, Rec) else []
            places += [(lv, ex.read(st, lv)) for lv in hav]
            ids = {x.get_id(): (k, p) for k, (lv, v) in enumerate(places) for p, x in vleaves(v) if z3.is_expr(x) and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED}
            fresh = [x for k, (lv, v) in enumerate(places) for p, x in vleaves(v) if z3.is_expr(x)]
            sub = {}
            def conj(g):
                return [y for x in g.children() for y in conj(x)] if z3.is_and(g) else [g]
            for g in [y for x in gs for y in conj(x)]:
                if z3.is_eq(g):
                    for k in (0, 1):
                        x, t = g.arg(k), g.arg(1 - k)
                        if x.get_id() in ids and ids[x.get_id()] not in sub and not any(stdmodel.occurs(y, t) for y in fresh):
                            sub[ids[x.get_id()]] = t
                            break
            for k, (lv, v) in enumerate(places):
                w = vrebuild(v, {p: t for (j, p), t in sub.items() if j == k})
                if lv is None:
                    C.res = res = w
                else:
                    ex.write(st, lv, w)
            gs = [g for l, g in self.clauses(self.ensures, C)]      # restated over the defining terms
        st.pc += gs
        return [(st, res)]

def ret_type(ex, f):
    return ex.T.parse(f.rettype)

def fresh_like(ex, st, v):
    if isinstance(v, Ptr):
        return v
    if isinstance(v, Rec):
        return Rec(v.t, {n: fresh_like(ex, st, x) for n, x in v.f.items()})
    sub = {p: z3.FreshConst(x.sort(), 'hv') for p, x in vleaves(v) if z3.is_expr(x)}
    w = vrebuild(v, sub)
    from .loops import wf_facts
    wf_facts(ex, w, st.pc, {p: 1 for p in sub})
    return w

class Task:
    """verification of one function body against its contract"""
    def __init__(self, prog, spec, contracts=(), timeout=600):
        self.P, self.spec = prog, spec
        self.name = spec.name
        self.contracts = contracts
        self.log = []

    def loop_inv(self, ctx):
        if self.spec.loops is None:
            return []
        return self.spec.loops(ctx, self.C)

    def on_throw(self, ex, st, node):
        if self.spec.throws == 'any' or not ex.recording:
            return
        c = z3.BoolVal(False)
        if callable(self.spec.throws):
            C = self.C
            C.post = st
            c = self.spec.throws(C)
        ex.oblige(st, c, 'throws only where the contract allows', 'throw')

    def generate(self):
        P, sp = self.P, self.spec
        ex = self.ex = Exec(P, self)
        ex.abstract = sp.abstract
        ex.join = sp.join
        for c in self.contracts:
            if c is not sp:
                try:
                    q = c.find(P).qual
                except ExtractError:
                    continue
                g = c.find(P)
                ex.contracts[(q, len(g.params)) if g.kind == 'CXXConstructorDecl' else q] = c.contract()
        f = self.f = sp.find(P)
        st = State()
        st.tu = f.tu
        refs = []
        vals = []
        for p in f.params:
            t = ex.T.of(p['type'])
            isref = t.k == 'ref'
            if isref:
                t = t.args[0]
            w = []
            if len(refs) in sp.args:
                refs.append(None)
                vals.append(None)
                continue
            if t.k == 'ptr':
                to = ex.alloc(st, ex.T.fresh(t.args[0], p.get('name', 'p'), wf=w), 'obj')
                v = Ptr(to, null=z3.FreshConst(B, 'null'), ty=t.args[0])
            else:
                v = ex.T.fresh(t, p.get('name', 'p'), wf=w)
            st.pc += w
            r = ex.alloc(st, v, p.get('name', 'arg'))
            refs.append(r)
            vals.append(r if isref else v)
        this = None
        if f.kind == 'CXXMethodDecl' and not f.static and f.record in P.records:
            w = []
            t = Ty('rec', f.record)
            this = ex.alloc(st, fresh_obj(ex, st, t, w), 'this')
            st.pc += w
        for i, fn in sp.args.items():
            vals[i] = fn(ex, st, this)
            refs[i] = ex.alloc(st, vals[i], 'arg')
        C = self.C = Ctx(ex, f, st, refs, this)
        if sp.setup:
            sp.setup(C, st)
        for l, g in sp.clauses(sp.requires, C):
            st.pc.append(g)
        C.pre = st.clone()
        self.pre_pc = list(st.pc)
        if f.kind == 'CXXConstructorDecl':
            outs = [(s, v) for s, v in ex.construct(st, Ty('rec', f.record), f, vals)]
        else:
            if ex.contracts.get(f.qual):
                del ex.contracts[f.qual]
            outs = ex.run_body(st, f, vals, this, {})
        self.outs = outs
        n = 0
        for s, v in outs:
            C.post = s
            C.res = v
            try:
                cl = sp.clauses(sp.ensures, C)
            except (TypeError, AttributeError, z3.Z3Exception):
                # a contract over numbers, and a path on which the result or the object holds NaN or an infinity
                new = [x for _, x in vleaves(v) if isinstance(x, FSpec)] if v is not None else []
                if this is not None:
                    old = dict(vleaves(ex.read(C.pre, this)))
                    new += [x for p, x in vleaves(ex.read(s, this)) if isinstance(x, FSpec) and not isinstance(old.get(p), FSpec)]
                if not new:
                    raise
                cl = [('the result is a number', z3.BoolVal(False))]
            for l, g in cl:
                ex.oblige(s, g, l, 'ensures')
                n += 1
        return ex

    def run(self, effort=1, log=None):
        """returns dict result"""
        t0 = time.time()
        r = {'name': self.name, 'status': 'ok', 'obligations': [], 'failed': [], 'backends': {}, 'solver_s': 0.0, 'detail': ''}
        try:
            if self.spec.helper:
                try:
                    self.spec.find(self.P)
                except ExtractError:
                    r['status'], r['wall'] = 'absent', 0
                    return r
            ex = self.generate()
        except (Unsupported, ExtractError, NonFinite, execu.DefaultArg, execu.DefaultInit) as e:
            r['status'] = 'unsupported'
            r['detail'] = '%s: %s' % (type(e).__name__, e)
            r['wall'] = time.time() - t0
            return r
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, z3.Z3Exception, RecursionError) as e:
            r['status'] = 'unsupported'
            r['detail'] = 'contract does not fit the source: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
            r['wall'] = time.time() - t0
            return r
        # vacuity: the precondition and at least one path must be satisfiable
        if solve._z3([p for p in self.pre_pc], 2000000)[0] == z3.unsat:
            r['status'] = 'vacuous'
        feas = 0
        for s, _ in self.outs:
            if solve._z3(s.pc, 1500000, 5000)[0] != z3.unsat:
                feas += 1
        r['paths'] = len(self.outs)
        r['feasible_paths'] = feas
        if not feas and not ex.throws:
            r['status'] = 'vacuous'
        cache = {}
        for i, o in enumerate(ex.obls):
            key = (o.goal.get_id(), tuple(p.get_id() for p in o.pc))
            res = cache.get(key)
            if res is None:
                res = cache[key] = solve.discharge(o.pc, o.goal, effort if len(r['failed']) < 2 else 0)
            r['solver_s'] += res.time
            r['backends'][res.backend] = r['backends'].get(res.backend, 0) + (res.status == 'proved')
            lab = '%s: %s [%s]' % (o.where, o.label, o.kind)
            r['obligations'].append((lab, res.status))
            if res.status != 'proved':
                r['failed'].append({'label': lab, 'status': res.status, 'model': model_str(res.model), 'goal': str(o.goal)[:1500]})
                if getattr(self, 'partial', None):           # should the rest take too long
                    with open(self.partial + '.tmp', 'wb') as f:
                        pickle.dump(r, f)
                    os.replace(self.partial + '.tmp', self.partial)
        r['assumed'] = sorted(ex.assumed)
        r['inlined'] = sorted(ex.inlined)
        r['contracts'] = sorted(ex.under_contract)
        r['inv'] = [(a, c) for a, b, c in ex.inv_log]
        r['file'] = self.f.file
        r['wall'] = time.time() - t0
        return r

def fresh_obj(ex, st, t, w):
    """arbitrary object; smart pointers/pointers inside get distinct pointees"""
    f = {}
    for n, ft in ex.T.fields(t):
        if ft.k == 'ptr':
            pt = ft.args[0]
            if pt.k == 'rec':
                to = ex.alloc(st, fresh_obj(ex, st, pt, w), n)
                f[n] = Ptr(to, null=z3.FreshConst(B, n + '_null'), ty=pt)
            else:
                f[n] = Ptr(None)
        elif ft.k == 'rec':
            f[n] = fresh_obj(ex, st, ft, w)
        else:
            f[n] = ex.T.fresh(ft, n, wf=w)
    return Rec(t, f)

def model_str(m):
    if m is None:
        return ''
    out = []
    for d in m.decls():
        if d.arity() == 0:
            out.append('%s = %s' % (d.name(), str(m[d])[:120]))
    return '; '.join(sorted(out))[:3000]

class Lemma(Task):
    """an obligation over several contracts/bodies: driver(L, st) calls functions of /repo symbolically and states goals"""
    def __init__(self, prog, name, driver, contracts=(), loops=None, throws=None):
        self.P, self.name, self.driver, self.contracts = prog, name, driver, contracts
        self.spec = Spec(name, loops=loops, throws=throws)
        self.C = self

    def generate(self):
        ex = self.ex = Exec(self.P, self)
        for c in self.contracts:
            try:
                ex.contracts[c.find(self.P).qual] = c.contract()
            except ExtractError:
                pass
        st = State()
        self.st0 = st
        self.outs = []
        self.pre_pc = []
        self.f = type('F', (), {'file': ''})()
        ex.callstack.append(self.name)
        self.driver(self, st)
        ex.callstack.pop()
        return ex

    # driver vocabulary
    def fresh(self, st, t, name='v'):
        if isinstance(t, str):
            t = self.ex.T.parse(t)
        w = []
        v = fresh_obj(self.ex, st, t, w) if t.k == 'rec' else self.ex.T.fresh(t, name, wf=w)
        st.pc += w
        return v

    def ref(self, st, v, label='v'):
        return self.ex.alloc(st, v, label)

    def assume(self, st, *fs):
        st.pc += list(fs)

    def ready(self, st):
        """preconditions are complete: checked for satisfiability"""
        self.pre_pc = list(st.pc)

    def call(self, st, qual, vals, this=None, nparams=None, pred=None):
        f = self.P.func(qual, nparams, pred)
        st.tu = f.tu
        vals = [v if not (isinstance(v, Rec)) else v for v in vals]
        return self.ex.call(st, f, vals, this)

    def new(self, st, rec, vals, nparams=None):
        """construct an object with the constructor of /repo"""
        t = self.ex.T.parse(rec)
        cs = [c for c in self.P.records[t.name].ctors if not execu.is_copy_ctor(self.ex, c, t) and not c.node.get('isImplicit')
              and (nparams is None or len(c.params) == nparams)]
        cs = [c for c in cs if len(c.params) >= len(vals)] or cs
        c = self.P.defs.get(cs[0].mangled) or cs[0]
        st.tu = c.tu
        return self.ex.construct(st, t, c, vals)

    def oblige(self, st, goal, label):
        self.ex.oblige(st, goal, label, 'ensures')

    def done(self, st, v=None):
        self.outs.append((st, v))

    def rv(self, st, v):
        return self.ex.rv(st, v)
