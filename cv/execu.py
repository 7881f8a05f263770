"""Path-forking symbolic executor / verification-condition generator over the clang AST.

Functions without a contract are expanded in place (so an extracted helper needs no
annotation); functions with a contract are replaced by it (requires checked, modified
locations havocked, ensures assumed).  Loops are cut by inductive invariants: candidates
(supplied by the specification and generic ones) are pruned Houdini style, the survivors
are proved initial and preserved.
"""
import z3
from .values import *
from .values import _split_args
from . import stdmodel

DBL_MAX = z3.Q(2 ** 1024 - 2 ** 971, 1)
import fractions

def real_const(x):
    f = fractions.Fraction(float(x))
    return z3.Q(f.numerator, f.denominator)

class State:
    __slots__ = ('store', 'env', 'pc', 'this', 'frame', 'tu', 'ret', 'notes')
    def __init__(self):
        self.store, self.env, self.pc = {}, {}, []
        self.this, self.frame, self.tu, self.ret = None, None, None, None
        self.notes = ()
    def clone(self):
        s = State()
        s.store, s.env, s.pc = dict(self.store), dict(self.env), list(self.pc)
        s.this, s.frame, s.tu, s.ret = self.this, self.frame, self.tu, self.ret
        s.notes = self.notes
        return s

def choose(g, a, b):
    """If(g, a, b) component by component; None where the shapes differ"""
    if same(a, b):
        return a
    if type(a) is not type(b):
        return None
    la, lb = dict(vleaves(a)), dict(vleaves(b))
    if set(la) != set(lb):
        return None
    sub = {}
    for p, x in la.items():
        y = lb[p]
        if x is y or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y)):
            continue
        if not (z3.is_expr(x) and z3.is_expr(y)) or x.sort() != y.sort():
            return None
        sub[p] = z3.If(g, x, y)
    r = vrebuild(a, sub)
    t = vrebuild(b, sub)
    return r if shape(r) == shape(t) else None

def shape(v):
    """what a value is made of besides its leaves"""
    if isinstance(v, Rec):
        return (str(v.t), tuple((n, shape(x)) for n, x in v.f.items()))
    if isinstance(v, Opt):
        return ('opt', shape(v.val))
    if isinstance(v, Var):
        return ('var', tuple(shape(x) for x in v.alts))
    if isinstance(v, (Seq, MapV)):
        return (type(v).__name__, str(v.t))
    if isinstance(v, Ptr):
        return ('ptr', str(v.to), v.addr is None)
    if isinstance(v, It):
        return ('it', str(v.lv), v.rev)
    if z3.is_expr(v) or isinstance(v, FSpec):
        return ('leaf',)
    return (type(v).__name__, id(v))

class Obl:
    __slots__ = ('pc', 'goal', 'label', 'kind', 'where')
    def __init__(self, pc, goal, label, kind, where):
        self.pc, self.goal, self.label, self.kind, self.where = pc, goal, label, kind, where

class LoopCtx:
    """what a specification sees of a loop"""
    def __init__(self, ex, func, pre, cur, mods, bounds, node):
        self.ex, self.func, self.pre, self.cur, self.mods = ex, func, pre, cur, mods
        self.bounds, self.node = bounds, node
        self.axioms = []
    def ints(self):
        """modified integer leaves: [(label, pre term, current term)]"""
        return [(l, a, b) for l, a, b, t in self.mods if t == 'int']
    def reals(self):
        return [(l, a, b) for l, a, b, t in self.mods if t == 'real']
    def idx(self):
        """loop index candidates relative to their initial value"""
        return [(l, a, b) for l, a, b, t in self.mods if t == 'int' and (l.endswith('.idx') or '.' not in l or l.endswith('.pos'))]
    def vals(self, pred):
        """current (pre, value) pairs of modified roots satisfying pred"""
        out = []
        for r in sorted({m[4] for m in self.full}):
            v = self.cur.store.get(r)
            if v is not None and pred(v):
                out.append((r.split('#')[0], self.pre.store.get(r), v))
        return out

MAXPATHS = 4000

def as01(x):
    """an integer that is the conversion of a truth value, as that truth value"""
    if z3.is_expr(x) and x.sort() == B:
        return x
    if z3.is_int_value(x) and x.as_long() in (0, 1):
        return z3.BoolVal(x.as_long() == 1)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)):
        v = (x.arg(1).as_long(), x.arg(2).as_long())
        if v == (1, 0):
            return x.arg(0)
        if v == (0, 1):
            return z3.Not(x.arg(0))
    return None

class Exec:
    def __init__(self, prog, task=None):
        self.P = prog
        self.T = Types(prog)
        self.task = task
        self.obls = []
        self.outs = []
        self.recording = True
        self.nroot = 0
        self.rootlabel = {}
        self.depth = 0
        self.callstack = []
        self.under_contract = set()
        self.inlined = set()
        self.assumed = set()
        self.contracts = {}
        self.loopcache = {}
        self.enum_cache = {}
        self.strs = {'': 0}
        self.uf = {}
        self.fs = None
        self.nq = 0
        self.npaths = 0
        self.globals = {}
        self.covered = set()
        self.inv_log = []
        self.loop_hook = None
        self.throws = []
        self.merge_calls = True
        self.join = False              # join the branches of an if-statement (many independent decisions in one body)
        self.defer = None
        self.abstract = False
        self.patience = 40.0

    # ------------------------------------------------------------- utilities
    def newroot(self, st, v, label='t'):
        self.nroot += 1
        r = '%s#%d' % (label, self.nroot)
        st.store[r] = v
        return r

    def alloc(self, st, v, label='t'):
        return LRef(self.newroot(st, v, label))

    def where(self, e=None):
        f = self.callstack[-1] if self.callstack else (self.task.name if self.task is not None else '?')
        return f

    def strcode(self, s):
        if s not in self.strs:
            self.strs[s] = len(self.strs)
        return z3.IntVal(self.strs[s])

    def ufn(self, name, *sorts):
        if name not in self.uf:
            self.uf[name] = z3.Function('m_' + name, *sorts)
        return self.uf[name]

    def axiom(self, st, *fs):
        for f in fs:
            st.pc.append(f)

    def assume(self, st, c):
        if z3.is_true(c):
            return
        st.pc.append(c)

    def oblige(self, st, goal, label, kind='safety'):
        """record pc => goal, continue under the assumption that it holds"""
        if not z3.is_expr(goal):
            goal = z3.BoolVal(bool(goal))
        g = z3.simplify(goal)
        if z3.is_true(g):
            if self.recording:
                self.obls.append(Obl([], goal, label, kind, self.where()))
            return
        if self.recording:
            self.obls.append(Obl(list(st.pc), goal, label, kind, self.where()))
        st.pc.append(goal)

    # quick satisfiability: 'unsat' is definite, everything else means maybe
    def check(self, fs, rlimit=400000, second=True):
        self.nq += 1
        if any(has_quant(f) for f in fs):
            s = z3.SimpleSolver()
            s.set('auto_config', False)
            s.set('mbqi', False)
            s.set('rlimit', rlimit)
            s.set('timeout', 20000)
            s.add(*fs)
            if s.check() == z3.unsat:
                return z3.unsat
            if not second:
                return z3.unknown
            rlimit = rlimit // 4
        s = z3.Solver()
        s.set('rlimit', rlimit)
        s.set('timeout', 20000)
        s.add(*fs)
        return s.check()

    def feasible(self, st, c=None):
        if c is not None:
            c = z3.simplify(c)
            if z3.is_false(c):
                return False
            if z3.is_true(c):
                return True
        fs = [p for p in st.pc if not has_quant(p)]
        if c is not None:
            fs = relevant(fs, c)
            fs.append(c)
        return self.check(fs, 200000) != z3.unsat

    def proves(self, st, c, rlimit=1500000, quant=True):
        c0 = z3.simplify(c)
        if z3.is_true(c0):
            return True
        fs = st.pc if quant else [p for p in st.pc if not has_quant(p)]
        return self.check(list(fs) + [z3.Not(c)], rlimit) == z3.unsat

    def split(self, st, c):
        """yield (state, bool) for the feasible sides of condition c"""
        c = z3.simplify(c) if z3.is_expr(c) else z3.BoolVal(bool(c))
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        t = self.feasible(st, c)
        f = self.feasible(st, z3.Not(c)) if t else True
        if t and f:
            self.npaths += 1
            if self.npaths > MAXPATHS:
                raise Unsupported('path explosion')
        if t:
            s = st.clone() if f else st
            if f:
                s.pc.append(c)
            out.append((s, True))
        if f:
            s = st
            if t:
                s.pc.append(z3.Not(c))
            out.append((s, False))
        return out

    # ------------------------------------------------------------- memory
    def read(self, st, lv):
        if isinstance(lv, LRef):
            if lv.root not in st.store:
                raise Unsupported('dead root %s' % lv.root)
            v = st.store[lv.root]
            for p in lv.path:
                v = self.step(st, v, p)
            return v
        return lv

    def step(self, st, v, p):
        k = p[0]
        if k == 'f':
            if isinstance(v, Rec):
                if p[1] not in v.f:
                    raise Unsupported('field %s of %s' % (p[1], v.t.name))
                return v.f[p[1]]
            raise Unsupported('field %s of %r' % (p[1], v))
        if k == 'i':
            et = v.t.args[0]
            return self.T.build(et, [z3.Select(a, plus(v.lo, p[1])) for a in v.data])
        if k == 'kv':
            ks = list(p[1])
            kt = v.t.args[0]
            key = self.T.build(kt, ks)
            if v.t.k == 'set':
                return key
            val = self.T.build(v.t.args[1], [ksel(a, ks) for a in v.val])
            return Rec(Ty('tup', 'pair', (kt, v.t.args[1])), {'first': key, 'second': val})
        if k == 'o':
            return v.val
        if k == 'alt':
            return v.alts[p[1]]
        raise Unsupported('path %r' % (p,))

    def write(self, st, lv, val):
        try:
            st.store[lv.root] = self._wr(st, st.store[lv.root], lv.path, val)
            return True
        except NonFinite:
            # a NaN/Inf reaches a container: stays outside the model
            self.oblige(st, z3.BoolVal(False), 'finite value stored', 'finite')
            return False

    def _wr(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        if p[0] == 'f':
            return v.set(p[1], self._wr(st, v.f[p[1]], path[1:], val))
        if p[0] == 'i':
            et = v.t.args[0]
            new = val if len(path) == 1 else self._wr(st, self.step(st, v, p), path[1:], val)
            ls = self.T.flat(new, et)
            ix = plus(v.lo, p[1])
            return Seq(v.t, v.lo, v.n, [z3.Store(a, ix, x) for a, x in zip(v.data, ls)])
        if p[0] == 'kv':
            new = val if len(path) == 1 else self._wr(st, self.step(st, v, p), path[1:], val)
            if v.t.k == 'set':
                raise Unsupported('write into a set element')
            ls = self.T.flat(new.f['second'], v.t.args[1])
            return MapV(v.t, v.card, v.dom, [kstore(a, list(p[1]), x) for a, x in zip(v.val, ls)])
        if p[0] == 'o':
            return Opt(v.t, v.has, self._wr(st, v.val, path[1:], val))
        if p[0] == 'alt':
            return Var(v.t, v.which, [self._wr(st, a, path[1:], val) if i == p[1] else a for i, a in enumerate(v.alts)])
        raise Unsupported('write path')

    def rv(self, st, v):
        return self.read(st, v) if isinstance(v, LRef) else v

    def lref(self, st, v, label='tmp'):
        if isinstance(v, LRef):
            return v
        return self.alloc(st, v, label)

    def deref(self, st, p, what='pointer dereference'):
        p = self.rv(st, p)
        if isinstance(p, Ptr):
            if p.addr is not None:
                self.oblige(st, p.addr != 0, what + ' of null')
                root = 'heap:' + repr(p.ty)
                if root not in st.store:
                    st.store[root] = Seq(seqty(p.ty), z3.IntVal(0), z3.FreshConst(I, 'heapn'),
                                         [z3.FreshConst(z3.ArraySort(I, s), 'heap') for s in self.T.sorts(p.ty)])
                return LRef(root, (('i', p.addr),))
            self.oblige(st, z3.Not(p.null), what + ' of null')
            if p.to is None:
                return None
            return p.to
        if isinstance(p, It):
            return self.deref_it(st, p)
        if isinstance(p, MIt):
            return self.deref_mit(st, p)
        if isinstance(p, Opt):
            raise Unsupported('deref optional value')
        raise Unsupported('deref %r' % (p,))

    def deref_it(self, st, it):
        s = self.read(st, it.lv)
        ix = it.idx if not it.rev else z3.simplify(s.n - 1 - it.idx)
        self.oblige(st, z3.And(ix >= 0, ix < s.n), 'iterator dereferenced within its container')
        return it.lv.add(('i', ix))

    def enum(self, st, m):
        """ghost enumeration (ascending for ordered containers) of a map's keys"""
        key = (m.dom.get_id(), m.card.get_id())
        ks = self.T.sorts(m.t.args[0])
        if key not in self.enum_cache:
            n = len(self.enum_cache)
            arrs = [z3.Const('en%d_%d' % (n, i), z3.ArraySort(I, s)) for i, s in enumerate(ks)]
            pos = z3.Function('pos%d' % n, *(ks + [I]))
            i, j = z3.Ints('i j')
            k = [z3.Const('k%d' % x, s) for x, s in enumerate(ks)]
            at = lambda t: [z3.Select(a, t) for a in arrs]
            ax = [z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m.card),
                            z3.And(ksel(m.dom, at(i)), pos(*at(i)) == i)), patterns=[arrs[0][i]]),
                  z3.ForAll(k, z3.Implies(ksel(m.dom, k), z3.And(pos(*k) >= 0, pos(*k) < m.card,
                            *[a == b for a, b in zip(at(pos(*k)), k)])), patterns=[ksel(m.dom, k)])]
            if m.t.name in ('map', 'set') and len(ks) == 1 and ks[0] in (I, R):
                ax.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m.card), arrs[0][i] < arrs[0][j]),
                                    patterns=[z3.MultiPattern(arrs[0][i], arrs[0][j])]))
            self.enum_cache[key] = (arrs, pos, ax, m)
        arrs, pos, ax, _ = self.enum_cache[key]
        for a in ax:
            if not any(a.eq(p) for p in st.pc):
                st.pc.append(a)
        return arrs, pos

    def deref_mit(self, st, it):
        m = self.read(st, it.lv)
        if it.kind == 'key':
            self.oblige(st, z3.Not(it.isend), 'dereference of a find() result that may be end()')
            return it.lv.add(('kv', tuple(it.key)))
        if it.kind == 'pos':
            self.oblige(st, z3.And(it.pos >= 0, it.pos < m.card), 'iterator dereferenced within its container')
            arrs, _ = self.enum(st, m)
            return it.lv.add(('kv', tuple(z3.Select(a, it.pos) for a in arrs)))
        self.oblige(st, z3.BoolVal(False), 'dereference of end()')
        raise Unsupported('deref end')

    # ------------------------------------------------------------- default values
    def default(self, st, t):
        """value-initialised (zero / default constructed)"""
        k = t.k
        if k in ('int', 'str'):
            return z3.IntVal(0)
        if k == 'real':
            return z3.RealVal(0)
        if k == 'bool':
            return z3.BoolVal(False)
        if k == 'ptr':
            return Ptr(None)
        if k == 'opt':
            return Opt(t, z3.BoolVal(False), self.T.fresh(t.args[0], 'none'))
        if k == 'seq':
            return Seq(t, z3.IntVal(0), z3.IntVal(t.bits if t.name == 'carray' else 0),
                       [self.zeroarr(s) for s in self.T.sorts(t.args[0])])
        if k in ('map', 'set'):
            ks = self.T.sorts(t.args[0])
            d = z3.BoolVal(False)
            for s in reversed(ks):
                d = z3.K(s, d)
            return MapV(t, z3.IntVal(0), d, [z3.FreshConst(karr(ks, s), 'mv') for s in (self.T.sorts(t.args[1]) if k == 'map' else [])])
        if k == 'tup':
            return Rec(t, {n: self.default(st, a) for n, a in zip(self.T.tupnames(t), t.args)})
        if k == 'rec':
            return self.construct_default(st, t, zero=True)
        if k == 'var':
            return Var(t, z3.IntVal(0), [self.default(st, t.args[0])] + [self.T.fresh(a, 'alt') for a in t.args[1:]])
        return Opaque(t)

    def zeroarr(self, s):
        if s.kind() == z3.Z3_ARRAY_SORT:
            return z3.FreshConst(z3.ArraySort(I, s), 'arr')
        z = {z3.Z3_INT_SORT: z3.IntVal(0), z3.Z3_REAL_SORT: z3.RealVal(0), z3.Z3_BOOL_SORT: z3.BoolVal(False)}
        return z3.K(I, z[s.kind()])

    def uninit(self, st, t):
        """default-initialised: members without initialiser are arbitrary"""
        if t.k in ('int', 'real', 'bool'):
            w = []
            v = self.T.fresh(t, 'uninit', wf=w)
            st.pc += w
            return v
        if t.k == 'rec':
            return self.construct_default(st, t, zero=False)
        if t.k == 'tup':
            if t.name in ('pair', 'tuple'):
                return self.default(st, t)
            return self.T.fresh(t, 'uninit')
        if t.k == 'seq' and t.name == 'carray':
            w = []
            v = self.T.fresh(t, 'uninit', wf=w)
            st.pc += w
            return v
        return self.default(st, t)

    def construct_default(self, st, t, zero):
        r = self.P.records[t.name]
        for c in r.ctors:
            if not c.params and not c.node.get('isImplicit') and not c.node.get('explicitlyDefaulted'):
                res = self.construct(st, t, c, [])
                if len(res) == 1:
                    return res[0][1]
                raise Unsupported('forking default constructor')
            if c.params and all('init' in p for p in c.params) and not c.node.get('isImplicit') and not is_copy_ctor(self, c, t):
                res = self.construct(st, t, c, [])
                if len(res) == 1:
                    return res[0][1]
                raise Unsupported('forking default constructor')
        f = {}
        for n, ft in self.T.fields(t):
            fn = self.T.field_node(t, n)
            init = [x for x in fn.get('inner', []) if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))] if fn else []
            if init:
                v = self.ev1(init[0], st)
                v = self.conv_init(st, ft, v)
                f[n] = v
            else:
                f[n] = self.default(st, ft) if zero else self.uninit(st, ft)
        return Rec(t, f)

    def conv_init(self, st, t, v):
        if t.k == 'ref':
            return v
        v = self.rv(st, v)
        if t.k == 'real' and z3.is_expr(v) and v.sort() == I:
            return z3.ToReal(v)
        return v

    def ev1(self, e, st):
        r = self.ev(e, st)
        if len(r) != 1 or r[0][0] is not st:
            raise Unsupported('forking initialiser')
        return r[0][1]

    # ------------------------------------------------------------- expressions
    def ev(self, e, st):
        """list of (state, value); glvalues evaluate to LRef"""
        m = getattr(self, 'x_' + e['kind'], None)
        if m is None:
            raise Unsupported('expression ' + e['kind'])
        return m(e, st)

    def evs(self, es, st):
        """evaluate a list of expressions left to right"""
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def _pass(self, e, st):
        return self.ev(e['inner'][0], st)
    x_ParenExpr = x_ExprWithCleanups = x_CXXBindTemporaryExpr = x_ConstantExpr = x_SubstNonTypeTemplateParmExpr = _pass

    def x_MaterializeTemporaryExpr(self, e, st):
        return [(s, self.lref(s, v)) for s, v in self.ev(e['inner'][0], st)]

    def x_IntegerLiteral(self, e, st):
        return [(st, z3.IntVal(int(e['value'])))]

    def x_CharacterLiteral(self, e, st):
        return [(st, z3.IntVal(int(e['value'])))]

    def x_FloatingLiteral(self, e, st):
        v = e['value']
        return [(st, real_const(v))]

    def x_CXXBoolLiteralExpr(self, e, st):
        return [(st, z3.BoolVal(bool(e['value'])))]

    def x_StringLiteral(self, e, st):
        s = e.get('value', '""')
        return [(st, self.strcode(s[1:-1] if s.startswith('"') else s))]

    def x_CXXNullPtrLiteralExpr(self, e, st):
        return [(st, Ptr(None))]

    def x_GNUNullExpr(self, e, st):
        return [(st, Ptr(None))]

    def x_ImplicitValueInitExpr(self, e, st):
        return [(st, self.default(st, self.T.of(e['type'])))]

    x_CXXScalarValueInitExpr = x_ImplicitValueInitExpr

    def x_CXXThisExpr(self, e, st):
        return [(st, Ptr(st.this, z3.BoolVal(False)))]

    def x_UnaryExprOrTypeTraitExpr(self, e, st):
        return [(st, z3.IntVal(8))]

    def x_CXXDefaultArgExpr(self, e, st):
        inner = e.get('inner', [])
        if inner:
            return self.ev(inner[0], st)
        raise DefaultArg()

    def x_CXXDefaultInitExpr(self, e, st):
        if e.get('inner'):
            return self.ev(e['inner'][0], st)
        raise DefaultInit()

    def x_LambdaExpr(self, e, st):
        return [(st, Clo(e, dict(st.env), st.this, st.tu, st.frame))]

    def x_CXXStdInitializerListExpr(self, e, st):
        return self.ev(e['inner'][0], st)

    def x_DeclRefExpr(self, e, st):
        d = e['referencedDecl']
        k = d['kind']
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl', 'DecompositionDecl'):
            if d['id'] in st.env:
                return [(st, st.env[d['id']])]
            return [(st, self.globalvar(st, d))]
        if k == 'EnumConstantDecl':
            v = self.P.enumconst.get((st.tu.rel, d['id']))
            if v is None:
                raise Unsupported('enum constant ' + d.get('name', ''))
            return [(st, z3.IntVal(v))]
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return [(st, FnRef(d, st.tu))]
        raise Unsupported('reference to ' + k)

    def globalvar(self, st, d):
        """namespace-scope or static constants: evaluate the initialiser of the current source"""
        node = st.tu.decl.get(d['id'])
        name = d.get('name', '?')
        if node is None or not node.get('inner'):
            g = stdmodel.std_global(self, st, d)
            if g is not None:
                return g
            q = st.tu.qual.get(d['id'], name)
            cands = [(tu, i) for tu in self.P.tus.values() for i, qq in tu.qual.items() if qq == q and tu.decl[i].get('inner') and tu.decl[i].get('kind') == 'VarDecl']
            if not cands:
                raise Unsupported('global ' + name)
            tu, i = cands[0]
            node = tu.decl[i]
        else:
            tu = st.tu
        key = ('G', tu.rel, node['id'])
        root = 'glob:%s:%s' % (name, node['id'])
        if root in st.store:
            return LRef(root)
        t = self.T.of(node['type'])
        isconst = 'const' in node['type']['qualType'] or node.get('constexpr')
        if not isconst:
            w = []
            st.store[root] = self.T.fresh(t, name, wf=w)
            st.pc += w
            return LRef(root)
        save = st.env, st.tu
        st.env, st.tu = {}, tu
        init = [x for x in node['inner'] if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))][0]
        v = self.ev1(init, st)
        st.env, st.tu = save
        v = self.conv_init(st, t, v)
        st.store[root] = v
        return LRef(root)

    def x_MemberExpr(self, e, st):
        out = []
        if e.get('type', {}).get('qualType') == '<bound member function type>':
            raise Unsupported('bound member outside a call')
        ref = e.get('referencedMemberDecl')
        node = st.tu.decl.get(ref)
        if node is not None and node.get('kind') == 'VarDecl':
            return [(st, self.globalvar(st, {'id': ref, 'name': e['name']}))]
        if node is not None and node.get('kind') == 'EnumConstantDecl':
            return [(st, z3.IntVal(self.P.enumconst[(st.tu.rel, ref)]))]
        for s, b in self.ev(e['inner'][0], st):
            if e.get('isArrow'):
                b = self.deref(s, b)
                if b is None:
                    continue
            if isinstance(b, LRef):
                v = self.read(s, b)
                if isinstance(v, (Rec,)) and isinstance(v.f.get(e['name']), LRef):
                    out.append((s, v.f[e['name']]))
                else:
                    out.append((s, b.add(('f', e['name']))))
            elif isinstance(b, Rec):
                out.append((s, b.f[e['name']]))
            else:
                raise Unsupported('member %s of %r' % (e['name'], b))
        return out

    def x_ImplicitCastExpr(self, e, st):
        ck = e['castKind']
        out = []
        for s, v in self.ev(e['inner'][0], st):
            out += self.cast(e, s, v, ck)
        return out

    def x_CXXStaticCastExpr(self, e, st):
        return self.x_ImplicitCastExpr(e, st)
    x_CStyleCastExpr = x_CXXFunctionalCastExpr = x_CXXConstCastExpr = x_CXXDynamicCastExpr = x_CXXStaticCastExpr

    def cast(self, e, s, v, ck):
        if ck == 'LValueToRValue':
            return [(s, self.rv(s, v))]
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'ArrayToPointerDecay',
                  'UncheckedDerivedToBase', 'DerivedToBase', 'BuiltinFnToFnPtr', 'BaseToDerived', 'Dynamic', 'BitCast'):
            return [(s, v)]
        if ck == 'NullToPointer':
            return [(s, Ptr(None))]
        if ck == 'ToVoid':
            return [(s, None)]
        if ck == 'IntegralToFloating':
            v = self.num(s, v)
            return [(s, z3.ToReal(v) if v.sort() == I else v)]
        if ck == 'FloatingToIntegral':
            v = self.rv(s, v)
            if isinstance(v, FSpec):
                self.oblige(s, z3.BoolVal(False), 'conversion of a non-finite value to an integer', 'finite')
                return []
            t = self.T.of(e['type'])
            r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            return [(s, self.to_int(s, t, r))]
        if ck == 'IntegralCast':
            v = self.num(s, v)
            return [(s, self.to_int(s, self.T.of(e['type']), v))]
        if ck == 'FloatingCast':
            return [(s, self.rv(s, v))]
        if ck == 'IntegralToBoolean':
            return [(s, self.num(s, v) != 0)]
        if ck == 'FloatingToBoolean':
            v = self.rv(s, v)
            return [(s, z3.BoolVal(True) if isinstance(v, FSpec) else v != 0)]
        if ck == 'PointerToBoolean':
            v = self.rv(s, v)
            return [(s, z3.Not(v.null))]
        raise Unsupported('cast ' + ck)

    def to_int(self, s, t, v):
        """conversion of a mathematical integer to type t: unsigned wraps"""
        if t.k == 'bool':
            return v != 0
        if t.k != 'int' or t.signed:
            return v
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return z3.IntVal(v.as_long() % 2 ** t.bits)
        if self.proves(s, v >= 0, 60000, quant=False):
            return v
        return z3.If(v >= 0, v, v + 2 ** t.bits)

    def num(self, s, v):
        v = self.rv(s, v)
        if z3.is_expr(v) and v.sort() == B:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def x_UnaryOperator(self, e, st):
        op = e['opcode']
        out = []
        for s, v in self.ev(e['inner'][0], st):
            if op == '!':
                out.append((s, z3.Not(self.rv(s, v))))
            elif op == '-':
                x = self.num(s, v)
                if isinstance(x, FSpec):
                    out.append((s, {'nan': NAN, '+inf': NINF, '-inf': PINF}[x.kind]))
                else:
                    r = -x
                    t = self.T.of(e['type'])
                    out.append((s, self.to_int(s, t, r) if t.k == 'int' else r))
            elif op == '+':
                out.append((s, self.num(s, v)))
            elif op in ('++', '--'):
                old = self.rv(s, v)
                if isinstance(old, (It, Ptr)):
                    if not isinstance(old, It):
                        raise Unsupported('pointer arithmetic')
                    new = It(old.lv, plus(old.idx, 1 if op == '++' else -1), old.rev)
                else:
                    new = old + 1 if op == '++' else old - 1
                    t = self.T.of(e['type'])
                    if t.k == 'int' and op == '--':
                        new = self.to_int(s, t, new)
                    new = z3.simplify(new)
                self.write(s, v, new)
                out.append((s, old if e.get('isPostfix') else v))
            elif op == '*':
                v = self.rv(s, v)
                if isinstance(v, (FnRef, Clo)):
                    out.append((s, v))
                else:
                    l = self.deref(s, v)
                    if l is not None:
                        out.append((s, l))
            elif op == '&':
                if isinstance(v, FnRef):
                    out.append((s, v))
                else:
                    out.append((s, Ptr(v, z3.BoolVal(False))))
            elif op == '~':
                raise Unsupported('bit operation')
            else:
                raise Unsupported('unary ' + op)
        return out

    def x_BinaryOperator(self, e, st):
        op = e['opcode']
        a, b = e['inner']
        if op in ('&&', '||'):
            out = []
            for s, v in self.ev(a, st):
                v = self.rv(s, v)
                for s2, t in self.shortcut(s, v, op, b):
                    out.append((s2, t))
            return out
        if op == '=':
            out = []
            for s, (rv, l) in self.evs([b, a], st):
                v = self.rv(s, rv)
                v = self.conv_init(s, self.T.of(e['type']), v)
                if self.write(s, l, v):
                    out.append((s, l))
            return out
        if op == ',':
            return [(s, vs[1]) for s, vs in self.evs([a, b], st)]
        out = []
        for s, (x, y) in self.evs([a, b], st):
            x, y = self.num(s, x), self.num(s, y)
            out += self.binop(s, op, x, y, self.T.of(e['type']))
        return out

    def shortcut(self, s, v, op, b):
        """a && b / a || b without forking when b is pure"""
        v = z3.simplify(v)
        stop = z3.is_false(v) if op == '&&' else z3.is_true(v)
        go = z3.is_true(v) if op == '&&' else z3.is_false(v)
        if stop:
            return [(s, v)]
        if go:
            return [(s2, self.rv(s2, w)) for s2, w in self.ev(b, s)]
        cond = v if op == '&&' else z3.Not(v)
        s1 = s.clone()
        s1.pc.append(cond)
        if not self.feasible(s, cond):
            return [(s, z3.BoolVal(op == '||'))]
        n0 = len(s1.pc)
        st0 = dict(s1.store)
        nt = len(self.throws)
        res = self.ev(b, s1)
        if len(res) == 1 and len(self.throws) == nt and all(same(res[0][0].store.get(k), x) for k, x in st0.items()):
            s2, w = res[0]
            w = self.rv(s2, w)
            # facts learned while evaluating b (obligations, axioms) hold only under cond
            for f in s2.pc[n0:]:
                s.pc.append(z3.Implies(cond, f))
            for k, x in s2.store.items():
                if k not in s.store:
                    s.store[k] = x
            return [(s, z3.And(v, w) if op == '&&' else z3.Or(v, w))]
        out = [(s2, self.rv(s2, w)) for s2, w in res]
        s.pc.append(z3.Not(cond))
        if self.feasible(s):
            out.append((s, z3.BoolVal(op == '||')))
        return out

    CMP = {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b,
           '==': lambda a, b: a == b, '!=': lambda a, b: a != b}

    def binop(self, s, op, x, y, t):
        if isinstance(x, FSpec) or isinstance(y, FSpec):
            return self.binop_special(s, op, x, y)
        if isinstance(x, (It, Ptr, MIt)) or isinstance(y, (It, Ptr, MIt)):
            return [(s, stdmodel.itop(self, s, op, x, y))]
        if not z3.is_expr(x) or not z3.is_expr(y):
            raise Unsupported('operands of %s: %r %r' % (op, x, y))
        if x.sort() != y.sort():
            if x.sort() == I:
                x = z3.ToReal(x)
            if y.sort() == I:
                y = z3.ToReal(y)
        if op in self.CMP:
            return [(s, self.CMP[op](x, y))]
        isint = x.sort() == I
        if op == '+':
            r = x + y
        elif op == '-':
            r = x - y
        elif op == '*':
            r = x * y if isint or not self.abstract else self.amul(x, y)
            if not isint and self.abstract == 'poly' and x.eq(y):
                s.pc.append(r >= 0)
        elif op == '/':
            if isint:
                self.oblige(s, y != 0, 'integer division by zero')
                q = z3.If(x >= 0, x / y, -((-x) / y))   # z3: floor for positive divisor, ceil for negative: matches truncation on |x|
                return [(s, z3.simplify(q))]
            return self.fdiv(s, x, y)
        elif op == '%':
            self.oblige(s, y != 0, 'integer modulo by zero')
            q = z3.If(x >= 0, x / y, -((-x) / y))
            return [(s, x - y * q)]
        elif op in ('<<', '>>', '&', '|', '^'):
            a, b = as01(x), as01(y)
            if a is None or b is None or op not in '&|^':
                raise Unsupported('bit operation')
            r = z3.If({'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](a, b), z3.IntVal(1), z3.IntVal(0))
        else:
            raise Unsupported('binary ' + op)
        if isint and t.k == 'int' and not t.signed and op == '-':
            r = self.to_int(s, t, r)
        return [(s, r)]

    # products and quotients of variables left uninterpreted (a sound weakening, chosen per contract)
    # -- products as sums of sorted monomials of uninterpreted factors: equal for equal polynomials
    def poly(self, e):
        if not hasattr(self, 'monos'):
            self.monos = {}
        from fractions import Fraction as F
        def go(e, k, out):
            if e.get_id() in self.monos:
                m = self.monos[e.get_id()][1]
                out[m] = out.get(m, 0) + k
                return
            if z3.is_rational_value(e) or z3.is_int_value(e):
                out[()] = out.get((), 0) + k * (F(e.numerator_as_long(), e.denominator_as_long()) if z3.is_rational_value(e) else e.as_long())
                return
            d = e.decl().kind() if z3.is_app(e) else None
            if d == z3.Z3_OP_ADD:
                for c in e.children():
                    go(c, k, out)
            elif d == z3.Z3_OP_SUB:
                go(e.arg(0), k, out)
                for c in e.children()[1:]:
                    go(c, -k, out)
            elif d == z3.Z3_OP_UMINUS:
                go(e.arg(0), -k, out)
            elif d == z3.Z3_OP_TO_REAL:
                sub = {}
                go(e.arg(0), 1, sub)
                for m, c in sub.items():
                    m2 = tuple(self.atom(z3.ToReal(self.atoms[a])) if self.atoms[a].sort() == I else a for a in m)
                    out[m2] = out.get(m2, 0) + k * c
            elif d == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in e.children()) <= 1:
                rest = None
                for c in e.children():
                    if z3.is_rational_value(c) or z3.is_int_value(c):
                        k = k * (F(c.numerator_as_long(), c.denominator_as_long()) if z3.is_rational_value(c) else c.as_long())
                    else:
                        rest = c
                if rest is None:
                    out[()] = out.get((), 0) + k
                else:
                    go(rest, k, out)
            elif d == z3.Z3_OP_DIV and z3.is_rational_value(e.arg(1)):
                go(e.arg(0), k / F(e.arg(1).numerator_as_long(), e.arg(1).denominator_as_long()), out)
            else:
                m = (self.atom(e),)
                out[m] = out.get(m, 0) + k
        out = {}
        go(z3.simplify(e, arith_lhs=False), F(1), out)
        return {m: c for m, c in out.items() if c}

    def atom(self, e):
        if not hasattr(self, 'atoms'):
            self.atoms = {}
        self.atoms[e.get_id()] = e
        return e.get_id()

    def unpoly(self, p):
        mul = self.ufn('mul', R, R, R)
        out = []
        for m in sorted(p):
            t = None
            for n, a in enumerate(m):
                x = self.atoms[a]
                if t is None:
                    t = x
                else:
                    t = mul(t, x)
                    self.monos[t.get_id()] = (t, m[:n + 1])
            c = z3.RealVal(str(p[m]))
            out.append(c if t is None else t if p[m] == 1 else c * t)
        return z3.Sum(*out) if len(out) > 1 else out[0] if out else z3.RealVal(0)

    def pmul(self, x, y):
        p, q, r = self.poly(x), self.poly(y), {}
        for m, c in p.items():
            for n, d in q.items():
                k = tuple(sorted(m + n))
                r[k] = r.get(k, 0) + c * d
        return self.unpoly({m: c for m, c in r.items() if c})

    def pdiv(self, x, y):
        q = self.poly(y)
        # a common factor of the divisor's coefficients is taken out, so that equal divisors have equal inverses
        lead = q[sorted(q)[0]]
        inv = self.ufn('inv', R, R)(self.unpoly({m: c / lead for m, c in q.items()}))
        return self.pmul(x, inv / z3.RealVal(str(lead)))

    def amul(self, x, y):
        if self.abstract == 'poly':
            return self.pmul(x, y)
        if z3.is_rational_value(z3.simplify(x)) or z3.is_rational_value(z3.simplify(y)):
            return x * y
        return self.ufn('mul', R, R, R)(x, y)

    def adiv(self, x, y):
        if self.abstract == 'poly' and not z3.is_rational_value(z3.simplify(y)):
            return self.pdiv(x, y)
        if z3.is_rational_value(z3.simplify(y)):
            return x / y
        return self.ufn('div', R, R, R)(x, y)

    def fdiv(self, s, x, y):
        out = []
        for s2, z in self.split(s, y == 0):
            if not z:
                out.append((s2, x / y if not self.abstract else self.adiv(x, y)))
                if self.abstract == True and not z3.is_rational_value(z3.simplify(y)):
                    d = out[-1][1]
                    s2.pc.append(z3.Implies(y > 0, z3.And((d > 0) == (x > 0), (d < 0) == (x < 0))))
                continue
            for s3, zz in self.split(s2, x == 0):
                if zz:
                    out.append((s3, NAN))
                else:
                    for s4, p in self.split(s3, x > 0):
                        # the sign of a zero divisor is not modelled: +0 assumed
                        out.append((s4, PINF if p else NINF))
        return out

    def binop_special(self, s, op, x, y):
        def k(v):
            return v.kind if isinstance(v, FSpec) else 'fin'
        a, b = k(x), k(y)
        if op in self.CMP:
            if 'nan' in (a, b):
                return [(s, z3.BoolVal(op == '!='))]
            rank = {'-inf': -1, 'fin': 0, '+inf': 1}
            return [(s, z3.BoolVal(bool({'<': rank[a] < rank[b], '>': rank[a] > rank[b], '<=': rank[a] <= rank[b],
                                         '>=': rank[a] >= rank[b], '==': a == b, '!=': a != b}[op])))]
        if 'nan' in (a, b):
            return [(s, NAN)]
        if op in '+-':
            if op == '-':
                b = {'+inf': '-inf', '-inf': '+inf', 'fin': 'fin'}[b]
            if a == 'fin':
                return [(s, FSpec(b))]
            if b == 'fin' or a == b:
                return [(s, FSpec(a))]
            return [(s, NAN)]
        if op == '/' and b != 'fin':
            return [(s, NAN)] if a != 'fin' else [(s, z3.RealVal(0))]
        if op in '*/':
            fin = x if a == 'fin' else y if b == 'fin' else None
            inf = x if a != 'fin' else y
            if fin is None:
                return [(s, PINF if a == b else NINF)]
            out = []
            for s2, z in self.split(s, fin == 0):
                if z:
                    out.append((s2, NAN if op == '*' else inf))
                else:
                    for s3, p in self.split(s2, fin > 0):
                        out.append((s3, inf if p else {'+inf': NINF, '-inf': PINF}[inf.kind]))
            return out
        raise Unsupported('special ' + op)

    def x_CompoundAssignOperator(self, e, st):
        op = e['opcode'][:-1]
        out = []
        for s, (y, l) in self.evs([e['inner'][1], e['inner'][0]], st):
            x, y = self.num(s, l), self.num(s, y)
            t = self.T.of(e['type'])
            ct = self.T.of(e.get('computeResultType', e['type']))
            for s2, r in self.binop(s, op, x, y, ct):
                if t.k == 'int' and z3.is_expr(r) and r.sort() == R:
                    r = z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
                if t.k == 'int' and not t.signed:
                    r = self.to_int(s2, t, r)
                if self.write(s2, l, r):
                    out.append((s2, l))
        return out

    def x_ConditionalOperator(self, e, st):
        c, a, b = e['inner']
        out = []
        for s, v in self.ev(c, st):
            v = self.rv(s, v)
            for s2, t in self.split(s, v):
                out += self.ev(a if t else b, s2)
        return out

    def x_InitListExpr(self, e, st):
        t = self.T.of(e['type'])
        inner = e.get('inner', [])
        if t.k in ('int', 'real', 'bool', 'str', 'ptr', 'opt'):
            return self.ev(inner[0], st) if inner else [(st, self.default(st, t))]
        if t.k == 'seq':
            out = []
            for s, vs in self.evs(inner, st):
                q = self.default(s, t)
                et = t.args[0]
                cols = list(q.data)
                for i, v in enumerate(vs):
                    ls = self.T.flat(self.conv_init(s, et, v), et)
                    cols = [z3.Store(a, z3.IntVal(i), x) for a, x in zip(cols, ls)]
                n = t.bits if t.name == 'carray' else len(vs)
                out.append((s, Seq(t, z3.IntVal(0), z3.IntVal(n), cols)))
            return out
        if t.k == 'rec':
            fields = self.T.fields(t)
            # DefaultInit entries
            out = [(st, {})]
            for i, (n, ft) in enumerate(fields):
                nxt = []
                for s, f in out:
                    if i < len(inner) and inner[i].get('kind') != 'CXXDefaultInitExpr':
                        for s2, v in self.ev(inner[i], s):
                            f2 = dict(f)
                            f2[n] = self.conv_init(s2, ft, v)
                            nxt.append((s2, f2))
                    else:
                        f2 = dict(f)
                        fn = self.T.field_node(t, n)
                        init = [x for x in fn.get('inner', []) if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
                        f2[n] = self.conv_init(s, ft, self.ev1(init[0], s)) if init else self.default(s, ft)
                        nxt.append((s, f2))
                out = nxt
            return [(s, Rec(t, f)) for s, f in out]
        if t.k == 'tup':
            out = []
            for s, vs in self.evs(inner, st):
                f = {}
                for i, (n, ft) in enumerate(zip(self.T.tupnames(t), t.args)):
                    f[n] = self.conv_init(s, ft, vs[i]) if i < len(vs) else self.default(s, ft)
                out.append((s, Rec(t, f)))
            return out
        raise Unsupported('initialiser list of %r' % t)

    def x_ArraySubscriptExpr(self, e, st):
        out = []
        for s, (b, i) in self.evs(e['inner'], st):
            i = self.num(s, i)
            if isinstance(b, LRef):
                v = self.read(s, b)
                if isinstance(v, Seq):
                    self.oblige(s, z3.And(i >= 0, i < v.n), 'array index in range')
                    out.append((s, b.add(('i', i))))
                    continue
                b = v
            if isinstance(b, Ptr) and b.to is not None:
                v = self.read(s, b.to)
                if isinstance(v, Seq):
                    self.oblige(s, z3.And(i >= 0, i < v.n), 'array index in range')
                    out.append((s, b.to.add(('i', i))))
                    continue
            raise Unsupported('subscript')
        return out

    def x_CXXNewExpr(self, e, st):
        out = []
        for s, v in self.ev(e['inner'][0], st):
            out.append((s, Ptr(self.alloc(s, self.rv(s, v), 'new'), z3.BoolVal(False))))
        return out

    def x_CXXThrowExpr(self, e, st):
        self.throws.append((st, e))
        if self.task is not None:
            self.task.on_throw(self, st, e)
        return []

    # construction ---------------------------------------------------------
    def x_CXXConstructExpr(self, e, st):
        t = self.T.of(e['type'])
        args = e.get('inner', [])
        if t.k == 'ref':
            t = t.args[0]
        ct = e.get('ctorType', {}).get('qualType', '')
        if t.k == 'rec':
            c = self.find_ctor(t, ct, len(args))
            if c is None or c.node.get('isImplicit') or c.node.get('explicitlyDefaulted'):
                if len(args) == 1:
                    return [(s, self.rv(s, v)) for s, v in self.ev(args[0], st)]
                if not args:
                    return [(st, self.construct_default(st, t, zero=e.get('zeroing', False)))]
                raise Unsupported('constructor of %s' % t.name)
            out = []
            for s, vs in self.evargs(c, args, st):
                out += self.construct(s, t, c, vs)
            return out
        return stdmodel.construct(self, e, t, args, st)

    def x_CXXTemporaryObjectExpr(self, e, st):
        return self.x_CXXConstructExpr(e, st)

    def find_ctor(self, t, ct, n):
        r = self.P.records[t.name]
        ctors = r.ctors
        best = [c for c in ctors if c.node['type']['qualType'] == ct]
        if not best:
            best = [c for c in ctors if len(c.params) == n and not is_copy_ctor(self, c, t)]
            if n == 1 and any(x in ct for x in (short(t.name) + ' &', short(t.name) + ' &&', t.name + ' &')):
                best = [c for c in ctors if len(c.params) == 1 and is_copy_ctor(self, c, t)]
        if not best:
            best = [c for c in ctors if len(c.params) >= n and all('init' in p for p in c.params[n:])]
        if not best:
            return None
        c = best[0]
        d = self.P.defs.get(c.mangled) if c.mangled else None
        return d or c

    def evargs(self, f, args, st):
        """arguments, with default arguments taken from the callee's declaration"""
        res = [(st, [])]
        for i, a in enumerate(args):
            nxt = []
            for s, vs in res:
                if a.get('kind') == 'CXXDefaultArgExpr' and not a.get('inner'):
                    p = f.params[i] if f is not None and i < len(f.params) else None
                    inner = self.default_arg(f, i)
                    if inner is None:
                        raise Unsupported('default argument')
                    tu0 = s.tu
                    s.tu = inner[1]
                    rs = self.ev(inner[0], s)
                    for s2, v in rs:
                        s2.tu = tu0
                        nxt.append((s2, vs + [v]))
                else:
                    for s2, v in self.ev(a, s):
                        nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def default_arg(self, f, i):
        """(init expression, tu) of parameter i, searching redeclarations"""
        if f is None:
            return None
        for tu in self.P.tus.values():
            for n in tu.decl.values():
                if n.get('kind') == f.node['kind'] and n.get('mangledName') == f.mangled and f.mangled:
                    ps = [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']
                    if i < len(ps) and ps[i].get('inner'):
                        x = [c for c in ps[i]['inner'] if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
                        if x:
                            return x[0], tu
        return None

    def construct(self, st, t, c, vals):
        """run a repo constructor, returns [(state, Rec)]"""
        k = self.contracts.get((c.qual, len(c.params)))
        if k is not None:
            vals = [v if isinstance(v, LRef) else self.conv_init(st, self.T.of(p['type']), v) for p, v in zip(c.params, vals)]
            return self.apply_contract(st, k, c, vals, None)
        fields = self.T.fields(t)
        obj = self.alloc(st, Rec(t, {}), short(t.name))
        f = {}
        inits = {}
        bases = []
        for ini in c.inits:
            if 'anyInit' in ini:
                inits[ini['anyInit'].get('name')] = ini
            elif 'baseInit' in ini:
                bases.append(ini)
            elif 'delegatingInit' in ini:
                raise Unsupported('delegating constructor')
        save = st.env, st.this, st.tu, st.frame
        env = {}
        st.env, st.this, st.tu = env, obj, c.tu
        self.callstack.append(c.qual)
        try:
            self.bind(st, c, vals)
            states = [(st, {})]
            for bi in bases:
                nxt = []
                for s, ff in states:
                    for s2, v in self.ev(bi['inner'][0], s):
                        v = self.rv(s2, v)
                        if isinstance(v, Rec):
                            g = dict(ff)
                            g.update(v.f)
                            nxt.append((s2, g))
                        elif 'static_visitor' in str(bi.get('baseInit', '')) or 'static_visitor' in str(bi['inner'][0].get('type', '')):
                            nxt.append((s2, dict(ff)))
                        else:
                            raise Unsupported('base initialiser')
                states = nxt
            for n, ft in fields:
                nxt = []
                for s, ff in states:
                    s.store[obj.root] = Rec(t, ff)
                    if n in ff and n not in inits:
                        nxt.append((s, ff))
                        continue
                    if n in inits:
                        x = inits[n]['inner'][0]
                        if x.get('kind') == 'CXXDefaultInitExpr' and not x.get('inner'):
                            x = [y for y in self.T.field_node(t, n)['inner'] if y.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))][0]
                        if x.get('kind') == 'ParenListExpr':
                            x = x['inner'][0]
                        for s2, v in self.ev(x, s):
                            g = dict(ff)
                            g[n] = self.conv_init(s2, ft, v)
                            nxt.append((s2, g))
                    else:
                        fn = self.T.field_node(t, n)
                        init = [y for y in (fn or {}).get('inner', []) if y.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
                        g = dict(ff)
                        g[n] = self.conv_init(s, ft, self.ev1(init[0], s)) if init else self.uninit(s, ft)
                        nxt.append((s, g))
                states = nxt
            out = []
            for s, ff in states:
                s.store[obj.root] = Rec(t, ff)
                if c.body is not None:
                    for s2, oc in self.stmt(c.body, s):
                        out.append(s2)
                else:
                    out.append(s)
        finally:
            self.callstack.pop()
        res = []
        for s in out:
            s.env, s.this, s.tu, s.frame = dict(save[0]), save[1], save[2], save[3]
            v = s.store[obj.root]
            res.append((s, v))
        return res

    def bind(self, st, f, vals):
        for i, p in enumerate(f.params):
            if i < len(vals):
                v = vals[i]
            else:
                d = self.default_arg(f, i)
                if d is None:
                    raise Unsupported('missing argument of ' + f.qual)
                tu0 = st.tu
                st.tu = d[1]
                v = self.ev1(d[0], st)
                st.tu = tu0
            pt = self.T.of(p['type'])
            if pt.k == 'ref':
                if not isinstance(v, LRef):
                    v = self.alloc(st, v, p.get('name', 'arg'))
                st.env[p['id']] = v
            else:
                v = self.conv_init(st, pt, v)
                st.env[p['id']] = self.alloc(st, v, p.get('name', 'arg'))
                self.rootlabel[p.get('name', 'arg')] = st.env[p['id']].root

    # calls ------------------------------------------------------------------
    def resolve(self, st, declid, name=None):
        """Func with a body for a declaration id of the current TU"""
        n = st.tu.decl.get(declid)
        if n is None:
            return None
        m = n.get('mangledName')
        f = self.P.defs.get(m) if m else None
        if f is None:
            q = st.tu.qual.get(declid)
            if q in self.P.byqual:
                c = [g for g in self.P.byqual[q] if g.sig == n['type']['qualType']]
                if c:
                    f = c[0]
        return f

    def x_CallExpr(self, e, st):
        callee, args = e['inner'][0], e['inner'][1:]
        fr = self.ev(callee, st)
        out = []
        for s, fv in fr:
            fv = self.rv(s, fv)
            if isinstance(fv, FnRef):
                f = self.resolve(s, fv.node['id'])
                if f is not None or fv.node['id'] in s.tu.decl:
                    if f is None:
                        q = s.tu.qual.get(fv.node['id'], '?')
                        if q in self.contracts:
                            for s2, vs in self.evargs(None, args, s):
                                out += self.apply_contract(s2, self.contracts[q], None, vs, None)
                            continue
                        f = self.load_on_demand(q, s.tu.decl[fv.node['id']])
                    for s2, vs in self.evargs(f, args, s):
                        out += self.call(s2, f, vs, None)
                else:
                    for s2, vs in self.evs(args, s):
                        out += stdmodel.call(self, s2, fv.node['name'], vs, e, fv.node)
            elif isinstance(fv, Clo):
                for s2, vs in self.evs(args, s):
                    out += self.call_closure(s2, fv, vs)
            else:
                raise Unsupported('call of %r' % (fv,))
        return out

    def load_on_demand(self, q, node):
        raise Unsupported('no definition of %s in the loaded translation units' % q)

    def x_CXXMemberCallExpr(self, e, st):
        me, args = e['inner'][0], e['inner'][1:]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = me['inner'][0]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call through ' + me['kind'])
        out = []
        ref = me.get('referencedMemberDecl')
        for s, b in self.ev(me['inner'][0], st):
            if me.get('isArrow'):
                b = self.deref(s, b)
                if b is None:
                    continue
            b = self.lref(s, b)
            if ref in s.tu.decl:
                node = s.tu.decl[ref]
                f = self.resolve(s, ref)
                q = s.tu.qual.get(ref, '?')
                if node.get('virtual') or node.get('pure') or q in self.contracts and f is None:
                    if q in self.contracts:
                        for s2, vs in self.evargs(f, args, s):
                            out += self.apply_contract(s2, self.contracts[q], f, vs, b)
                        continue
                    v = self.read(s, b)
                    if isinstance(v, Rec):
                        qn = v.t.name + '::' + me['name']
                        if qn in self.P.byqual:
                            f = self.P.byqual[qn][0]
                if f is None:
                    if node.get('kind') == 'CXXConversionDecl' or node.get('isImplicit') or node.get('explicitlyDefaulted'):
                        for s2, vs in self.evs(args, s):
                            out += stdmodel.member(self, s2, b, me['name'], vs, e)
                        continue
                    f = self.load_on_demand(q, node)
                if f.node.get('isImplicit') or f.node.get('explicitlyDefaulted'):
                    for s2, vs in self.evs(args, s):
                        out += stdmodel.member(self, s2, b, me['name'], vs, e)
                    continue
                for s2, vs in self.evargs(f, args, s):
                    out += self.call(s2, f, vs, b)
            else:
                for s2, vs in self.evargs(None, [a for a in args if a.get('kind') != 'CXXDefaultArgExpr'], s):
                    out += stdmodel.member(self, s2, b, me['name'], vs, e)
        return out

    def x_CXXOperatorCallExpr(self, e, st):
        callee, args = e['inner'][0], e['inner'][1:]
        c = callee
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        d = c['referencedDecl']
        name = d['name']
        out = []
        f = self.resolve(st, d['id'])
        if f is not None and not f.node.get('isImplicit') and not f.node.get('explicitlyDefaulted'):
            for s, vs in self.evs(args, st):
                if f.kind == 'CXXMethodDecl':
                    out += self.call(s, f, vs[1:], self.lref(s, vs[0]))
                else:
                    out += self.call(s, f, vs, None)
            return out
        if d['id'] in st.tu.decl and f is None and not st.tu.decl[d['id']].get('isImplicit') and name != 'operator=' and name != 'operator()':
            q = st.tu.qual.get(d['id'], '?')
            self.load_on_demand(q, st.tu.decl[d['id']])
        for s, vs in self.evs(args, st):
            out += stdmodel.operator(self, s, name, vs, e)
        return out

    def call_closure(self, st, clo, vals):
        if isinstance(clo, FnRef):
            f = self.resolve(st, clo.node['id'])
            if f is None:
                raise Unsupported('function reference')
            return self.call(st, f, vals, None)
        node = clo.node
        rec = node['inner'][0]
        op = None
        for x in rec.get('inner', []):
            if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()':
                op = x
            if x.get('kind') == 'FunctionTemplateDecl':
                for y in x.get('inner', []):
                    if y.get('kind') == 'CXXMethodDecl' and y.get('name') == 'operator()' and \
                       any(z.get('kind') == 'TemplateArgument' for z in y.get('inner', [])):
                        op = y
        if op is None:
            raise Unsupported('lambda without call operator')
        body = [x for x in op.get('inner', []) if x.get('kind') == 'CompoundStmt']
        if not body:
            body = [x for x in node['inner'] if x.get('kind') == 'CompoundStmt']
        f = type('F', (), {})()
        f.params = [x for x in op.get('inner', []) if x.get('kind') == 'ParmVarDecl']
        f.qual = self.callstack[-1] + '::lambda' if self.callstack else 'lambda'
        f.body = body[0]
        f.tu = clo.tu
        f.mangled = None
        return self.run_body(st, f, vals, clo.this, dict(clo.env))

    def call(self, st, f, vals, this):
        if f.qual in self.contracts and not (self.callstack and self.callstack[-1] == f.qual and False):
            c = self.contracts[f.qual]
            if c.get('nparams') is None or c['nparams'] == len(f.params):
                return self.apply_contract(st, c, f, vals, this)
        if f.qual in self.callstack and self.callstack.count(f.qual) > 2:
            raise Unsupported('recursion in ' + f.qual)
        self.inlined.add(f.qual)
        return self.run_body(st, f, vals, this, {})

    def run_body(self, st, f, vals, this, env):
        save = st.env, st.this, st.tu, st.frame
        st.env, st.this, st.tu = dict(env), this, f.tu
        self.callstack.append(f.qual)
        res = []
        try:
            self.bind(st, f, vals)
            pcn = len(st.pc)
            outs = self.stmt(f.body, st)
        finally:
            self.callstack.pop()
        for s, oc in outs:
            v = None
            if oc and oc[0] == 'return':
                v = oc[1]
            s.env, s.this, s.tu, s.frame = dict(save[0]), save[1], save[2], save[3]
            res.append((s, v))
        if len(res) > 1 and self.merge_calls:
            res = self.merge(res, pcn)
        return res

    def merge(self, res, n):
        """join the return paths of an expanded call when they differ only in scalar results"""
        base = res[0][0]
        for s, v in res:
            if len(s.pc) < n or not all(a is b or a.eq(b) for a, b in zip(s.pc[:n], base.pc[:n])):
                return res
            if not (z3.is_expr(v) and v.sort() in (B,)) and v is not None:
                return res
        keys = set(base.store)
        common = [k for k in base.store if all(k in s.store for s, _ in res)]
        for s, v in res:
            for k in common:
                if not same(s.store[k], base.store[k]):
                    return res
        if any(v is None for _, v in res):
            return res
        conds = []
        facts = []
        for s, v in res:
            suf = s.pc[n:]
            conds.append(z3.And(*suf) if suf else z3.BoolVal(True))
        if any(has_quant(c) for c in conds):
            return res
        val = res[-1][1]
        for (s, v), c in list(zip(res, conds))[:-1][::-1]:
            val = z3.If(c, v, val)
        base.pc = base.pc[:n] + [z3.Or(*conds)]
        base.store = {k: base.store[k] for k in common}
        return [(base, z3.simplify(val))]

    def apply_contract(self, st, c, f, vals, this):
        """modular call: check requires, havoc modifies, assume ensures"""
        self.under_contract.add(c['name'])
        return c['apply'](self, st, vals, this)

    # ------------------------------------------------------------- statements
    def stmt(self, n, st):
        """list of (state, outcome); outcome None | ('return', v) | ('break',) | ('continue',)"""
        k = n.get('kind')
        m = getattr(self, 's_' + k, None) if k else None
        if m is not None:
            return m(n, st)
        return [(s, None) for s, _ in self.ev(n, st)]

    def s_CompoundStmt(self, n, st):
        cur = [(st, None)]
        for c in n.get('inner', []):
            nxt = []
            for s, oc in cur:
                if oc is not None:
                    nxt.append((s, oc))
                else:
                    nxt += self.stmt(c, s)
            cur = nxt
        return cur

    def s_NullStmt(self, n, st):
        return [(st, None)]

    def s_ReturnStmt(self, n, st):
        if not n.get('inner'):
            return [(st, ('return', None))]
        return [(s, ('return', v)) for s, v in self.ev(n['inner'][0], st)]

    def s_BreakStmt(self, n, st):
        return [(st, ('break',))]

    def s_ContinueStmt(self, n, st):
        return [(st, ('continue',))]

    def s_DeclStmt(self, n, st):
        cur = [st]
        for d in n.get('inner', []):
            if d.get('kind') != 'VarDecl':
                continue
            nxt = []
            for s in cur:
                nxt += self.vardecl(d, s)
            cur = nxt
        return [(s, None) for s in cur]

    def vardecl(self, d, st):
        t = self.T.of(d['type'])
        init = [x for x in d.get('inner', []) if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
        if d.get('storageClass') == 'static' and init:
            # function-local constants
            st.env[d['id']] = None
            if 'const' not in d['type']['qualType'] and not d.get('constexpr'):
                raise Unsupported('mutable static local')
        if not init:
            v = self.uninit(st, t)
            st.env[d['id']] = self.alloc(st, v, d.get('name', 'v'))
            self.rootlabel[d.get('name', 'v')] = st.env[d['id']].root
            return [st]
        out = []
        for s, v in self.ev(init[0], st):
            if t.k == 'ref':
                s.env[d['id']] = v if isinstance(v, LRef) else self.alloc(s, v, d.get('name', 'v'))
            else:
                v = self.conv_init(s, t, v)
                if t.k == 'ptr' and isinstance(v, LRef):
                    v = Ptr(v, z3.BoolVal(False))
                s.env[d['id']] = self.alloc(s, v, d.get('name', 'v'))
                self.rootlabel[d.get('name', 'v')] = s.env[d['id']].root
            out.append(s)
        return out

    def s_IfStmt(self, n, st):
        inner = n['inner']
        i = 0
        states = [st]
        if n.get('hasInit'):
            states = [s for s, _ in self.stmt(inner[i], st)]
            i += 1
        if n.get('hasVar'):
            states = [s2 for s in states for s2, _ in self.stmt(inner[i], s)]
            i += 1
        cond, then = inner[i], inner[i + 1]
        els = inner[i + 2] if n.get('hasElse') else None
        out = []
        for s0 in states:
            n0 = len(s0.pc)
            part = []
            for s, v in self.ev(cond, s0):
                v = self.rv(s, v)
                for s2, t in self.split(s, v):
                    k = len(s2.pc)
                    if t:
                        o = self.stmt(then, s2)
                    elif els is not None:
                        o = self.stmt(els, s2)
                    else:
                        o = [(s2, None)]
                    part += [(x, oc, k) for x, oc in o]
            if self.join and sum(1 for x in part if x[1] is None) > 1:
                part = self.joined(part, n0)
            out += [(x[0], x[1]) for x in part]
        return out

    def joined(self, part, n0):
        """join the states that leave an if-statement normally: differing components become conditional on the branch taken"""
        norm = [x for x in part if x[1] is None]
        rest = [x for x in part if x[1] is not None]
        base = norm[0][0]
        if not all(len(s.pc) >= n0 and all(a is b or a.eq(b) for a, b in zip(s.pc[:n0], base.pc[:n0])) for s, _, _ in norm):
            return part
        guards = []
        for s, _, k in norm:
            g = s.pc[n0:k]
            if any(has_quant(x) for x in g):
                return part
            guards.append(z3.And(*g) if len(g) != 1 else g[0])
        if len({g.get_id() for g in guards}) != len(guards):
            return part                         # a branch that forked in itself
        keys = [k for k in base.store if all(k in s.store for s, _, _ in norm)]
        ids = set(base.env)
        st = base.clone()
        st.store, st.env = {}, {i: base.env[i] for i in ids if all(i in s.env for s, _, _ in norm)}
        for k in keys:
            vals = [s.store[k] for s, _, _ in norm]
            v = vals[-1]
            for g, x in list(zip(guards, vals))[:-1][::-1]:
                v = choose(g, x, v)
                if v is None:
                    return part
            st.store[k] = v
        nb = 0
        while all(len(s.notes) > nb for s, _, _ in norm) and all(s.notes[nb] is base.notes[nb] for s, _, _ in norm):
            nb += 1
        st.notes = base.notes[:nb] + tuple(('when', g) + x for g, (s, _, _) in zip(guards, norm) for x in s.notes[nb:])
        st.pc = base.pc[:n0] + [z3.Or(*guards)] + [z3.Implies(g, f) for g, (s, _, k) in zip(guards, norm) for f in s.pc[k:]]
        return rest + [(st, None, n0)]

    def s_SwitchStmt(self, n, st):
        inner = [x for x in n['inner'] if x]
        cond, body = inner[0], inner[-1]
        cases = []          # flattened (labels or None, stmt)
        def flat(c, labels):
            if c['kind'] == 'CaseStmt':
                lab = c['inner'][0]
                sub = c['inner'][-1]
                if sub.get('kind') in ('CaseStmt', 'DefaultStmt'):
                    flat(sub, labels + [lab])
                else:
                    cases.append((labels + [lab], sub))
            elif c['kind'] == 'DefaultStmt':
                sub = c['inner'][-1]
                if sub.get('kind') in ('CaseStmt', 'DefaultStmt'):
                    flat(sub, labels + ['default'])
                else:
                    cases.append((labels + ['default'], sub))
            else:
                cases.append((labels, c))
        for c in body.get('inner', []):
            flat(c, [])
        out = []
        for s, v in self.ev(cond, st):
            v = self.num(s, v)
            rest = s
            starts = []
            vals = []
            default = None
            for i, (labs, _) in enumerate(cases):
                for l in labs:
                    if l == 'default':
                        default = i
                    else:
                        x = self.num(s, self.ev1(l, s))
                        vals.append((x, i))
            cur = s
            alive = True
            for x, i in vals:
                r = self.split(cur, v == x)
                nxt = None
                for s2, t in r:
                    if t:
                        starts.append((s2, i))
                    else:
                        nxt = s2
                if nxt is None:
                    alive = False
                    break
                cur = nxt
            if alive:
                if default is not None:
                    starts.append((cur, default))
                else:
                    out.append((cur, None))
            for s2, i in starts:
                states = [(s2, None)]
                for labs, c in cases[i:]:
                    nxt = []
                    for s3, oc in states:
                        if oc is not None:
                            nxt.append((s3, oc))
                        else:
                            nxt += self.stmt(c, s3)
                    states = nxt
                for s3, oc in states:
                    out.append((s3, None if oc == ('break',) else oc))
        return out

    # loops --------------------------------------------------------------------
    def s_WhileStmt(self, n, st):
        inner = [x for x in n['inner'] if x]
        return self.loop(n, st, inner[-2], None, inner[-1])

    def s_DoStmt(self, n, st):
        body, cond = n['inner'][0], n['inner'][1]
        out = []
        for s, oc in self.stmt(body, st):
            if oc is None or oc == ('continue',):
                out += self.loop(n, s, cond, None, body)
            elif oc == ('break',):
                out.append((s, None))
            else:
                out.append((s, oc))
        return out

    def s_ForStmt(self, n, st):
        init, _, cond, inc, body = n['inner']
        states = [st]
        if init:
            states = [s for s, _ in self.stmt(init, st)]
        out = []
        for s in states:
            out += self.loop(n, s, cond or None, inc or None, body)
        return out

    def s_CXXForRangeStmt(self, n, st):
        inner = n['inner']
        rng, beg, end, cond, inc, var, body = inner[-7:]
        states = [st]
        for d in (rng, beg, end):
            states = [s2 for s in states for s2, _ in self.stmt(d, s)]
        out = []
        full = {'kind': 'CompoundStmt', 'inner': [var, body]}
        for s in states:
            out += self.loop(n, s, cond, inc, full)
        return out

    def loop(self, node, st, cond, inc, body):
        from .loops import run_loop
        return run_loop(self, node, st, cond, inc, body)


class DefaultArg(Exception):
    pass

class DefaultInit(Exception):
    pass

def short(q):
    b = q.split('<')[0].split('::')[-1]
    return b

def is_copy_ctor(ex, c, t):
    if len(c.params) < 1:
        return False
    pt = ex.T.of(c.params[0]['type'])
    return pt.k == 'ref' and pt.args[0] == t

_hq = {}
def has_quant(e):
    k = e.get_id()
    r = _hq.get(k)
    if r is not None and r[1].eq(e):
        return r[0]
    st, seen, res = [e], set(), False
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            res = True
            break
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend(x.children())
    _hq[k] = (res, e)
    return res

_vars = {}
def symbols(e):
    k = e.get_id()
    r = _vars.get(k)
    if r is not None and r[1].eq(e):
        return r[0]
    st, seen, out = [e], set(), set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    _vars[k] = (out, e)
    return out

def relevant(fs, goal, depth=4):
    """cone of influence of the goal's symbols (sound for unsat answers); fs: formulas or (formula, its symbols)"""
    syms = set(symbols(goal))
    rest = [f if isinstance(f, tuple) else (f, symbols(f)) for f in fs]
    out = []
    for _ in range(depth):
        nxt, add = [], []
        for f in rest:
            (nxt if f[1] and syms.isdisjoint(f[1]) else add).append(f)
        if not add:
            break
        for f in add:
            syms |= f[1]
        out += [f[0] for f in add]
        rest = nxt
    return out

def plus(a, b):
    if isinstance(b, int):
        b = z3.IntVal(b)
    if z3.is_int_value(a) and a.as_long() == 0:
        return b
    if z3.is_int_value(b) and b.as_long() == 0:
        return a
    return z3.simplify(a + b)

def _pyexpr(self, e, st):
    return e['fn'](st)
Exec.x_PyExpr = _pyexpr
Exec.s_PyStmt = _pyexpr
