"""Assumed contracts of the C++ standard library, libm, boost::optional and the boost::geometry
value types, as used by /repo.  Everything here is part of the trusted base; names applied in a
run are collected in Exec.assumed and reported in the evidence."""
import z3
from .values import *
from . import values as V

PI = None

def _ex():
    from . import execu
    return execu

def q(x):
    return _ex().real_const(x)

def plus(a, b):
    return _ex().plus(a, b)

def std_global(ex, st, d):
    n = d.get('name', '')
    if n in ('none', 'nullopt'):
        return ex.alloc(st, ('none',), 'none')
    if n in ('cout', 'cerr', 'clog'):
        return ex.alloc(st, Opaque(Ty('opaque', 'stream')), 'stream')
    if n == 'ignore':
        return ex.alloc(st, Opaque(Ty('opaque', 'ignore')), 'ignore')
    return None

# ------------------------------------------------------------------ construction
def construct(ex, e, t, args, st):
    ct = e.get('ctorType', {}).get('qualType', '')
    args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
    if t.k == 'seq':
        if not args:
            return [(st, ex.default(st, t))]
        out = []
        for s, vs in ex.evs(args, st):
            v0 = ex.rv(s, vs[0])
            if len(vs) == 1 and isinstance(v0, Seq):
                out.append((s, Seq(t, v0.lo, v0.n, v0.data)))
            elif len(vs) == 2 and isinstance(v0, It):
                out.append((s, range_copy(ex, s, t, v0, ex.rv(s, vs[1]))))
            elif len(vs) == 2 and isinstance(v0, MIt):
                out.append((s, map_range_copy(ex, s, t, v0, ex.rv(s, vs[1]))))
            elif z3.is_expr(v0) and v0.sort() == I:
                n = v0
                et = t.args[0]
                x = ex.conv_init(s, et, vs[1]) if len(vs) > 1 else ex.default(s, et)
                ex.oblige(s, n >= 0, 'container size is non-negative')
                out.append((s, Seq(t, z3.IntVal(0), n, [constarr(a) for a in ex.T.flat(x, et)])))
            else:
                raise Unsupported('container constructor ' + ct)
        return out
    if t.k in ('map', 'set'):
        if not args:
            return [(st, ex.default(st, t))]
        out = []
        for s, vs in ex.evs(args, st):
            v0 = ex.rv(s, vs[0])
            if len(vs) == 1 and isinstance(v0, MapV):
                out.append((s, v0))
            else:
                raise Unsupported('map constructor ' + ct)
        return out
    if t.k == 'tup':
        if not args:
            return [(st, ex.default(st, t))]
        out = []
        for s, vs in ex.evs(args, st):
            v0 = ex.rv(s, vs[0])
            if len(vs) == 1 and isinstance(v0, Rec):
                f = {n: ex.conv_init(s, a, x) for (n, a), x in zip(zip(ex.T.tupnames(t), t.args), v0.f.values())}
                out.append((s, Rec(t, f)))
            elif len(vs) == len(t.args):
                f = {n: ex.conv_init(s, a, x) for n, a, x in zip(ex.T.tupnames(t), t.args, vs)}
                out.append((s, Rec(t, f)))
            else:
                raise Unsupported('construct ' + repr(t))
        return out
    if t.k == 'opt':
        if not args:
            return [(st, ex.default(st, t))]
        out = []
        for s, v in ex.ev(args[0], st):
            out.append((s, to_opt(ex, s, t, v)))
        return out
    if t.k == 'str':
        if not args:
            return [(st, z3.IntVal(0))]
        out = []
        for s, v in ex.ev(args[0], st):
            v = ex.rv(s, v)
            if z3.is_expr(v) and v.sort() == I:
                out.append((s, v))
            else:
                raise Unsupported('string constructor')
        return out
    if t.k == 'ptr':
        if not args:
            return [(st, Ptr(None))]
        out = []
        for s, v in ex.ev(args[0], st):
            v = ex.rv(s, v)
            if not isinstance(v, Ptr):
                raise Unsupported('smart pointer constructor')
            out.append((s, v))
        return out
    if t.k == 'var':
        out = []
        for s, v in ex.ev(args[0], st):
            v = ex.rv(s, v)
            if isinstance(v, Var):
                out.append((s, v))
                continue
            for i, a in enumerate(t.args):
                if isinstance(v, Rec) and v.t == a:
                    d = [ex.T.fresh(b, 'alt') for b in t.args]
                    d[i] = v
                    out.append((s, Var(t, z3.IntVal(i), d)))
                    break
            else:
                raise Unsupported('variant constructor')
        return out
    # iterators, opaque: copy
    if len(args) == 1:
        return [(s, ex.rv(s, v)) for s, v in ex.ev(args[0], st)]
    if not args:
        return [(st, Opaque(t))]
    return [(s, Opaque(t)) for s, _ in ex.evs(args, st)]

def constarr(x):
    return z3.K(I, x)

def to_opt(ex, s, t, v):
    v = ex.rv(s, v)
    if isinstance(v, Opt):
        return v
    if isinstance(v, tuple) or isinstance(v, Opaque) and 'none' in v.t.name or isinstance(v, Opaque) and 'nullopt' in v.t.name:
        return Opt(t, z3.BoolVal(False), ex.T.fresh(t.args[0], 'none'))
    return Opt(t, z3.BoolVal(True), ex.conv_init(s, t.args[0], v))

def range_copy(ex, s, t, a, b):
    src = ex.read(s, a.lv)
    if a.rev:
        et = t.args[0]
        n = z3.simplify(b.idx - a.idx)
        k = z3.Int('k!')
        new = [z3.FreshConst(x.sort(), 'rev') for x in src.data]
        for x, y in zip(new, src.data):
            s.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), x[k] == y[src.lo + src.n - 1 - a.idx - k]), patterns=[x[k]]))
        return Seq(t, z3.IntVal(0), n, new)
    ex.oblige(s, z3.And(a.idx >= 0, a.idx <= b.idx, b.idx <= src.n), 'valid iterator range')
    return Seq(t, plus(src.lo, a.idx), z3.simplify(b.idx - a.idx), src.data)

def map_range_copy(ex, s, t, a, b):
    m = ex.read(s, a.lv)
    if not (a.kind == 'pos' and b.kind == 'end'):
        raise Unsupported('partial map range')
    arrs, pos = ex.enum(s, m)
    k = z3.Int('k!')
    et = t.args[0]
    new = [z3.FreshConst(z3.ArraySort(I, so), 'mr') for so in ex.T.sorts(et)]
    keys = [x[k] for x in arrs]
    vals = [ksel(x, keys) for x in m.val] if m.t.k == 'map' else []
    eqs = [x[k] == y for x, y in zip(new, keys + vals)]
    s.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m.card), z3.And(*eqs)), patterns=[new[0][k]]))
    return Seq(t, z3.IntVal(0), m.card, new)

# ------------------------------------------------------------------ iterators
def itop(ex, s, op, x, y):
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.to is None and x.addr is None:
                r = y.null
            elif y.to is None and y.addr is None:
                r = x.null
            elif x.addr is not None and y.addr is not None:
                r = x.addr == y.addr
            else:
                raise Unsupported('pointer comparison')
            return r if op == '==' else z3.Not(r)
    if isinstance(x, It) and isinstance(y, It):
        if op == '-':
            return z3.simplify(x.idx - y.idx)
        return ex.CMP[op](x.idx, y.idx)
    if isinstance(x, It) and z3.is_expr(y):
        return It(x.lv, plus(x.idx, y) if op == '+' else z3.simplify(x.idx - y), x.rev)
    if isinstance(x, MIt) and isinstance(y, MIt):
        if x.kind == 'end' and y.kind != 'end':
            x, y = y, x
        m = ex.read(s, x.lv)
        if x.kind == 'key' and y.kind == 'end':
            r = x.isend
        elif x.kind == 'pos' and y.kind == 'end':
            r = x.pos == m.card
        elif x.kind == 'pos' and y.kind == 'pos':
            r = x.pos == y.pos
        elif x.kind == 'end' and y.kind == 'end':
            r = z3.BoolVal(True)
        else:
            raise Unsupported('map iterator comparison')
        return r if op == '==' else z3.Not(r)
    raise Unsupported('iterator operation ' + op)

# ------------------------------------------------------------------ operators
def operator(ex, s, name, vs, e):
    op = name[len('operator'):]
    a = ex.rv(s, vs[0]) if op not in ('=',) else None
    if op == '=':
        l = vs[0]
        t = ex.T.of(e['type'])
        if t.k == 'ref':
            t = t.args[0]
        old = ex.rv(s, l)
        if isinstance(old, Rec) and old.f and all(isinstance(x, LRef) for x in old.f.values()):     # std::tie(...) = tuple
            v = ex.rv(s, vs[1])
            for x, y in zip(old.f.values(), v.f.values()):
                ex.write(s, x, y)
            return [(s, l)]
        v = ex.rv(s, vs[1])
        if isinstance(old, Opt):
            v = to_opt(ex, s, old.t, v)
        elif isinstance(old, Opaque):
            pass
        elif isinstance(old, Seq) and isinstance(v, Seq):
            v = Seq(old.t, v.lo, v.n, v.data)
        elif isinstance(old, Rec) and old.t.k == 'tup' and isinstance(v, Rec):
            v = Rec(old.t, {n: ex.conv_init(s, t2, x) for n, t2, x in zip(ex.T.tupnames(old.t), old.t.args, v.f.values())})
        if not isinstance(l, LRef):
            raise Unsupported('assignment to a value')
        if not ex.write(s, l, v):
            return []
        return [(s, l)]
    if op == '!' and len(vs) == 1:
        if isinstance(a, Opt):
            return [(s, z3.Not(a.has))]
        if isinstance(a, Ptr):
            return [(s, a.null)]
    if op == '()':
        if isinstance(a, (Clo, FnRef)):
            return ex.call_closure(s, a, vs[1:])
        raise Unsupported('call operator of %r' % (a,))
    if op == '[]':
        if isinstance(a, Seq):
            i = ex.num(s, vs[1])
            ex.assumed.add('std::vector::operator[] (index in range is an obligation)')
            ex.oblige(s, z3.And(i >= 0, i < a.n), 'container index in range')
            return [(s, ex.lref(s, vs[0]).add(('i', i)))]
        if isinstance(a, MapV) and a.t.k == 'map':
            k = ex.T.flat(ex.rv(s, vs[1]), a.t.args[0])
            return [(s, map_subscript(ex, s, vs[0], k))]
        raise Unsupported('operator[]')
    if op in ('*', '->') and len(vs) == 1:
        if isinstance(a, Opt):
            ex.oblige(s, a.has, 'optional holds a value when dereferenced')
            l = ex.lref(s, vs[0]).add(('o',))
            return [(s, Ptr(l, z3.BoolVal(False)) if op == '->' else l)]
        l = ex.deref(s, a)
        if l is None:
            return []
        return [(s, Ptr(l, z3.BoolVal(False)) if op == '->' else l)]
    if op in ('++', '--') and isinstance(a, (It, MIt)):
        d = 1 if op == '++' else -1
        if isinstance(a, It):
            new = It(a.lv, plus(a.idx, d), a.rev)
            if d > 0:
                n = ex.read(s, a.lv).n
                ex.oblige(s, a.idx < n, 'iterator incremented within its container')
            else:
                ex.oblige(s, a.idx > 0, 'iterator decremented within its container')
        elif a.kind == 'pos':
            new = MIt(a.lv, 'pos', pos=plus(a.pos, d))
        else:
            raise Unsupported('++ on a find() result')
        ex.write(s, vs[0], new)
        return [(s, a if len(vs) == 2 else vs[0])]
    if op in ('+=', '-=') and isinstance(a, It):
        i = ex.num(s, vs[1])
        ex.write(s, vs[0], It(a.lv, plus(a.idx, i if op == '+=' else -i), a.rev))
        return [(s, vs[0])]
    if len(vs) == 2:
        b = ex.rv(s, vs[1])
        if isinstance(a, (It, MIt, Ptr)) or isinstance(b, Ptr):
            return [(s, itop(ex, s, op, a, b))]
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if isinstance(a, Opt) or isinstance(b, Opt):
                return [(s, opt_cmp(ex, s, op, a, b))]
            ts = ex.T
            if z3.is_expr(a) and z3.is_expr(b):
                return [(s, ex.CMP[op](a, b))]
            if isinstance(a, Rec) and isinstance(b, Rec):
                return [(s, rec_cmp(ex, s, op, a, b))]
        if op in ('+', '+=') and z3.is_expr(a) and a.sort() == I:
            r = z3.FreshConst(I, 'str')
            s.pc.append(r >= 0)
            ex.assumed.add('std::string concatenation (result unspecified)')
            if op == '+=':
                ex.write(s, vs[0], r)
                return [(s, vs[0])]
            return [(s, r)]
        if op == '<<':
            return [(s, vs[0])]
    raise Unsupported('operator%s on %r' % (op, a))

def rec_cmp(ex, s, op, a, b):
    xs, ys = [l for _, l in vleaves(a)], [l for _, l in vleaves(b)]
    if op in ('==', '!='):
        r = z3.And(*[x == y for x, y in zip(xs, ys)])
        return r if op == '==' else z3.Not(r)
    if op in ('>', '<='):
        r = rec_cmp(ex, s, '<', b, a) if op == '>' else z3.Not(rec_cmp(ex, s, '<', b, a))
        return r
    if op == '>=':
        return z3.Not(rec_cmp(ex, s, '<', a, b))
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(xs, ys))):
        r = z3.Or(x < y, z3.And(x == y, r))
    return r

def opt_cmp(ex, s, op, a, b):
    def none(v):
        return isinstance(v, tuple) or isinstance(v, Opaque)
    if none(b):
        r = z3.Not(a.has)
    elif none(a):
        r = z3.Not(b.has)
    elif isinstance(a, Opt) and isinstance(b, Opt):
        eq = z3.And(*[x == y for (_, x), (_, y) in zip(vleaves(a.val), vleaves(b.val))])
        r = z3.If(z3.And(a.has, b.has), eq, a.has == b.has)
    elif isinstance(a, Opt):
        r = z3.And(a.has, *[x == y for (_, x), (_, y) in zip(vleaves(a.val), vleaves(b))])
    else:
        r = z3.And(b.has, *[x == y for (_, x), (_, y) in zip(vleaves(a), vleaves(b.val))])
    if op == '==':
        return r
    if op == '!=':
        return z3.Not(r)
    raise Unsupported('optional ordering')

def map_subscript(ex, s, lv, k):
    m = ex.read(s, lv)
    ex.assumed.add('std::map::operator[]')
    has = ksel(m.dom, k)
    dv = ex.T.flat(ex.default(s, m.t.args[1]), m.t.args[1])
    hs = z3.simplify(has)
    if z3.is_true(hs):
        return lv.add(('kv', tuple(k))).add(('f', 'second'))
    vals = [kstore(a, k, z3.If(has, ksel(a, k), d)) for a, d in zip(m.val, dv)]
    new = MapV(m.t, m.card + z3.If(has, 0, 1), kstore(m.dom, k, z3.BoolVal(True)), vals)
    if ex.proves(s, has, 100000, quant=False):
        new = m
    ex.write(s, lv, new)
    return lv.add(('kv', tuple(k))).add(('f', 'second'))

# ------------------------------------------------------------------ member functions
def member(ex, s, lv, name, vs, e):
    v = ex.read(s, lv)
    T = ex.T
    if isinstance(v, Seq):
        return seq_member(ex, s, lv, v, name, vs, e)
    if isinstance(v, MapV):
        return map_member(ex, s, lv, v, name, vs, e)
    if isinstance(v, Opt):
        if name in ('is_initialized', 'has_value', 'operator bool'):
            return [(s, v.has)]
        if name in ('get', 'value'):
            ex.oblige(s, v.has, 'optional holds a value when read')
            return [(s, lv.add(('o',)))]
        if name == 'get_ptr':
            return [(s, Ptr(lv.add(('o',)), z3.Not(v.has)))]
        if name in ('reset',):
            ex.write(s, lv, Opt(v.t, z3.BoolVal(False), v.val))
            return [(s, None)]
        if name in ('operator=', 'emplace'):
            ex.write(s, lv, to_opt(ex, s, v.t, vs[0]))
            return [(s, lv)]
        if name in ('value_or', 'get_value_or'):
            d = ex.rv(s, vs[0])
            out = []
            for s2, t in ex.split(s, v.has):
                out.append((s2, ex.read(s2, lv).val if t else d))
            return out
        if name == 'operator!':
            return [(s, z3.Not(v.has))]
        if name in ('operator*',):
            ex.oblige(s, v.has, 'optional holds a value when read')
            return [(s, lv.add(('o',)))]
    if isinstance(v, Ptr):
        if name == 'get':
            return [(s, v)]
        if name == 'operator bool':
            return [(s, z3.Not(v.null))]
        if name == 'reset':
            ex.write(s, lv, ex.rv(s, vs[0]) if vs else Ptr(None))
            return [(s, None)]
    if isinstance(v, Rec) and v.t.k == 'tup':
        if v.t.name == 'point_xy' and name in ('x', 'y'):
            if vs:
                ex.write(s, lv.add(('f', name)), ex.conv_init(s, REAL, vs[0]))
                return [(s, None)]
            return [(s, lv.add(('f', name)))]
        if v.t.name == 'box' and name in ('min_corner', 'max_corner'):
            return [(s, lv.add(('f', name)))]
        if v.t.name == 'polygon' and name in ('outer', 'inners'):
            return [(s, lv.add(('f', name)))]
        if name == 'operator=':
            w = ex.rv(s, vs[0])
            w = Rec(v.t, {n: ex.conv_init(s, t2, x) for n, t2, x in zip(T.tupnames(v.t), v.t.args, w.f.values())})
            ex.write(s, lv, w)
            return [(s, lv)]
    if isinstance(v, (It, MIt)):
        if name == 'operator=':
            ex.write(s, lv, ex.rv(s, vs[0]))
            return [(s, lv)]
    if z3.is_expr(v) and v.sort() == I:       # std::string
        if name in ('empty',):
            return [(s, v == 0)]
        if name in ('size', 'length'):
            ln = ex.ufn('strlen', I, I)(v)
            s.pc.append(z3.And(ln >= 0, (ln == 0) == (v == 0)))
            return [(s, ln)]
        if name in ('c_str', 'data'):
            return [(s, v)]
        if name == 'operator=':
            ex.write(s, lv, ex.rv(s, vs[0]))
            return [(s, lv)]
        if name in ('clear',):
            ex.write(s, lv, z3.IntVal(0))
            return [(s, None)]
        if name in ('append', 'push_back', 'operator+='):
            r = z3.FreshConst(I, 'str')
            s.pc.append(r >= 0)
            ex.write(s, lv, r)
            return [(s, lv)]
        if name in ('compare',):
            b = ex.rv(s, vs[0])
            return [(s, z3.If(v == b, z3.IntVal(0), z3.If(v < b, z3.IntVal(-1), z3.IntVal(1))))]
    if isinstance(v, Rec) and name == 'operator=':
        w = ex.rv(s, vs[0])
        ex.write(s, lv, w)
        return [(s, lv)]
    if isinstance(v, Opaque):
        h = ex.task.opaque(ex, s, lv, name, vs, e) if ex.task is not None and hasattr(ex.task, 'opaque') else None
        if h is not None:
            return h
        return opaque_result(ex, s, e, name)
    raise Unsupported('member %s of %r' % (name, v))

def opaque_result(ex, s, e, name):
    t = ex.T.of(e['type'])
    ex.assumed.add('unspecified result of ' + name)
    if t.k == 'void':
        return [(s, None)]
    w = []
    v = ex.T.fresh(t, 'opq', wf=w) if t.k != 'ref' else None
    s.pc += w
    if e.get('valueCategory') != 'prvalue' and v is not None:
        return [(s, ex.alloc(s, v, 'opq'))]
    return [(s, v)]

def shifted(ex, s, v, cut, by, label):
    """data arrays where positions >= cut (relative) move by `by` to the left"""
    new = [z3.FreshConst(a.sort(), label) for a in v.data]
    k = z3.Int('k!')
    for x, y in zip(new, v.data):
        s.pc.append(z3.ForAll([k], x[k] == z3.If(k < v.lo + cut, y[k], y[k + by]), patterns=[x[k]]))
    return new

def mm_range(ex, v, k):
    """first and one-past-last relative position of key k in multimap v, and the facts that define them"""
    a = v.data[0]
    f = [ex.ufn(n, I, I, a.sort(), I, I)(v.lo, v.n, a, k) for n in ('mm_lb', 'mm_ub')]
    lb, ub = f
    i = z3.Int('mi!')
    pat = [a[i]] if not (z3.is_K(a) or z3.is_store(a)) else []
    return lb, ub, [lb >= 0, lb <= ub, ub <= v.n,
                    z3.ForAll([i], z3.Implies(z3.And(i >= v.lo, i < v.lo + v.n), z3.And((a[i] < k) == (i < v.lo + lb), (a[i] > k) == (i >= v.lo + ub))), patterns=pat)]

def mm_member(ex, s, lv, v, name, vs, e):
    """[contract] std::multimap: pairs ascending by key, equal keys in order of insertion"""
    et = v.t.args[0]
    ex.assumed.add('std::multimap: ascending by key, equal keys contiguous in order of insertion')
    if len(ex.T.sorts(et.args[0])) != 1:
        raise Unsupported('multimap key')
    if name in ('insert', 'emplace'):
        x = ex.conv_init(s, et, vs[0]) if len(vs) == 1 else emplace(ex, s, et, vs)
        ls = ex.T.flat(x, et)
        lb, ub, facts = mm_range(ex, v, ls[0])
        s.pc += facts
        k = z3.Int('k!')
        new = [z3.FreshConst(y.sort(), 'ins') for y in v.data]
        for x, y, d in zip(new, v.data, ls):
            s.pc.append(z3.ForAll([k], x[k] == z3.If(k < v.lo + ub, y[k], z3.If(k == v.lo + ub, d, y[k - 1])), patterns=[x[k]]))
        ex.write(s, lv, Seq(v.t, v.lo, z3.simplify(v.n + 1), new))
        return [(s, It(lv, ub))]
    k = ex.T.flat(ex.rv(s, vs[0]), et.args[0])[0]
    lb, ub, facts = mm_range(ex, v, k)
    s.pc += facts
    if name == 'equal_range':
        return [(s, Rec(Ty('tup', 'pair', (VOID, VOID)), {'first': It(lv, lb), 'second': It(lv, ub)}))]
    if name == 'count':
        return [(s, ub - lb)]
    if name == 'lower_bound':
        return [(s, It(lv, lb))]
    if name == 'upper_bound':
        return [(s, It(lv, ub))]
    return [(s, It(lv, z3.If(lb < ub, lb, v.n)))]

def seq_member(ex, s, lv, v, name, vs, e):
    et = v.t.args[0]
    T = ex.T
    if v.t.name == 'multimap' and name in ('insert', 'emplace', 'equal_range', 'count', 'lower_bound', 'upper_bound', 'find'):
        return mm_member(ex, s, lv, v, name, vs, e)
    if name in ('size', 'length'):
        return [(s, v.n)]
    if name == 'query' and v.t.name == 'rtree':
        pr, ins = ex.rv(s, vs[0]), ex.rv(s, vs[1])
        if not (isinstance(pr, tuple) and pr[0] == 'rtquery' and isinstance(ins, Ins)):
            raise Unsupported('rtree query')
        dst = ex.read(s, ins.lv)
        if not zero(z3.simplify(dst.n)):
            raise Unsupported('rtree query into a non-empty container')
        ex.assumed.add('boost::geometry::index::rtree: a query returns exactly the stored values whose box satisfies the predicate')
        new, n = filtered(ex, s, v, lambda i: geo_fn(ex, pr[1], [B], pr[2], ex.step(s, v, ('i', i)).f['first'])[0])
        ex.write(s, ins.lv, Seq(dst.t, z3.IntVal(0), n, new))
        return [(s, n)]
    if name == 'empty':
        return [(s, v.n == 0)]
    if name in ('begin', 'cbegin'):
        return [(s, It(lv, z3.IntVal(0)))]
    if name in ('end', 'cend'):
        return [(s, It(lv, v.n))]
    if name in ('rbegin', 'crbegin'):
        return [(s, It(lv, z3.IntVal(0), True))]
    if name in ('rend', 'crend'):
        return [(s, It(lv, v.n, True))]
    if name in ('front', 'back'):
        ex.oblige(s, v.n > 0, '%s() of a non-empty container' % name)
        return [(s, lv.add(('i', z3.IntVal(0) if name == 'front' else z3.simplify(v.n - 1))))]
    if name == 'at':
        i = ex.num(s, vs[0])
        out = []
        for s2, t in ex.split(s, z3.And(i >= 0, i < v.n)):
            if t:
                out.append((s2, lv.add(('i', i))))
            else:
                throw_std(ex, s2, e, 'std::out_of_range')
        return out
    if name in ('push_back', 'emplace_back'):
        x = None
        if len(vs) == 1:
            x = ex.rv(s, vs[0])
            if et.k == 'rec' and not (isinstance(x, Rec) and x.t == et):
                x = None
        if x is None:
            x = emplace(ex, s, et, vs)
            if isinstance(x, list):
                out = []
                for s2, y in x:
                    out += push(ex, s2, lv, y)
                return out
        return push(ex, s, lv, x)
    if name == 'push_front':
        x = ex.conv_init(s, et, vs[0])
        ls = T.flat(x, et)
        lo = z3.simplify(v.lo - 1)
        ex.write(s, lv, Seq(v.t, lo, z3.simplify(v.n + 1), [z3.Store(a, lo, y) for a, y in zip(v.data, ls)]))
        return [(s, None)]
    if name == 'pop_front':
        ex.oblige(s, v.n > 0, 'pop_front() of a non-empty container')
        ex.write(s, lv, Seq(v.t, plus(v.lo, 1), z3.simplify(v.n - 1), v.data))
        return [(s, None)]
    if name == 'pop_back':
        ex.oblige(s, v.n > 0, 'pop_back() of a non-empty container')
        ex.write(s, lv, Seq(v.t, v.lo, z3.simplify(v.n - 1), v.data))
        return [(s, None)]
    if name == 'clear':
        ex.write(s, lv, Seq(v.t, z3.IntVal(0), z3.IntVal(0), v.data))
        return [(s, None)]
    if name == 'reserve' or name == 'shrink_to_fit':
        return [(s, None)]
    if name == 'capacity':
        c = z3.FreshConst(I, 'cap')
        s.pc.append(c >= v.n)
        return [(s, c)]
    if name == 'resize':
        n = ex.num(s, vs[0])
        x = ex.conv_init(s, et, vs[1]) if len(vs) > 1 else ex.default(s, et)
        ls = T.flat(x, et)
        k = z3.Int('k!')
        new = [z3.FreshConst(a.sort(), 'rsz') for a in v.data]
        for a, b, d in zip(new, v.data, ls):
            s.pc.append(z3.ForAll([k], a[k] == z3.If(k < v.lo + v.n, b[k], d), patterns=[a[k]] + ([b[k]] if not z3.is_K(b) and not z3.is_store(b) else [])))
        ex.write(s, lv, Seq(v.t, v.lo, n, new))
        return [(s, None)]
    if name == 'erase':
        it = ex.rv(s, vs[0])
        if len(vs) == 1:
            ex.oblige(s, z3.And(it.idx >= 0, it.idx < v.n), 'erase of a valid position')
            if z3.is_int_value(it.idx) and it.idx.as_long() == 0:
                ex.write(s, lv, Seq(v.t, plus(v.lo, 1), z3.simplify(v.n - 1), v.data))
            else:
                ex.write(s, lv, Seq(v.t, v.lo, z3.simplify(v.n - 1), shifted(ex, s, v, it.idx, 1, 'ers')))
            return [(s, It(lv, it.idx))]
        b = ex.rv(s, vs[1])
        ex.oblige(s, z3.And(it.idx >= 0, it.idx <= b.idx, b.idx <= v.n), 'erase of a valid range')
        n = z3.simplify(v.n - (b.idx - it.idx))
        if z3.is_int_value(it.idx) and it.idx.as_long() == 0:
            ex.write(s, lv, Seq(v.t, plus(v.lo, b.idx), n, v.data))
        elif b.idx.eq(v.n):
            ex.write(s, lv, Seq(v.t, v.lo, n, v.data))
        else:
            ex.write(s, lv, Seq(v.t, v.lo, n, shifted(ex, s, v, it.idx, b.idx - it.idx, 'ers')))
        return [(s, It(lv, it.idx))]
    if name == 'insert':
        it = ex.rv(s, vs[0])
        if len(vs) == 3:
            a, b = ex.rv(s, vs[1]), ex.rv(s, vs[2])
            src = ex.read(s, a.lv)
            cnt = z3.simplify(b.idx - a.idx)
            ex.oblige(s, z3.And(a.idx >= 0, a.idx <= b.idx, b.idx <= src.n), 'valid iterator range')
            k = z3.Int('k!')
            new = [z3.FreshConst(x.sort(), 'ins') for x in v.data]
            for x, y, zz in zip(new, v.data, src.data):
                s.pc.append(z3.ForAll([k], x[k] == z3.If(k < v.lo + it.idx, y[k],
                            z3.If(k < v.lo + it.idx + cnt, zz[src.lo + a.idx + (k - v.lo - it.idx)], y[k - cnt])), patterns=[x[k]]))
            ex.write(s, lv, Seq(v.t, v.lo, z3.simplify(v.n + cnt), new))
            return [(s, It(lv, it.idx))]
        if len(vs) == 2:
            ls = T.flat(ex.conv_init(s, et, vs[1]), et)
            k = z3.Int('k!')
            new = [z3.FreshConst(x.sort(), 'ins') for x in v.data]
            for x, y, d in zip(new, v.data, ls):
                s.pc.append(z3.ForAll([k], x[k] == z3.If(k < v.lo + it.idx, y[k], z3.If(k == v.lo + it.idx, d, y[k - 1])), patterns=[x[k]]))
            ex.write(s, lv, Seq(v.t, v.lo, z3.simplify(v.n + 1), new))
            return [(s, It(lv, it.idx))]
    if name == 'assign':
        if len(vs) == 2:
            a, b = ex.rv(s, vs[0]), ex.rv(s, vs[1])
            if isinstance(a, It):
                new = range_copy(ex, s, v.t, a, b)
                ex.write(s, lv, new)
                return [(s, None)]
            n = ex.num(s, a)
            ls = T.flat(ex.conv_init(s, et, b), et)
            ex.write(s, lv, Seq(v.t, z3.IntVal(0), n, [constarr(x) for x in ls]))
            return [(s, None)]
    if name == 'operator=':
        w = ex.rv(s, vs[0])
        ex.write(s, lv, Seq(v.t, w.lo, w.n, w.data))
        return [(s, lv)]
    if name == 'swap':
        w = ex.rv(s, vs[0])
        ex.write(s, lv, w)
        ex.write(s, vs[0], v)
        return [(s, None)]
    if name == 'data':
        return [(s, Ptr(lv, z3.BoolVal(False)))]
    raise Unsupported('sequence member ' + name)

def push(ex, s, lv, x):
    v = ex.read(s, lv)
    et = v.t.args[0]
    try:
        ls = ex.T.flat(ex.conv_init(s, et, x), et)
    except NonFinite:
        ex.oblige(s, z3.BoolVal(False), 'finite value stored in a container', 'finite')
        return []
    ix = plus(v.lo, v.n)
    ex.write(s, lv, Seq(v.t, v.lo, z3.simplify(v.n + 1), [z3.Store(a, ix, y) for a, y in zip(v.data, ls)]))
    return [(s, lv.add(('i', z3.simplify(v.n))))]

def emplace(ex, s, et, vs):
    if et.k == 'rec':
        c = [c for c in ex.P.records[et.name].ctors if len(c.params) == len(vs) and not _ex().is_copy_ctor(ex, c, et)]
        if c:
            d = ex.P.defs.get(c[0].mangled) or c[0]
            return ex.construct(s, et, d, vs)
        raise Unsupported('emplace of ' + et.name)
    if et.k == 'tup':
        if len(vs) == 1:
            return ex.rv(s, vs[0])
        return Rec(et, {n: ex.conv_init(s, a, x) for n, a, x in zip(ex.T.tupnames(et), et.args, vs)})
    if len(vs) == 1:
        return ex.rv(s, vs[0])
    if not vs:
        return ex.default(s, et)
    raise Unsupported('emplace')

def throw_std(ex, s, e, what):
    ex.throws.append((s, what))
    if ex.task is not None:
        ex.task.on_throw(ex, s, what)

def map_member(ex, s, lv, v, name, vs, e):
    T = ex.T
    kt = v.t.args[0]
    ex.assumed.add('std::%s' % v.t.name)
    if name == 'size':
        return [(s, v.card)]
    if name == 'empty':
        return [(s, v.card == 0)]
    if name in ('begin', 'cbegin'):
        return [(s, MIt(lv, 'pos', pos=z3.IntVal(0)))]
    if name in ('end', 'cend'):
        return [(s, MIt(lv, 'end'))]
    if name == 'clear':
        d = ex.default(s, v.t)
        ex.write(s, lv, d)
        return [(s, None)]
    if name in ('find', 'count', 'at', 'contains'):
        k = T.flat(ex.rv(s, vs[0]), kt)
        has = ksel(v.dom, k)
        if name == 'find':
            return [(s, MIt(lv, 'key', key=k, isend=z3.Not(has)))]
        if name == 'count':
            return [(s, z3.If(has, z3.IntVal(1), z3.IntVal(0)))]
        if name == 'contains':
            return [(s, has)]
        out = []
        for s2, t in ex.split(s, has):
            if t:
                out.append((s2, lv.add(('kv', tuple(k))).add(('f', 'second'))))
            else:
                throw_std(ex, s2, e, 'std::out_of_range')
        return out
    if name in ('insert', 'emplace'):
        if len(vs) == 2 and v.t.k == 'set' and isinstance(ex.rv(s, vs[0]), MIt):
            return set_insert_range(ex, s, lv, v, ex.rv(s, vs[0]), ex.rv(s, vs[1]))
        if len(vs) == 1 or name == 'emplace':
            if v.t.k == 'set':
                x = ex.rv(s, vs[0])
                k, val = T.flat(x, kt), []
            else:
                p = ex.rv(s, vs[0])
                if len(vs) == 2:
                    k, val = T.flat(ex.rv(s, vs[0]), kt), T.flat(ex.conv_init(s, v.t.args[1], vs[1]), v.t.args[1])
                else:
                    k = T.flat(p.f['first'], kt)
                    val = T.flat(ex.conv_init(s, v.t.args[1], p.f['second']), v.t.args[1])
            has = ksel(v.dom, k)
            new = MapV(v.t, v.card + z3.If(has, 0, 1), kstore(v.dom, k, z3.BoolVal(True)),
                       [kstore(a, k, z3.If(has, ksel(a, k), x)) for a, x in zip(v.val, val)])
            ex.write(s, lv, new)
            r = Rec(Ty('tup', 'pair', (Ty('opaque', 'iter'), BOOL)),
                    {'first': MIt(lv, 'key', key=k, isend=z3.BoolVal(False)), 'second': z3.Not(has)})
            return [(s, r)]
    if name == 'erase':
        x = ex.rv(s, vs[0])
        if isinstance(x, MIt):
            if x.kind != 'key':
                raise Unsupported('erase by position')
            ex.oblige(s, z3.Not(x.isend), 'erase of a valid iterator')
            k = x.key
        else:
            k = T.flat(x, kt)
        has = ksel(v.dom, k)
        ex.write(s, lv, MapV(v.t, v.card - z3.If(has, 1, 0), kstore(v.dom, k, z3.BoolVal(False)), v.val))
        return [(s, z3.If(has, z3.IntVal(1), z3.IntVal(0)))]
    if name == 'operator=':
        ex.write(s, lv, ex.rv(s, vs[0]))
        return [(s, lv)]
    raise Unsupported('map member ' + name)

# ------------------------------------------------------------------ free functions
def real(ex, s, v):
    v = ex.num(s, v)
    if z3.is_expr(v) and v.sort() == I:
        v = z3.ToReal(v)
    return v

def m_sqrt(ex, s, x):
    out = []
    for s2, neg in ex.split(s, x < 0):
        if neg:
            out.append((s2, NAN))
        else:
            r = ex.ufn('sqrt', R, R)(x)
            s2.pc.append(z3.And(r >= 0, r * r == x))
            out.append((s2, r))
    return out

def pi():
    return q(3.141592653589793)

def trig(ex, s, x):
    c, sn = ex.ufn('cos', R, R)(x), ex.ufn('sin', R, R)(x)
    f = [c * c + sn * sn == 1, c <= 1, c >= -1, sn <= 1, sn >= -1]
    h = pi() / 2
    f.append(z3.Implies(z3.And(x > -h, x < h), c > 0))
    f.append(z3.Implies(x == 0, z3.And(c == 1, sn == 0)))
    for a in f:
        if not any(a.eq(p) for p in s.pc):
            s.pc.append(a)
    return c, sn

def call(ex, s, name, vs, e, d):
    """assumed contracts on external free functions"""
    T = ex.T
    f = CALLS.get(name)
    if ex.task is not None and hasattr(ex.task, 'extcall'):
        r = ex.task.extcall(ex, s, name, vs, e, d)
        if r is not None:
            return r
    if f is None:
        raise Unsupported('external function ' + name)
    r = f(ex, s, vs, e, d)
    ex.assumed.add('std::' + name)
    return r

def fmath(fn):
    """unary/binary math function: NaN/Inf arguments handled"""
    def g(ex, s, vs, e, d):
        xs = [real(ex, s, v) for v in vs]
        if any(isinstance(x, FSpec) for x in xs):
            return fn(ex, s, xs, True)
        return fn(ex, s, xs, False)
    return g

def _sqrt(ex, s, xs, sp):
    if sp:
        return [(s, NAN if xs[0].kind != '+inf' else PINF)]
    return m_sqrt(ex, s, xs[0])

def _fabs(ex, s, xs, sp):
    if sp:
        return [(s, NAN if xs[0].kind == 'nan' else PINF)]
    x = xs[0]
    return [(s, z3.If(x >= 0, x, -x))]

def _pow(ex, s, xs, sp):
    if sp:
        return [(s, NAN)]
    b = z3.simplify(xs[1])
    if z3.is_rational_value(b) and b.denominator_as_long() == 1 and 0 <= b.numerator_as_long() <= 6:
        n = b.numerator_as_long()
        r = z3.RealVal(1)
        for i in range(n):
            r = xs[0] if i == 0 else r * xs[0]
        return [(s, r)]
    if z3.is_rational_value(b) and b.as_fraction() == __import__('fractions').Fraction(1, 2):
        return m_sqrt(ex, s, xs[0])
    r = ex.ufn('pow', R, R, R)(xs[0], xs[1])
    s.pc.append(z3.Implies(xs[0] > 0, r > 0))
    return [(s, r)]

def _exp(ex, s, xs, sp):
    if sp:
        return [(s, {'nan': NAN, '+inf': PINF, '-inf': z3.RealVal(0)}[xs[0].kind])]
    r = ex.ufn('exp', R, R)(xs[0])
    s.pc.append(r > 0)
    s.pc.append(z3.Implies(xs[0] <= 0, r <= 1))
    s.pc.append(z3.Implies(xs[0] >= 0, r >= 1))
    return [(s, r)]

def _log(ex, s, xs, sp):
    if sp:
        return [(s, NAN)]
    out = []
    for s2, pos in ex.split(s, xs[0] > 0):
        if pos:
            out.append((s2, ex.ufn('log', R, R)(xs[0])))
        else:
            for s3, z in ex.split(s2, xs[0] == 0):
                out.append((s3, NINF if z else NAN))
    return out

def _cos(ex, s, xs, sp):
    return [(s, NAN)] if sp else [(s, trig(ex, s, xs[0])[0])]

def _sin(ex, s, xs, sp):
    return [(s, NAN)] if sp else [(s, trig(ex, s, xs[0])[1])]

def _atan2(ex, s, xs, sp):
    if sp:
        return [(s, NAN)]
    r = ex.ufn('atan2', R, R, R)(xs[0], xs[1])
    s.pc.append(z3.And(r >= -pi(), r <= pi()))
    s.pc.append(z3.Implies(z3.And(xs[0] == 0, xs[1] > 0), r == 0))
    return [(s, r)]

def _asin(ex, s, xs, sp):
    if sp:
        return [(s, NAN)]
    out = []
    for s2, ok in ex.split(s, z3.And(xs[0] >= -1, xs[0] <= 1)):
        if ok:
            r = ex.ufn('asin', R, R)(xs[0])
            s2.pc.append(z3.And(r >= -pi() / 2, r <= pi() / 2))
            out.append((s2, r))
        else:
            out.append((s2, NAN))
    return out

def _floor(ex, s, xs, sp):
    return [(s, xs[0])] if sp else [(s, z3.ToReal(z3.ToInt(xs[0])))]

def _ceil(ex, s, xs, sp):
    return [(s, xs[0])] if sp else [(s, -z3.ToReal(z3.ToInt(-xs[0])))]

def _round(ex, s, xs, sp):
    return [(s, xs[0])] if sp else [(s, z3.If(xs[0] >= 0, z3.ToReal(z3.ToInt(xs[0] + q(0.5))), -z3.ToReal(z3.ToInt(-xs[0] + q(0.5)))))]

def _trunc(ex, s, xs, sp):
    return [(s, xs[0])] if sp else [(s, z3.If(xs[0] >= 0, z3.ToReal(z3.ToInt(xs[0])), -z3.ToReal(z3.ToInt(-xs[0]))))]

def _copysign(ex, s, xs, sp):
    if sp:
        return [(s, NAN)]
    a = z3.If(xs[0] >= 0, xs[0], -xs[0])
    return [(s, z3.If(xs[1] >= 0, a, -a))]

def _isnan(ex, s, vs, e, d):
    x = real(ex, s, vs[0])
    return [(s, z3.BoolVal(isinstance(x, FSpec) and x.kind == 'nan'))]

def _isfinite(ex, s, vs, e, d):
    x = real(ex, s, vs[0])
    return [(s, z3.BoolVal(not isinstance(x, FSpec)))]

def _minmax(which):
    def g(ex, s, vs, e, d):
        a, b = ex.rv(s, vs[0]), ex.rv(s, vs[1]) if len(vs) > 1 else None
        if b is None:
            if isinstance(a, Seq) and z3.is_int_value(z3.simplify(a.n)):
                n = z3.simplify(a.n).as_long()
                xs = [ex.step(s, a, ('i', z3.IntVal(i))) for i in range(n)]
                r = xs[0]
                for x in xs[1:]:
                    r = z3.If((x < r) if which == 'min' else (x > r), x, r)
                return [(s, r)]
            raise Unsupported(which)
        if len(vs) == 3:
            raise Unsupported(which + ' with comparator')
        if isinstance(a, FSpec) or isinstance(b, FSpec):
            # min(a,b) = (b<a)?b:a ; max(a,b) = (a<b)?b:a
            x, y = (b, a) if which == 'min' else (a, b)
            r = ex.binop_special(s, '<', x, y)[0][1]
            return [(s, b if z3.is_true(z3.simplify(r)) else a)]
        if isinstance(a, Rec) or isinstance(b, Rec):
            r = _ex().choose(default_less(ex, s, b, a) if which == 'min' else default_less(ex, s, a, b), b, a)
            if r is None:
                raise Unsupported(which)
            return [(s, ex.alloc(s, r, which) if e.get('valueCategory') == 'lvalue' else r)]
        r = z3.If(b < a, b, a) if which == 'min' else z3.If(a < b, b, a)
        r = z3.simplify(r)
        return [(s, ex.alloc(s, r, which) if e.get('valueCategory') == 'lvalue' else r)]
    return g

def _limits(name):
    def g(ex, s, vs, e, d):
        t = T_of(ex, e)
        if t.k == 'real':
            ft = e['type'].get('desugaredQualType', e['type']['qualType'])
            flt = ft == 'float'
            v = {'max': q(3.4028234663852886e38) if flt else _ex().DBL_MAX, 'epsilon': q(1.1920928955078125e-07) if flt else q(2.220446049250313e-16),
                 'lowest': -q(3.4028234663852886e38) if flt else -_ex().DBL_MAX, 'min': q(2.2250738585072014e-308)}
            if name == 'infinity':
                return [(s, PINF)]
            if name == 'quiet_NaN':
                return [(s, NAN)]
            return [(s, v[name])]
        b = t.bits
        hi = 2 ** (b - 1) - 1 if t.signed else 2 ** b - 1
        lo = -2 ** (b - 1) if t.signed else 0
        return [(s, z3.IntVal({'max': hi, 'min': lo, 'lowest': lo}[name]))]
    return g

def T_of(ex, e):
    t = ex.T.of(e['type'])
    return t.args[0] if t.k == 'ref' else t

def _max(ex, s, vs, e, d):
    if not vs:
        return _limits('max')(ex, s, vs, e, d)
    return _minmax('max')(ex, s, vs, e, d)

def _min(ex, s, vs, e, d):
    if not vs:
        return _limits('min')(ex, s, vs, e, d)
    return _minmax('min')(ex, s, vs, e, d)

def _make_pair(ex, s, vs, e, d):
    t = T_of(ex, e)
    return [(s, Rec(t, {n: ex.conv_init(s, a, v) for n, a, v in zip(ex.T.tupnames(t), t.args, vs)}))]

def _tie(ex, s, vs, e, d):
    return [(s, Rec(Ty('tup', 'tuple', ()), {str(i): v for i, v in enumerate(vs)}))]

def _id(ex, s, vs, e, d):
    return [(s, vs[0])]

def _make_shared(ex, s, vs, e, d):
    t = T_of(ex, e)
    t = t.args[0]
    if t.k == 'rec':
        if not vs:
            return [(s, Ptr(ex.alloc(s, ex.construct_default(s, t, True), 'obj'), z3.BoolVal(False)))]
        if len(vs) == 1:
            x = ex.rv(s, vs[0])
            if isinstance(x, Rec) and x.t == t:
                return [(s, Ptr(ex.alloc(s, x, 'obj'), z3.BoolVal(False)))]
        return [(s2, Ptr(ex.alloc(s2, v, 'obj'), z3.BoolVal(False))) for s2, v in emplace(ex, s, t, vs)]
    raise Unsupported('make_shared')

def _abs(ex, s, vs, e, d):
    x = ex.num(s, vs[0])
    if isinstance(x, FSpec):
        return _fabs(ex, s, [x], True)
    return [(s, z3.If(x >= 0, x, -x))]

def _swap(ex, s, vs, e, d):
    a, b = ex.rv(s, vs[0]), ex.rv(s, vs[1])
    ex.write(s, vs[0], b)
    ex.write(s, vs[1], a)
    return [(s, None)]

def _distance(ex, s, vs, e, d):
    a, b = ex.rv(s, vs[0]), ex.rv(s, vs[1])
    if isinstance(a, It):
        return [(s, z3.simplify(b.idx - a.idx))]
    raise Unsupported('distance')

def _beginend(which):
    def g(ex, s, vs, e, d):
        return member(ex, s, ex.lref(s, vs[0]), which, [], e)
    return g

def _advance(ex, s, vs, e, d):
    it = ex.rv(s, vs[0])
    n = ex.num(s, vs[1]) if len(vs) > 1 else z3.IntVal(1)
    return [(s, It(it.lv, plus(it.idx, n), it.rev))]

def _prev(ex, s, vs, e, d):
    it = ex.rv(s, vs[0])
    n = ex.num(s, vs[1]) if len(vs) > 1 else z3.IntVal(1)
    return [(s, It(it.lv, z3.simplify(it.idx - n), it.rev))]

def _back_inserter(ex, s, vs, e, d):
    return [(s, Ins(ex.lref(s, vs[0])))]

# --- predicates on symbolic elements ------------------------------------------------
def pure_pred(ex, s, clo, args, what):
    """evaluate a lambda/function on symbolic arguments, as a formula (must not have effects)"""
    s2 = s.clone()
    n = len(s2.pc)
    st0 = dict(s2.store)
    if isinstance(clo, (Clo, FnRef)):
        res = ex.call_closure(s2, clo, args)
    else:
        raise Unsupported(what)
    val = None
    ax = []
    for s3, v in res:
        v = ex.rv(s3, v)
        if any(not same(s3.store.get(k), x) for k, x in st0.items()):
            raise Unsupported('side effect in ' + what)
        suf = s3.pc[n:]
        c = z3.And(*suf) if suf else z3.BoolVal(True)
        if z3.is_expr(v):
            val = v if val is None else z3.If(c, v, val)
        else:
            if val is not None or len(res) > 1:
                raise Unsupported('forking ' + what)
            val = v
        ax.append((suf, v))
    if val is None:
        raise Unsupported(what)
    return val, ax

def elem_root(ex, s, seq, idx, label='el'):
    return ex.alloc(s, ex.step(s, seq, ('i', idx)), label)

def default_less(ex, s, a, b):
    a, b = ex.rv(s, a), ex.rv(s, b)
    if z3.is_expr(a) and z3.is_expr(b):
        return a < b
    if isinstance(a, Rec) and a.t.k == 'rec':
        f = ex.P.byqual.get(a.t.name + '::operator<')
        if f:
            s2 = s.clone()
            r = ex.call(s2, f[0], [ex.alloc(s2, b, 'o')], ex.alloc(s2, a, 'o'))
            if len(r) == 1:
                return ex.rv(r[0][0], r[0][1])
        raise Unsupported('operator< of ' + a.t.name)
    if isinstance(a, Rec):
        return rec_cmp(ex, s, '<', a, b)
    raise Unsupported('ordering')

def less(ex, s, comp, a, b):
    """a<b by comparator on element values; symbols inside a, b may be bound later"""
    if comp is None:
        return default_less(ex, s, a, b)
    s2 = s.clone()
    v, _ = pure_pred(ex, s2, comp, [ex.alloc(s2, a, 'a'), ex.alloc(s2, b, 'b')], 'comparator')
    return v

def strict(ex, s, comp, at, lo, hi):
    """the comparator handed to an algorithm must be a strict order on the elements"""
    if comp is None:
        return
    i, j = z3.FreshConst(I, 'ci'), z3.FreshConst(I, 'cj')
    g = z3.Not(z3.And(less(ex, s, comp, at(i), at(j)), less(ex, s, comp, at(j), at(i))))
    ex.oblige(s, z3.Implies(z3.And(i >= lo, i < hi, j >= lo, j < hi), g), 'comparator is a strict order')

def occurs(x, f):
    todo, seen = [f], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.eq(x):
            return True
        todo += t.children()
    return False

def _sort(ex, s, vs, e, d):
    """[contract] permutation of the range, ordered by the comparator"""
    a, b = ex.rv(s, vs[0]), ex.rv(s, vs[1])
    comp = ex.rv(s, vs[2]) if len(vs) > 2 else None
    v = ex.read(s, a.lv)
    if not (z3.is_int_value(a.idx) and a.idx.as_long() == 0 and b.idx.eq(v.n)) or a.rev != b.rev:
        raise Unsupported('sort of a sub-range')
    et = v.t.args[0]
    new = [z3.FreshConst(x.sort(), 'srt') for x in v.data]
    w = Seq(v.t, z3.IntVal(0), v.n, new)
    nm = z3.FreshConst(I, 'perm').decl().name()
    perm, inv = z3.Function('p' + nm, I, I), z3.Function('q' + nm, I, I)
    k, j = z3.Ints('k! j!')
    s.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v.n), z3.And(perm(k) >= 0, perm(k) < v.n, inv(perm(k)) == k,
                *[x[k] == y[v.lo + perm(k)] for x, y in zip(new, v.data)])), patterns=[x[k] for x in new]))
    s.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v.n), z3.And(inv(k) >= 0, inv(k) < v.n, perm(inv(k)) == k,
                *[y[v.lo + k] == x[inv(k)] for x, y in zip(new, v.data)])), patterns=[inv(k)]))
    s.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v.n), z3.And(inv(k) >= 0, inv(k) < v.n, perm(inv(k)) == k,
                *[y[v.lo + k] == x[inv(k)] for x, y in zip(new, v.data)])), patterns=[v.data[0][v.lo + k] if not (z3.is_int_value(v.lo) and v.lo.as_long() == 0) else v.data[0][k]])
                if not z3.is_K(v.data[0]) and not z3.is_store(v.data[0]) else z3.BoolVal(True))
    strict(ex, s, comp, lambda i: ex.step(s, v, ('i', i)), z3.IntVal(0), v.n)
    ej, ek = ex.step(s, w, ('i', j)), ex.step(s, w, ('i', k))
    lt = less(ex, s, comp, ek, ej) if a.rev else less(ex, s, comp, ej, ek)
    s.notes = s.notes + (('sort', v, w, perm, inv),)
    used = [x for x in new if occurs(x, lt)] or new[:1]
    s.pc.append(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < v.n), z3.Not(lt)),
                          patterns=[z3.MultiPattern(x[k], x[j]) for x in used]))
    ex.write(s, a.lv, w)
    return [(s, None)]

def _find_if(ex, s, vs, e, d):
    """[contract] first element satisfying the predicate, or last"""
    a, b = ex.rv(s, vs[0]), ex.rv(s, vs[1])
    p = ex.rv(s, vs[2])
    v = ex.read(s, a.lv)
    r = z3.FreshConst(I, 'fnd')
    k = z3.Int('k!')
    at = lambda i: i if not a.rev else v.n - 1 - i
    def pred(s1, i):
        x = ex.step(s1, v, ('i', at(i)))
        val, _ = pure_pred(ex, s1, p, [ex.alloc(s1, x, 'el')], 'predicate')
        return val
    s.pc.append(z3.And(r >= a.idx, r <= b.idx))
    s.pc.append(z3.Implies(r < b.idx, pred(s, r)))
    s.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= a.idx, k < r), z3.Not(pred(s, k))), patterns=[x[v.lo + at(k)] if not zero(v.lo) else x[at(k)] for x in v.data[:1]]))
    return [(s, It(a.lv, r, a.rev))]

def zero(x):
    return z3.is_int_value(x) and x.as_long() == 0

def _extreme(which):
    def g(ex, s, vs, e, d):
        """[contract] first element that no other element exceeds"""
        a, b = ex.rv(s, vs[0]), ex.rv(s, vs[1])
        comp = ex.rv(s, vs[2]) if len(vs) > 2 else None
        if isinstance(a, MIt):
            return map_extreme(ex, s, a, b, comp, which)
        v = ex.read(s, a.lv)
        r = z3.FreshConst(I, 'ext')
        k = z3.Int('k!')
        ev, kv = ex.step(s, v, ('i', r)), ex.step(s, v, ('i', k))
        strict(ex, s, comp, lambda i: ex.step(s, v, ('i', i)), a.idx, b.idx)
        s.pc.append(z3.If(a.idx < b.idx, z3.And(r >= a.idx, r < b.idx), r == b.idx))
        pat = [x[plus(v.lo, k)] for x in v.data[:1]]
        if which == 'max':
            s.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= a.idx, k < b.idx), z3.Not(less(ex, s, comp, ev, kv))), patterns=pat))
            s.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= a.idx, k < r), less(ex, s, comp, kv, ev)), patterns=pat))
        else:
            s.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= a.idx, k < b.idx), z3.Not(less(ex, s, comp, kv, ev))), patterns=pat))
            s.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= a.idx, k < r), less(ex, s, comp, ev, kv)), patterns=pat))
        return [(s, It(a.lv, r, a.rev))]
    return g

def map_extreme(ex, s, a, b, comp, which):
    m = ex.read(s, a.lv)
    if not (a.kind == 'pos' and zero(a.pos) and b.kind == 'end'):
        raise Unsupported('partial map range')
    ks = ex.T.sorts(m.t.args[0])
    r = [z3.FreshConst(x, 'mx') for x in ks]
    kk = [z3.FreshConst(x, 'k') for x in ks]
    rp, kp = ex.step(s, m, ('kv', tuple(r))), ex.step(s, m, ('kv', tuple(kk)))
    arrs, pos = ex.enum(s, m)
    strict(ex, s, comp, lambda i: ex.step(s, m, ('kv', tuple(z3.Select(x, i) for x in arrs))), z3.IntVal(0), m.card)
    s.pc.append(z3.Implies(m.card > 0, ksel(m.dom, r)))
    lt = less(ex, s, comp, rp, kp) if which == 'max' else less(ex, s, comp, kp, rp)
    s.pc.append(z3.ForAll(kk, z3.Implies(ksel(m.dom, kk), z3.Not(lt)), patterns=[ksel(m.dom, kk)]))
    ex.assumed.add('std::max_element over a map')
    return [(s, MIt(a.lv, 'key', key=r, isend=m.card == 0))]

def _upper_bound(ex, s, vs, e, d):
    """[contract] on a range partitioned by comp(value, .): first element with comp(value, element)"""
    a, b = ex.rv(s, vs[0]), ex.rv(s, vs[1])
    comp = ex.rv(s, vs[3]) if len(vs) > 3 else None
    v = ex.read(s, a.lv)
    r = z3.FreshConst(I, 'ub')
    k = z3.Int('k!')
    def c(i):
        el = ex.step(s, v, ('i', i))
        if comp is None:
            return default_less(ex, s, vs[2], el)
        s2 = s.clone()
        val, _ = pure_pred(ex, s2, comp, [vs[2] if isinstance(vs[2], LRef) else ex.alloc(s2, vs[2]), ex.alloc(s2, el, 'el')], 'comparator')
        return val
    pat = [x[plus(v.lo, k)] for x in v.data[:1]]
    part = z3.FreshConst(I, 'pt')
    # partitioned is the caller's duty (std precondition)
    ii, jj = z3.Ints('i! j!')
    ex.oblige(s, z3.ForAll([ii, jj], z3.Implies(z3.And(a.idx <= ii, ii < jj, jj < b.idx, c(ii)), c(jj))), 'upper_bound on a partitioned range')
    s.pc.append(z3.And(r >= a.idx, r <= b.idx))
    s.pc.append(z3.Implies(r < b.idx, c(r)))
    s.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= a.idx, k < r), z3.Not(c(k))), patterns=pat))
    return [(s, It(a.lv, r))]

def _remove_if(ex, s, vs, e, d):
    """[contract] stable filter of the range; returns the new logical end"""
    a, b = ex.rv(s, vs[0]), ex.rv(s, vs[1])
    v = ex.read(s, a.lv)
    p = ex.rv(s, vs[2])
    if not zero(a.idx) or not b.idx.eq(v.n):
        raise Unsupported('remove_if of a sub-range')
    def pred(i):
        val, _ = pure_pred(ex, s, p, [ex.alloc(s, ex.step(s, v, ('i', i)), 'el')], 'predicate')
        return z3.Not(val)
    new, n = filtered(ex, s, v, pred)
    w = Seq(v.t, z3.IntVal(0), v.n, new)
    ex.write(s, a.lv, w)
    return [(s, It(a.lv, n))]

def filtered(ex, s, v, keep):
    """arrays/length of the stable filter of v (rank function characterisation)"""
    nm = z3.FreshConst(I, 'rank').decl().name()
    rank, at = z3.Function(nm, I, I), z3.Function(nm + 'at', I, I)
    new = [z3.FreshConst(x.sort(), 'flt') for x in v.data]
    n = z3.FreshConst(I, 'fn')
    k, j = z3.Ints('k! j!')
    s.pc.append(z3.And(n >= 0, n <= v.n))
    s.pc.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < v.n, keep(k)), z3.And(rank(k) >= 0, rank(k) < n, at(rank(k)) == k,
                          *[x[rank(k)] == y[plus(v.lo, k)] for x, y in zip(new, v.data)])),
                          patterns=[rank(k)] + ([v.data[0][plus(v.lo, k)]] if not z3.is_K(v.data[0]) and not z3.is_store(v.data[0]) else [])))
    s.pc.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(at(k) >= 0, at(k) < v.n, keep(at(k)), rank(at(k)) == k,
                          *[x[k] == y[plus(v.lo, at(k))] for x, y in zip(new, v.data)])), patterns=[x[k] for x in new]))
    s.pc.append(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < n), at(k) < at(j)), patterns=[z3.MultiPattern(at(k), at(j))]))
    return new, n

def _copy_if(ex, s, vs, e, d):
    a, b = ex.rv(s, vs[0]), ex.rv(s, vs[1])
    ins = ex.rv(s, vs[2])
    p = ex.rv(s, vs[3])
    if not isinstance(ins, Ins):
        raise Unsupported('copy_if destination')
    v = ex.read(s, a.lv)
    if not zero(a.idx) or not b.idx.eq(v.n):
        raise Unsupported('copy_if of a sub-range')
    dst = ex.read(s, ins.lv)
    if not zero(z3.simplify(dst.n)):
        raise Unsupported('copy_if into a non-empty container')
    def pred(i):
        val, _ = pure_pred(ex, s, p, [ex.alloc(s, ex.step(s, v, ('i', i)), 'el')], 'predicate')
        return val
    new, n = filtered(ex, s, v, pred)
    ex.write(s, ins.lv, Seq(dst.t, z3.IntVal(0), n, new))
    return [(s, Ins(ins.lv))]

def _partial_sort_copy(ex, s, vs, e, d):
    """[contract] the first min(N, M) elements of the source in the order of the comparator, in sorted order"""
    a, b = ex.rv(s, vs[0]), ex.rv(s, vs[1])
    da, db = ex.rv(s, vs[2]), ex.rv(s, vs[3])
    comp = ex.rv(s, vs[4]) if len(vs) > 4 else None
    dst = ex.read(s, da.lv)
    if not isinstance(da, It) or not zero(z3.simplify(da.idx)) or not z3.simplify(db.idx).eq(z3.simplify(dst.n)):
        raise Unsupported('partial_sort_copy into a sub-range')
    et = dst.t.args[0]
    src = ex.read(s, a.lv)
    ex.assumed.add('std::partial_sort_copy')
    if isinstance(a, MIt):
        if not (a.kind == 'pos' and zero(z3.simplify(a.pos)) and b.kind == 'end'):
            raise Unsupported('partial map range')
        arrs, pos = ex.enum(s, src)
        n0, dom = src.card, None
        at = lambda i: ex.step(s, src, ('kv', tuple(z3.Select(x, i) for x in arrs)))
        pt = lambda i: z3.Select(arrs[0], i)
    else:
        if not zero(z3.simplify(a.idx)) or not z3.simplify(b.idx).eq(z3.simplify(src.n)):
            raise Unsupported('partial_sort_copy of a sub-range')
        n0 = src.n
        at = lambda i: ex.step(s, src, ('i', i))
        pt = lambda i: z3.Select(src.data[0], plus(src.lo, i))
    strict(ex, s, comp, at, z3.IntVal(0), n0)
    m = z3.simplify(z3.If(n0 < dst.n, n0, dst.n))
    nm = z3.FreshConst(I, 'psel').decl().name()
    sel, inv = z3.Function('s' + nm, I, I), z3.Function('i' + nm, I, I)
    new = [z3.FreshConst(x.sort(), 'psc') for x in dst.data]
    k, j = z3.Ints('k! j!')
    w = Seq(dst.t, z3.IntVal(0), dst.n, [z3.FreshConst(x.sort(), 'pscd') for x in dst.data])
    for x, y, o in zip(new, w.data, dst.data):
        s.pc.append(z3.ForAll([k], y[k] == z3.If(z3.And(k >= 0, k < m), x[k], o[plus(dst.lo, k)]), patterns=[y[k]]))
    s.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(sel(k) >= 0, sel(k) < n0, inv(sel(k)) == k,
                *[x[k] == l for x, l in zip(new, ex.T.flat(at(sel(k)), et))])), patterns=[x[k] for x in new]))
    ej, ek = ex.T.build(et, [x[j] for x in new]), ex.T.build(et, [x[k] for x in new])
    lt = less(ex, s, comp, ek, ej)
    used = [x for x in new if occurs(x, lt)] or new[:1]
    s.pc.append(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < m), z3.Not(lt)), patterns=[z3.MultiPattern(x[j], x[k]) for x in used]))
    # what was left out does not come before anything chosen; chosen elements are those with inv(i) in [0, m)
    i = z3.Int('i!')
    lt2 = less(ex, s, comp, at(i), ek)
    s.pc.append(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < n0, 0 <= k, k < m), z3.Or(z3.And(inv(i) >= 0, inv(i) < m, sel(inv(i)) == i), z3.Not(lt2))), patterns=[z3.MultiPattern(pt(i), x[k]) for x in used]))
    s.notes = s.notes + (('psc', src, w, m, sel, inv),)
    ex.write(s, da.lv, w)
    return [(s, It(da.lv, m))]

def _transform(ex, s, vs, e, d):
    """[contract] the images of all elements of the range, in order"""
    a, b = ex.rv(s, vs[0]), ex.rv(s, vs[1])
    ins, f = ex.rv(s, vs[2]), ex.rv(s, vs[3])
    if not isinstance(ins, Ins) or len(vs) != 4:
        raise Unsupported('transform destination')
    dst, src = ex.read(s, ins.lv), ex.read(s, a.lv)
    def img(el):
        v, _ = pure_pred(ex, s, f, [ex.alloc(s, el, 'el')], 'transform')
        return v
    if isinstance(a, MIt) and dst.t.k == 'set':
        if not (a.kind == 'pos' and zero(z3.simplify(a.pos)) and b.kind == 'end'):
            raise Unsupported('partial map range')
        kk = [z3.FreshConst(x, 'k') for x in ex.T.sorts(src.t.args[0])]
        pre = [z3.Function(z3.FreshConst(I, 'preim').decl().name(), *([x.sort() for x in dst_keys(ex, dst)] + [y.sort()])) for y in kk]
        new = ex.T.fresh(dst.t, 'trf')
        el = ex.step(s, src, ('kv', tuple(kk)))
        out = ex.T.flat(img(el), dst.t.args[0])
        s.pc.append(z3.ForAll(kk, z3.Implies(ksel(src.dom, kk), ksel(new.dom, out)), patterns=[ksel(src.dom, kk)]))
        x = dst_keys(ex, dst)
        back = [p(*x) for p in pre]
        img2 = ex.T.flat(img(ex.step(s, src, ('kv', tuple(back)))), dst.t.args[0])
        s.pc.append(z3.ForAll(x, z3.Implies(ksel(new.dom, x), z3.Or(ksel(dst.dom, x), z3.And(ksel(src.dom, back), *[u == v for u, v in zip(img2, x)]))), patterns=[ksel(new.dom, x)]))
        s.pc.append(z3.ForAll(x, z3.Implies(ksel(dst.dom, x), ksel(new.dom, x)), patterns=[ksel(new.dom, x)]))
        s.pc.append(z3.And(new.card >= dst.card, z3.Implies(src.card > 0, new.card > 0), z3.Implies(z3.And(src.card == 0, dst.card == 0), new.card == 0)))
        ex.write(s, ins.lv, new)
        return [(s, Ins(ins.lv))]
    raise Unsupported('transform of ' + src.t.k + ' into ' + dst.t.k)

def dst_keys(ex, dst):
    return [z3.Const('x%d!' % i, q) for i, q in enumerate(ex.T.sorts(dst.t.args[0]))]

def set_insert_range(ex, s, lv, v, a, b):
    src = ex.read(s, a.lv)
    if not (isinstance(a, MIt) and src.t.k == 'set' and a.kind == 'pos' and zero(z3.simplify(a.pos)) and b.kind == 'end'):
        raise Unsupported('set range insert')
    new = ex.T.fresh(v.t, 'uni')
    x = dst_keys(ex, v)
    s.pc.append(z3.ForAll(x, ksel(new.dom, x) == z3.Or(ksel(v.dom, x), ksel(src.dom, x)), patterns=[ksel(new.dom, x)]))
    s.pc.append(z3.And(new.card >= v.card, new.card >= src.card, new.card <= v.card + src.card))
    ex.write(s, lv, new)
    return [(s, None)]

def _for_each(ex, s, vs, e, d):
    f = ex.rv(s, vs[2])
    def fn(s1, al, l):
        return [(s2, ex.read(s2, al)) for s2, _ in ex.call_closure(s1, f, [l])]
    return [(s2, f) for s2, _ in fold_loop(ex, s, ex.rv(s, vs[0]), ex.rv(s, vs[1]), z3.IntVal(0), fn, 'for_each' + str(e.get('id')))]

def fold_loop(ex, s, a, b, acc0, fn, label):
    """accumulate / for_each: executed as the loop  for(i=a;i!=b;++i) acc = f(acc, *i)"""
    from . import loops
    al = ex.alloc(s, acc0, 'acc')
    il = ex.alloc(s, a, '__it')
    v = ex.read(s, a.lv) if isinstance(a, It) else None
    node = {'kind': 'ModelLoop', 'id': 'model:%s:%s' % (label, len(ex.callstack))}
    cond = {'kind': 'PyExpr', 'fn': lambda s1: [(s1, itop(ex, s1, '!=', ex.rv(s1, il), b))]}
    def step(s1):
        l = ex.deref(s1, ex.rv(s1, il))
        out = []
        for s2, r in fn(s1, al, l):
            ex.write(s2, al, ex.rv(s2, r))
            out.append((s2, None))
        return out
    body = {'kind': 'PyStmt', 'fn': step}
    inc = {'kind': 'PyExpr', 'fn': lambda s1: operator(ex, s1, 'operator++', [il], {'type': {'qualType': 'void'}})}
    return [(s2, ex.read(s2, al)) for s2, oc in loops.run_loop(ex, node, s, cond, inc, body) if oc is None]

def _accumulate(ex, s, vs, e, d):
    a, b = ex.rv(s, vs[0]), ex.rv(s, vs[1])
    init = ex.rv(s, vs[2])
    t = T_of(ex, e)
    if t.k == 'real' and z3.is_expr(init) and init.sort() == I:
        init = z3.ToReal(init)
    f = ex.rv(s, vs[3]) if len(vs) > 3 else None
    def fn(s1, al, l):
        if f is None:
            x, y = ex.rv(s1, al), ex.rv(s1, l)
            if z3.is_expr(x):
                if x.sort() == I and y.sort() == R:
                    y = z3.If(y >= 0, z3.ToInt(y), -z3.ToInt(-y))
                return ex.binop(s1, '+', x, y, t)
            raise Unsupported('accumulate of records')
        acc = ex.read(s1, al)
        return ex.call_closure(s1, f, [ex.alloc(s1, acc, 'acc0'), l])
    return fold_loop(ex, s, a, b, init, fn, 'accumulate' + str(e.get('id')))

def _get(ex, s, vs, e, d):
    # std::get<i>(tuple): index from the type of the result is ambiguous; use the referenced name
    raise Unsupported('std::get')

def _correct(ex, s, vs, e, d):
    """[contract] boost::geometry::correct: a box gets min <= max per coordinate; rings are only re-ordered/closed"""
    v = ex.rv(s, vs[0])
    if isinstance(v, Rec) and v.t.name == 'box':
        a, b = v.f['min_corner'], v.f['max_corner']
        mn = lambda x, y: z3.If(y < x, y, x)
        mx = lambda x, y: z3.If(y < x, x, y)
        w = Rec(v.t, {'min_corner': Rec(a.t, {n: mn(a.f[n], b.f[n]) for n in 'xy'}),
                      'max_corner': Rec(a.t, {n: mx(a.f[n], b.f[n]) for n in 'xy'})})
        ex.write(s, vs[0], w)
        return [(s, None)]
    t = v.t
    if isinstance(v, Seq) and t.args[0] == POINT:
        nv = ex.T.build(t, geo_fn(ex, 'correct', ex.T.sorts(t), v))
        s.pc.append(nv.n >= 0)
        ex.write(s, vs[0], nv)
        return [(s, None)]
    w = []
    ex.write(s, vs[0], ex.T.fresh(t, 'corr', wf=w))
    s.pc += w
    return [(s, None)]

def _append(ex, s, vs, e, d):
    return seq_member(ex, s, vs[0], ex.rv(s, vs[0]), 'push_back', [vs[1]], e)

def geo_fn(ex, name, sorts, *geos):
    """boost::geometry relation: an unspecified function of the geometries it is given"""
    ls = [l for g in geos for _, l in vleaves(g)]
    tag = '_'.join(''.join('A' if l.sort().kind() == z3.Z3_ARRAY_SORT else str(l.sort())[0] for _, l in vleaves(g)) for g in geos)
    return [ex.ufn('%s_%s_%d' % (name, tag, i), *([l.sort() for l in ls] + [so]))(*ls) for i, so in enumerate(sorts)]

def _geo_rel(name):
    def g(ex, s, vs, e, d):
        gs = [ex.rv(s, v) for v in vs]
        if len(gs) == 1:
            return [(s, ('rtquery', name, gs[0]))]
        # a record derived from a point is seen as that point
        gs = [Rec(v.t, {n: v.f[n] for n in 'xy'}) if isinstance(v, Rec) and len(v.f) > 2 and 'x' in v.f and 'y' in v.f else v for v in gs]
        if name in ('covered_by', 'within') and isinstance(gs[0], Rec) and isinstance(gs[1], Rec) and gs[1].t.name == 'box' and sorted(gs[0].f) == ['x', 'y']:
            a, b = gs[1].f['min_corner'], gs[1].f['max_corner']
            ex.assumed.add('boost::geometry::%s of a point and a box (%s box)' % (name, 'closed' if name == 'covered_by' else 'open'))
            lt = (lambda x, y: x <= y) if name == 'covered_by' else (lambda x, y: x < y)
            return [(s, z3.And(*[z3.And(lt(a.f[n], gs[0].f[n]), lt(gs[0].f[n], b.f[n])) for n in 'xy']))]
        ex.assumed.add('boost::geometry::%s (an unspecified relation between its two geometries)' % name)
        return [(s, geo_fn(ex, name, [B], *gs)[0])]
    return g

def _envelope(ex, s, vs, e, d):
    g = ex.rv(s, vs[-1])
    ex.assumed.add('boost::geometry::return_envelope (a box that is a function of the geometry)')
    x = geo_fn(ex, 'envelope', [R] * 4, g)
    return [(s, ex.T.build(Ty('tup', 'box', (POINT, POINT)), x))]

def _unspec(ex, s, vs, e, d):
    return opaque_result(ex, s, e, d.get('name', '?'))

def _apply_visitor(ex, s, vs, e, d):
    """[contract] calls the visitor's operator() for the alternative held"""
    v = ex.rv(s, vs[1])
    if not isinstance(v, Var):
        raise Unsupported('apply_visitor')
    rec = ex.read(s, vs[0]).t.name
    out = []
    for i, (t, x) in enumerate(zip(v.t.args, v.alts)):
        for s2, b in ex.split(s.clone(), v.which == i):
            if not b:
                continue
            def ok(f):
                pt = ex.T.of(f.params[0]['type'])
                return (pt.args[0] if pt.k == 'ref' else pt) == t
            f = ex.P.func(rec + '::operator()', 1, ok)
            f = ex.P.defs.get(f.mangled) or f
            out += ex.call(s2, f, [ex.alloc(s2, x, 'alt')], vs[0])
    return out

CALLS = {
    'for_each': _for_each,
    'apply_visitor': _apply_visitor,
    'sqrt': fmath(_sqrt), 'fabs': fmath(_fabs), 'pow': fmath(_pow), 'exp': fmath(_exp), 'log': fmath(_log),
    'cos': fmath(_cos), 'sin': fmath(_sin), 'atan2': fmath(_atan2), 'asin': fmath(_asin), 'floor': fmath(_floor),
    'ceil': fmath(_ceil), 'round': fmath(_round), 'trunc': fmath(_trunc), 'copysign': fmath(_copysign),
    'sqrtf': fmath(_sqrt), 'fabsf': fmath(_fabs), 'hypot': fmath(lambda ex, s, xs, sp: [(s, NAN)] if sp else m_sqrt(ex, s, xs[0] * xs[0] + xs[1] * xs[1])),
    'isnan': _isnan, 'isfinite': _isfinite, '__builtin_isnan': _isnan, '__builtin_isfinite': _isfinite,
    'isinf': lambda ex, s, vs, e, d: [(s, z3.BoolVal(isinstance(ex.rv(s, vs[0]), FSpec) and ex.rv(s, vs[0]).kind != 'nan'))],
    '__builtin_nanf': lambda ex, s, vs, e, d: [(s, NAN)], '__builtin_nan': lambda ex, s, vs, e, d: [(s, NAN)],
    '__builtin_inff': lambda ex, s, vs, e, d: [(s, PINF)],
    'max': _max, 'min': _min, 'epsilon': _limits('epsilon'), 'lowest': _limits('lowest'), 'infinity': _limits('infinity'),
    'quiet_NaN': _limits('quiet_NaN'),
    'make_pair': _make_pair, 'make_tuple': _make_pair, 'tie': _tie, 'move': _id, 'forward': _id, 'make_shared': _make_shared,
    'make_unique': _make_shared, 'abs': _abs, 'swap': _swap, 'distance': _distance, 'begin': _beginend('begin'), 'end': _beginend('end'),
    'cbegin': _beginend('begin'), 'cend': _beginend('end'), 'next': _advance, 'prev': _prev, 'back_inserter': _back_inserter,
    'inserter': _back_inserter, 'sort': _sort, 'stable_sort': _sort, 'find_if': _find_if, 'max_element': _extreme('max'),
    'min_element': _extreme('min'), 'upper_bound': _upper_bound, 'remove_if': _remove_if, 'copy_if': _copy_if,
    'accumulate': _accumulate, 'partial_sort_copy': _partial_sort_copy, 'transform': _transform, 'correct': _correct, 'append': _append,
    'covered_by': _geo_rel('covered_by'), 'intersects': _geo_rel('intersects'), 'within': _geo_rel('within'),
    'return_envelope': _envelope,
    'isnormal': _isfinite, 'to_string': lambda ex, s, vs, e, d: [(s, z3.FreshConst(I, 'tostr'))],
}

def _member_model(ex, s, lv, name, vs, e):
    pass
