"""Value model: immutable symbolic values, flattened to z3 leaves when stored in containers."""
import re
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

class Unsupported(Exception):
    """construct outside the verifier's reach (never a violation)"""

# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'name', 'args', 'bits', 'signed')
    def __init__(self, k, name='', args=(), bits=0, signed=True):
        self.k, self.name, self.args, self.bits, self.signed = k, name, tuple(args), bits, signed
    def __repr__(self):
        return self.k + (':' + self.name if self.name else '') + (str(list(self.args)) if self.args else '')
    def __eq__(self, o):
        return isinstance(o, Ty) and repr(self) == repr(o)
    def __hash__(self):
        return hash(repr(self))

REAL = Ty('real')
BOOL = Ty('bool')
INT = Ty('int', bits=32)
LL = Ty('int', bits=64)
ULONG = Ty('int', bits=64, signed=False)
UINT = Ty('int', bits=32, signed=False)
STR = Ty('str')
VOID = Ty('void')

_INTS = {
    'int': INT, 'long': LL, 'long long': LL, 'short': Ty('int', bits=16), 'char': Ty('int', bits=8),
    'signed char': Ty('int', bits=8), 'unsigned int': UINT, 'unsigned': UINT, 'unsigned long': ULONG,
    'unsigned long long': ULONG, 'unsigned char': Ty('int', bits=8, signed=False),
    'unsigned short': Ty('int', bits=16, signed=False), 'size_t': ULONG, 'std::size_t': ULONG,
    'size_type': ULONG, 'difference_type': LL, 'std::ptrdiff_t': LL, 'ptrdiff_t': LL, 'std::time_t': LL,
    'time_t': LL, 'uint32_t': UINT, 'uint64_t': ULONG, 'int64_t': LL, 'int32_t': INT,
}

def _split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<(':
            d += 1
        elif c in '>)':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out

def seqty(e):
    return Ty('seq', 'vector', (e,))

def _rec(name, *fields):
    return Ty('tup', name, fields)

POINT = Ty('tup', 'point_xy', (REAL, REAL))
TUPNAMES = {'point_xy': ['x', 'y'], 'box': ['min_corner', 'max_corner'], 'pair': ['first', 'second'],
            'polygon': ['outer', 'inners'], 'segment': ['first', 'second']}

class Types:
    def __init__(self, prog):
        self.p = prog
        self.cache = {}

    def parse(self, s):
        r = self.cache.get(s)
        if r is None:
            r = self.cache[s] = self._parse(s)
        return r

    def of(self, typedict):
        d = typedict.get('desugaredQualType')
        q = typedict.get('qualType')
        if d:
            t = self.parse(d)
            if t.k != 'opaque':
                return t
        t2 = self.parse(q)
        return t2 if t2.k != 'opaque' or not d else t

    def _parse(self, s):
        s = s.strip()
        for w in ('const ', 'volatile ', 'struct ', 'class ', 'typename ', 'enum ', 'static '):
            while s.startswith(w):
                s = s[len(w):].strip()
        if s.endswith(' const'):
            return self.parse(s[:-6])
        if s.endswith('*const'):
            return self.parse(s[:-5])
        if s.endswith('&&'):
            return Ty('ref', args=(self.parse(s[:-2]),))
        if s.endswith('&'):
            return Ty('ref', args=(self.parse(s[:-1]),))
        if s.endswith('*'):
            return Ty('ptr', args=(self.parse(s[:-1]),))
        if s in ('double', 'float', 'long double'):
            return REAL
        if s in ('bool', '_Bool'):
            return BOOL
        if s == 'void':
            return VOID
        if s in _INTS:
            return _INTS[s]
        if s in ('std::string', 'std::basic_string<char>', 'string', 'std::__cxx11::basic_string<char>', 'basic_string<char>'):
            return STR
        q = None
        m = re.match(r'^(.*)\[(\d+)\]$', s)
        if m:
            return Ty('seq', 'carray', (self.parse(m.group(1)),), bits=int(m.group(2)))
        if '(lambda' in s:
            return Ty('clo')
        if s.endswith(')'):
            return Ty('opaque', 'fn')
        q = self.p.rec_name(s)
        if q:
            return Ty('rec', q)
        for en in self.p.enums:
            if en == s or en.endswith('::' + s):
                return Ty('int', name=en, bits=32)
        m = re.match(r'^([\w:\(\) ]+?)<(.*)>$', s)
        if m:
            n, a = m.group(1), _split_args(m.group(2))
            b = n.split('::')[-1]
            if b in ('vector', 'deque', 'list', 'initializer_list'):
                return Ty('seq', b, (self.parse(a[0]),))
            if b == 'array':
                return Ty('seq', 'carray', (self.parse(a[0]),), bits=int(re.sub(r'\D', '', a[1])))
            if b in ('map', 'unordered_map'):
                return Ty('map', b, (self.parse(a[0]), self.parse(a[1])))
            if b in ('set', 'unordered_set'):
                return Ty('set', b, (self.parse(a[0]),))
            if b == 'multimap':
                return Ty('seq', 'multimap', (Ty('tup', 'pair', (self.parse(a[0]), self.parse(a[1]))),))
            if b == 'pair':
                return Ty('tup', 'pair', tuple(self.parse(x) for x in a))
            if b == 'tuple':
                return Ty('tup', 'tuple', tuple(self.parse(x) for x in a))
            if b == 'optional':
                return Ty('opt', args=(self.parse(a[0]),))
            if b in ('shared_ptr', 'unique_ptr', '__shared_ptr'):
                return Ty('ptr', args=(self.parse(a[0]),))
            if b == 'point_xy':
                return POINT
            if b == 'box':
                return Ty('tup', 'box', (POINT, POINT))
            if b == 'segment':
                return Ty('tup', 'segment', (POINT, POINT))
            if b == 'rtree':
                return Ty('seq', 'rtree', (self.parse(a[0]),))
            if b in ('linestring', 'ring'):
                return Ty('seq', 'vector', (POINT,))
            if b == 'polygon':
                return Ty('tup', 'polygon', (seqty(POINT), seqty(seqty(POINT))))
            if b == 'multi_polygon':
                return Ty('seq', 'vector', (Ty('tup', 'polygon', (seqty(POINT), seqty(seqty(POINT)))),))
            if b == 'variant':
                return Ty('var', args=tuple(self.parse(x) for x in a if 'void_' not in x))
        if re.match(r'^[\w:]+$', s):          # a typedef of /repo that clang left unexpanded
            c = self.p.aliases.get(s.split('::')[-1], {})
            us = {u for qn, u in c.items() if qn == s or qn.endswith('::' + s)}
            if len(us) == 1 and s not in us:
                return self.parse(us.pop())
        return Ty('opaque', s)

    def tupnames(self, t):
        return TUPNAMES.get(t.name) or [str(i) for i in range(len(t.args))]

    def fields(self, t):
        """[(name, Ty)] of a record, bases first"""
        key = ('F', t.name)
        if key in self.cache:
            return self.cache[key]
        r = self.p.records[t.name]
        out = []
        for b in r.bases:
            bt = self.parse(b)
            if bt.k == 'rec':
                out += self.fields(bt)
        for f in r.fields:
            out.append((f.get('name', ''), self.of(f['type'])))
        self.cache[key] = out
        return out

    def field_node(self, t, name):
        r = self.p.records[t.name]
        for f in r.fields:
            if f.get('name') == name:
                return f
        for b in r.bases:
            bt = self.parse(b)
            if bt.k == 'rec':
                x = self.field_node(bt, name)
                if x:
                    return x
        return None

    # ---------------------------------------------------------------- leaves
    def sorts(self, t):
        key = ('S', t)
        if key in self.cache:
            return self.cache[key]
        k = t.k
        if k in ('int', 'str', 'ptr'):
            r = [I]
        elif k == 'real':
            r = [R]
        elif k == 'bool':
            r = [B]
        elif k == 'ref':
            r = self.sorts(t.args[0])
        elif k == 'rec':
            r = [s for _, ft in self.fields(t) for s in self.sorts(ft)]
        elif k == 'tup':
            r = [s for a in t.args for s in self.sorts(a)]
        elif k == 'opt':
            r = [B] + self.sorts(t.args[0])
        elif k == 'var':
            r = [I] + [s for a in t.args for s in self.sorts(a)]
        elif k == 'seq':
            r = [I, I] + [z3.ArraySort(I, s) for s in self.sorts(t.args[0])]
        elif k == 'map':
            r = [I] + [karr(self.sorts(t.args[0]), s) for s in [B] + self.sorts(t.args[1])]
        elif k == 'set':
            r = [I, karr(self.sorts(t.args[0]), B)]
        elif k in ('opaque', 'clo', 'void'):
            r = []
        else:
            raise Unsupported('sorts of ' + repr(t))
        self.cache[key] = r
        return r

    def build(self, t, ls):
        it = iter(ls)
        v = self._build(t, it)
        return v

    def _build(self, t, it):
        k = t.k
        if k in ('int', 'str', 'real', 'bool'):
            return next(it)
        if k == 'ref':
            return self._build(t.args[0], it)
        if k == 'ptr':
            return Ptr(None, addr=next(it), ty=t.args[0])
        if k == 'rec':
            return Rec(t, {n: self._build(ft, it) for n, ft in self.fields(t)})
        if k == 'tup':
            return Rec(t, {n: self._build(a, it) for n, a in zip(self.tupnames(t), t.args)})
        if k == 'opt':
            h = next(it)
            return Opt(t, h, self._build(t.args[0], it))
        if k == 'var':
            w = next(it)
            return Var(t, w, [self._build(a, it) for a in t.args])
        if k == 'seq':
            lo, n = next(it), next(it)
            return Seq(t, lo, n, [next(it) for _ in self.sorts(t.args[0])])
        if k == 'map':
            c, d = next(it), next(it)
            return MapV(t, c, d, [next(it) for _ in self.sorts(t.args[1])])
        if k == 'set':
            c, d = next(it), next(it)
            return MapV(t, c, d, [])
        return Opaque(t)

    def flat(self, v, t):
        out = []
        self._flat(v, t, out)
        return out

    def _flat(self, v, t, out):
        k = t.k
        if k in ('int', 'str', 'real', 'bool'):
            if isinstance(v, FSpec):
                raise NonFinite(v)
            if not z3.is_expr(v):
                raise Unsupported('flat %r as %r' % (v, t))
            if k == 'real' and v.sort() == I:
                v = z3.ToReal(v)
            out.append(v)
        elif k == 'ref':
            self._flat(v, t.args[0], out)
        elif k == 'ptr':
            if isinstance(v, Ptr) and v.addr is not None:
                out.append(v.addr)
            else:
                raise Unsupported('pointer stored in a container')
        elif k == 'rec':
            for n, ft in self.fields(t):
                self._flat(v.f[n], ft, out)
        elif k == 'tup':
            for n, a in zip(self.tupnames(t), t.args):
                self._flat(v.f[n], a, out)
        elif k == 'opt':
            out.append(v.has)
            self._flat(v.val, t.args[0], out)
        elif k == 'var':
            out.append(v.which)
            for a, x in zip(t.args, v.alts):
                self._flat(x, a, out)
        elif k == 'seq':
            out += [v.lo, v.n] + list(v.data)
        elif k in ('map', 'set'):
            out += [v.card, v.dom] + list(v.val)

    def fresh(self, t, name, st=None, wf=None):
        """arbitrary value of type t; wf: list receiving well-formedness facts"""
        ls = [z3.FreshConst(s, name) for s in self.sorts(t)]
        v = self.build(t, ls)
        if wf is not None:
            self.wf(v, t, wf)
        return v

    def wf(self, v, t, out):
        """facts true of every C++ value of the type"""
        k = t.k
        if k == 'int':
            if z3.is_expr(v):
                if not t.signed:
                    out.append(v >= 0)
                    out.append(v < 2 ** t.bits)
                elif t.name and t.name in self.p.enums:
                    vs = self.p.enums[t.name].values()
                    out.append(z3.And(v >= min(vs), v <= max(vs)))
                else:
                    out.append(v >= -2 ** (t.bits - 1))
                    out.append(v < 2 ** (t.bits - 1))
        elif k == 'str':
            out.append(v >= 0)
        elif k == 'rec':
            for n, ft in self.fields(t):
                self.wf(v.f[n], ft, out)
        elif k == 'tup':
            for n, a in zip(self.tupnames(t), t.args):
                self.wf(v.f[n], a, out)
        elif k == 'opt':
            self.wf(v.val, t.args[0], out)
        elif k == 'var':
            out.append(z3.And(v.which >= 0, v.which < len(t.args)))
            for a, x in zip(t.args, v.alts):
                self.wf(x, a, out)
        elif k == 'seq':
            out.append(v.n >= 0)
            out.append(v.n < 2 ** 62)
            if t.name == 'carray':
                out.append(v.n == t.bits)
            out.append(v.lo == 0)
            if t.name == 'multimap':
                out.append(mm_sorted(v))
            et = t.args[0]
            need = []
            i = z3.FreshConst(I, 'wfi')
            try:
                e = self.build(et, [z3.Select(a, i) for a in v.data])
                self.wf(e, et, need)
            except Unsupported:
                need = []
            need = [x for x in need if not z3.is_true(z3.simplify(x))]
            if need:
                groups = {}
                for x in need:
                    for y in (x.children() if z3.is_and(x) else [x]):
                        ids = _ids(y)
                        ps = [p for p in (z3.Select(a, i) for a in v.data) if p.get_id() in ids]
                        groups.setdefault(tuple(p.get_id() for p in ps), (ps, []))[1].append(y)
                for ps, ys in groups.values():
                    out.append(z3.ForAll([i], z3.And(*ys), patterns=ps or [z3.Select(a, i) for a in v.data]))
        elif k in ('map', 'set'):
            out.append(v.card >= 0)
            out.append(v.card < 2 ** 62)
            ks = self.sorts(t.args[0])
            kk = [z3.FreshConst(s, 'wfk') for s in ks]
            out.append(z3.ForAll(kk, z3.Implies(ksel(v.dom, kk), v.card > 0), patterns=[ksel(v.dom, kk)]))
            # emptiness has a witness
            w = [z3.FreshConst(s, 'wit') for s in ks]
            out.append(z3.Implies(v.card > 0, ksel(v.dom, w)))
            if k == 'map':
                need = []
                try:
                    e = self.build(t.args[1], [ksel(a, kk) for a in v.val])
                    self.wf(e, t.args[1], need)
                except Unsupported:
                    need = []
                groups = {}
                for x in need:
                    for y in (x.children() if z3.is_and(x) else [x]):
                        ids = _ids(y)
                        ps = [p for p in (ksel(a, kk) for a in v.val) if p.get_id() in ids]
                        groups.setdefault(tuple(p.get_id() for p in ps), (ps, []))[1].append(y)
                for ps, ys in groups.values():
                    out.append(z3.ForAll(kk, z3.And(*ys), patterns=ps or [ksel(a, kk) for a in v.val[:1]]))

def mm_sorted(v):
    """a multimap is a sequence of pairs ascending by key (single-leaf keys)"""
    i, j = z3.Ints('mi! mj!')
    k = v.data[0]
    return z3.ForAll([i, j], z3.Implies(z3.And(v.lo <= i, i < j, j < v.lo + v.n), k[i] <= k[j]), patterns=[z3.MultiPattern(k[i], k[j])] if not (z3.is_K(k) or z3.is_store(k)) else [])

def _ids(x):
    out, st = set(), [x]
    while st:
        y = st.pop()
        if y.get_id() in out:
            continue
        out.add(y.get_id())
        st += [y.body()] if z3.is_quantifier(y) else y.children()
    return out

class NonFinite(Exception):
    pass

def karr(ks, s):
    for k in reversed(ks):
        s = z3.ArraySort(k, s)
    return s

def ksel(a, k):
    for x in k:
        a = z3.Select(a, x)
    return a

def kstore(a, k, v):
    if len(k) == 1:
        return z3.Store(a, k[0], v)
    return z3.Store(a, k[0], kstore(z3.Select(a, k[0]), k[1:], v))

# ------------------------------------------------------------------ values
class FSpec:
    """non-finite double"""
    def __init__(self, kind):
        self.kind = kind
    def __repr__(self):
        return self.kind
    def __eq__(self, o):
        return isinstance(o, FSpec) and o.kind == self.kind
    def __hash__(self):
        return hash(self.kind)

NAN, PINF, NINF = FSpec('nan'), FSpec('+inf'), FSpec('-inf')

class Rec:
    __slots__ = ('t', 'f')
    def __init__(self, t, f):
        self.t, self.f = t, f
    def __repr__(self):
        return 'Rec(%s,%s)' % (self.t.name, self.f)
    def set(self, n, v):
        d = dict(self.f)
        d[n] = v
        return Rec(self.t, d)
    def __getattr__(self, n):
        try:
            return self.f[n]
        except KeyError:
            raise AttributeError(n)

class Opt:
    __slots__ = ('t', 'has', 'val')
    def __init__(self, t, has, val):
        self.t, self.has, self.val = t, has, val

class Var:
    __slots__ = ('t', 'which', 'alts')
    def __init__(self, t, which, alts):
        self.t, self.which, self.alts = t, which, alts

class Seq:
    __slots__ = ('t', 'lo', 'n', 'data')
    def __init__(self, t, lo, n, data):
        self.t, self.lo, self.n, self.data = t, lo, n, list(data)
    def __repr__(self):
        return 'Seq(%s,%s)' % (self.n, self.data)

class MapV:
    __slots__ = ('t', 'card', 'dom', 'val')
    def __init__(self, t, card, dom, val):
        self.t, self.card, self.dom, self.val = t, card, dom, list(val)

class LRef:
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)
    def __repr__(self):
        return 'L(%s,%s)' % (self.root, self.path)
    def add(self, p):
        return LRef(self.root, self.path + (p,))

class Ptr:
    __slots__ = ('to', 'null', 'addr', 'ty')
    def __init__(self, to, null=None, addr=None, ty=None):
        self.to, self.addr, self.ty = to, addr, ty
        self.null = null if null is not None else z3.BoolVal(to is None)
        if addr is not None:
            self.null = addr == 0
    def __repr__(self):
        return 'Ptr(%s)' % (self.to,)

class It:
    """iterator into a sequence held at lv; rev: reverse iterator"""
    __slots__ = ('lv', 'idx', 'rev')
    def __init__(self, lv, idx, rev=False):
        self.lv, self.idx, self.rev = lv, idx, rev
    def __repr__(self):
        return 'It(%s,%s)' % (self.lv, self.idx)

class MIt:
    """iterator into a map/set: kind 'pos' (enumeration position), 'key' (find result) or 'end'"""
    __slots__ = ('lv', 'kind', 'pos', 'key', 'isend')
    def __init__(self, lv, kind, pos=None, key=None, isend=None):
        self.lv, self.kind, self.pos, self.key, self.isend = lv, kind, pos, key, isend

class Ins:
    """back_inserter / inserter"""
    __slots__ = ('lv',)
    def __init__(self, lv):
        self.lv = lv

class Clo:
    __slots__ = ('node', 'env', 'this', 'tu', 'frame')
    def __init__(self, node, env, this, tu, frame):
        self.node, self.env, self.this, self.tu, self.frame = node, env, this, tu, frame

class FnRef:
    __slots__ = ('node', 'tu')
    def __init__(self, node, tu):
        self.node, self.tu = node, tu

class Opaque:
    __slots__ = ('t',)
    def __init__(self, t):
        self.t = t

class StrLit:
    pass

# leaves of an arbitrary python value (for loop havoc / comparison)
def vleaves(v, path=()):
    if z3.is_expr(v):
        yield path, v
    elif isinstance(v, Rec):
        for n, x in v.f.items():
            yield from vleaves(x, path + (n,))
    elif isinstance(v, Opt):
        yield path + ('?',), v.has
        yield from vleaves(v.val, path + ('*',))
    elif isinstance(v, Var):
        yield path + ('w',), v.which
        for i, a in enumerate(v.alts):
            yield from vleaves(a, path + ('v%d' % i,))
    elif isinstance(v, Seq):
        yield path + ('lo',), v.lo
        yield path + ('n',), v.n
        for i, a in enumerate(v.data):
            yield path + ('d%d' % i,), a
    elif isinstance(v, MapV):
        yield path + ('card',), v.card
        yield path + ('dom',), v.dom
        for i, a in enumerate(v.val):
            yield path + ('m%d' % i,), a
    elif isinstance(v, It):
        yield path + ('idx',), v.idx
    elif isinstance(v, MIt) and v.kind == 'pos':
        yield path + ('pos',), v.pos
    elif isinstance(v, Ptr):
        if v.addr is not None:
            yield path + ('addr',), v.addr
        else:
            yield path + ('null',), v.null
    elif isinstance(v, FSpec):
        yield path, v

def vrebuild(v, sub, path=()):
    """copy of v with the leaves listed in sub {path: term} replaced"""
    if z3.is_expr(v) or isinstance(v, FSpec):
        return sub.get(path, v)
    if isinstance(v, Rec):
        return Rec(v.t, {n: vrebuild(x, sub, path + (n,)) for n, x in v.f.items()})
    if isinstance(v, Opt):
        return Opt(v.t, sub.get(path + ('?',), v.has), vrebuild(v.val, sub, path + ('*',)))
    if isinstance(v, Var):
        return Var(v.t, sub.get(path + ('w',), v.which),
                   [vrebuild(a, sub, path + ('v%d' % i,)) for i, a in enumerate(v.alts)])
    if isinstance(v, Seq):
        return Seq(v.t, sub.get(path + ('lo',), v.lo), sub.get(path + ('n',), v.n),
                   [sub.get(path + ('d%d' % i,), a) for i, a in enumerate(v.data)])
    if isinstance(v, MapV):
        return MapV(v.t, sub.get(path + ('card',), v.card), sub.get(path + ('dom',), v.dom),
                    [sub.get(path + ('m%d' % i,), a) for i, a in enumerate(v.val)])
    if isinstance(v, It):
        return It(v.lv, sub.get(path + ('idx',), v.idx), v.rev)
    if isinstance(v, MIt) and v.kind == 'pos':
        return MIt(v.lv, 'pos', pos=sub.get(path + ('pos',), v.pos))
    if isinstance(v, Ptr):
        if v.addr is not None:
            return Ptr(None, addr=sub.get(path + ('addr',), v.addr), ty=v.ty)
        return Ptr(v.to, null=sub.get(path + ('null',), v.null), ty=v.ty)
    return v

def same(a, b):
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return a == b
