import re
"""Mechanical extraction of /repo's C++ into typed ASTs.

Every run calls clang-18 (-ast-dump=json) on the translation units of the current
working tree with the include paths and definitions of the build, and indexes the
functions, records and constants found in namespace `navigine`.  Nothing is written by
hand: a function under contract is the clang AST of the text in /repo.
The TUs of standalone_algorithms/trilateteration live in the global namespace; they are
wrapped as  `namespace navigine { #include "x.cpp" }`  after their standard headers.
What is dropped: comments, attributes, uninstantiated templates, types' layout,
destructors (all implicit in this code base), and access control.
"""
import hashlib, json, os, re, subprocess, sys, tempfile, concurrent.futures as cf

REPO = os.environ.get('VERIF_REPO', '/repo')

CORE_INC = ['-include', 'list', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I/usr/include/eigen3']

def tu_flags(path):
    if '/standalone_algorithms/' in path:
        d = os.path.dirname(os.path.dirname(path))
        return ['-I' + d + '/include', '-I' + d + '/src']
    return CORE_INC

class ExtractError(Exception):
    pass

def dump_tu(rel, tmp):
    path = os.path.join(REPO, rel)
    if not os.path.exists(path):
        raise ExtractError('missing source file ' + rel)
    src = path
    extra = []
    if 'trilateteration' in rel:
        # global-namespace code: wrap mechanically (see module docstring)
        incs = []
        d = os.path.dirname(path)
        for f in sorted(os.listdir(d)):
            if f.endswith(('.h', '.cpp')):
                for l in open(os.path.join(d, f), errors='replace'):
                    m = re.match(r'\s*#\s*include\s*<([^>]+)>', l)
                    if m and m.group(1) not in incs:
                        incs.append(m.group(1))
        src = os.path.join(tmp, 'wrap_' + os.path.basename(path))
        with open(src, 'w') as f:
            for i in incs:
                f.write('#include <%s>\n' % i)
            f.write('namespace navigine {\n#include "%s"\n}\n' % path)
        extra = ['-I' + d]
    if rel.startswith('@'):
        src = rel[1:]
    out = os.path.join(tmp, rel.replace('/', '__') + '.json')
    cmd = ['clang++-18', '-std=c++17', '-DBUILD_FOR_LINUX', '-D_DEBUG', '-w', '-fsyntax-only'] + extra + tu_flags(path) + \
          ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=navigine', src]
    with open(out, 'w') as f:
        p = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise ExtractError('clang rejects %s:\n%s' % (rel, p.stderr[-2000:]))
    return out

def _docs(p):
    s = open(p).read()
    d = json.JSONDecoder()
    i, n = 0, len(s)
    while True:
        while i < n and s[i] in ' \n\r\t':
            i += 1
        if i >= n:
            return
        o, i = d.raw_decode(s, i)
        yield o

class Func:
    __slots__ = ('tu', 'node', 'qual', 'mangled', 'params', 'body', 'record', 'kind', 'const', 'static',
                 'virtual', 'rettype', 'inits', 'line', 'file', 'sig')
    def __repr__(self):
        return '<Func %s>' % self.qual

class Record:
    __slots__ = ('tu', 'name', 'fields', 'bases', 'methods', 'node', 'ctors')
    def __repr__(self):
        return '<Record %s>' % self.name

class TU:
    def __init__(self, rel):
        self.rel = rel
        self.decl = {}      # id -> node
        self.owner = {}     # id -> qualified owner
        self.qual = {}      # id -> qualified name

class Program:
    def __init__(self):
        self.tus = {}
        self.defs = {}        # mangled -> Func with body
        self.byqual = {}      # qualified name -> [Func]
        self.declq = {}       # qualified name -> [Func without a body]
        self.records = {}     # qualified name -> Record
        self.enums = {}       # qualified name -> {const: value}
        self.enumconst = {}
        self.aliases = {}   # (tu,id) -> value
        self.overrides = {}   # base record -> [derived]
        self.lastpos = {}

    # ---------------------------------------------------------------- loading
    def load(self, rels, jobs=8):
        rels = [r for r in rels if r not in self.tus]
        if not rels:
            return
        with tempfile.TemporaryDirectory(prefix='cvast') as tmp:
            with cf.ThreadPoolExecutor(jobs) as ex:
                outs = list(ex.map(lambda r: dump_tu(r, tmp), rels))
            for r, o in zip(rels, outs):
                self._index(r, o)
                os.unlink(o)

    def _index(self, rel, path):
        tu = TU(rel)
        self.tus[rel] = tu
        self._file = rel
        self._line = 0
        for d in _docs(path):
            # only outermost namespace blocks are listed; nested matches repeat nodes
            if d.get('id') in tu.decl:
                continue
            self._walk(tu, d, d.get('_scope', ''), None)
        # parent links for out-of-line definitions (parentDeclContextId)
        for did, (node, scope, rec) in list(tu.owner.items()):
            pass

    def _pos(self, n):
        loc = n.get('loc') or {}
        for l in (loc, loc.get('expansionLoc') or {}, loc.get('spellingLoc') or {}):
            if 'file' in l:
                self._file = l['file']
            if 'line' in l:
                self._line = l['line']
        r = (n.get('range') or {}).get('begin') or {}
        for l in (r, r.get('expansionLoc') or {}):
            if 'file' in l:
                self._file = l['file']
            if 'line' in l:
                self._line = l['line']

    def _register(self, tu, n, scope):
        if 'id' in n:
            tu.decl[n['id']] = n

    def _tmpl_args(self, n):
        a = []
        for c in n.get('inner', []):
            if c.get('kind') == 'TemplateArgument':
                t = c.get('type', {})
                a.append(t.get('desugaredQualType', t.get('qualType', str(c.get('value', '?')))))
        return a

    def _walk(self, tu, n, scope, rec):
        k = n.get('kind')
        if k is None:
            return
        self._pos(n)
        if k == 'NamespaceDecl':
            tu.decl[n['id']] = n
            nm = n.get('name', '(anonymous)')
            s = (scope + '::' + nm) if scope else nm
            tu.qual[n['id']] = s
            for c in n.get('inner', []):
                self._walk(tu, c, s, None)
        elif k == 'LinkageSpecDecl':
            for c in n.get('inner', []):
                self._walk(tu, c, scope, rec)
        elif k == 'ClassTemplateDecl':
            tu.decl[n['id']] = n
            tu.qual[n['id']] = scope + '::' + n.get('name', '')
            for c in n.get('inner', []):
                if c.get('kind') == 'ClassTemplateSpecializationDecl':
                    self._walk(tu, c, scope, rec)
                elif 'id' in c:
                    tu.decl[c['id']] = c
                    tu.qual[c['id']] = scope + '::' + n.get('name', '')
        elif k == 'FunctionTemplateDecl':
            fs = [c for c in n.get('inner', []) if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl')]
            tu.decl[n['id']] = n
            for i, c in enumerate(fs):
                if any(x.get('kind') == 'TemplateArgument' for x in c.get('inner', [])):
                    self._walk(tu, c, scope, rec)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            nm = n.get('name', '(anon)')
            if k == 'ClassTemplateSpecializationDecl':
                nm += '<' + ', '.join(self._tmpl_args(n)) + '>'
            q = scope + '::' + nm if scope else nm
            tu.decl[n['id']] = n
            tu.qual[n['id']] = q
            if n.get('completeDefinition'):
                r = Record()
                r.tu, r.name, r.node = tu, q, n
                r.fields, r.methods, r.ctors = [], {}, []
                r.bases = [b['type'].get('desugaredQualType', b['type']['qualType']) for b in n.get('bases', [])]
                for c in n.get('inner', []):
                    if c.get('kind') == 'FieldDecl':
                        self._pos(c)
                        tu.decl[c['id']] = c
                        tu.qual[c['id']] = q + '::' + c.get('name', '')
                        r.fields.append(c)
                    else:
                        self._walk(tu, c, q, r)
                if q not in self.records or True:
                    self.records[q] = r
            else:
                for c in n.get('inner', []):
                    if c.get('kind') != 'CXXRecordDecl' or not c.get('isImplicit'):
                        self._walk(tu, c, q, None)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl'):
            self._func(tu, n, scope, rec)
        elif k == 'EnumDecl':
            q = scope + '::' + n['name'] if n.get('name') else scope
            tu.decl[n['id']] = n
            tu.qual[n['id']] = q
            d = {}
            v = -1
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    v += 1
                    for x in c.get('inner', []):
                        vv = self._constval(x)
                        if vv is not None:
                            v = vv
                    d[c['name']] = v
                    tu.decl[c['id']] = c
                    self.enumconst[(tu.rel, c['id'])] = v
            self.enums[q] = d
        elif k == 'VarDecl':
            tu.decl[n['id']] = n
            tu.qual[n['id']] = scope + '::' + n.get('name', '')
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            tu.decl[n['id']] = n
            tu.qual[n['id']] = scope + '::' + n.get('name', '')
            ty = n.get('type', {})
            u = ty.get('desugaredQualType', ty.get('qualType', ''))
            self.aliases.setdefault(n.get('name', ''), {})[tu.qual[n['id']]] = u

    def _constval(self, x):
        if x.get('kind') == 'ConstantExpr' and 'value' in x:
            return int(x['value'])
        if x.get('kind') == 'IntegerLiteral':
            return int(x['value'])
        if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '-':
            v = self._constval(x['inner'][0])
            return None if v is None else -v
        for c in x.get('inner', []):
            v = self._constval(c)
            if v is not None:
                return v
        return None

    def _func(self, tu, n, scope, rec):
        tu.decl[n['id']] = n
        pc = n.get('parentDeclContextId')
        if pc and pc in tu.qual:
            scope = tu.qual[pc]
        f = Func()
        f.tu, f.node = tu, n
        f.qual = scope + '::' + n.get('name', '')
        tu.qual[n['id']] = f.qual
        f.mangled = n.get('mangledName')
        f.params = [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        for p in f.params:
            tu.decl[p['id']] = p
        body = [c for c in n.get('inner', []) if c.get('kind') in ('CompoundStmt',)]
        f.body = body[0] if body else None
        f.inits = [c for c in n.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        f.record = scope
        f.kind = n['kind']
        ty = n['type']['qualType']
        f.sig = ty
        f.const = ty.rstrip().endswith('const')
        f.static = n.get('storageClass') == 'static'
        f.virtual = bool(n.get('virtual'))
        f.rettype = ty.split('(')[0].strip()
        f.line, f.file = self._line, self._file
        key = f.mangled or (f.qual + ty)
        if f.body is not None or (f.kind == 'CXXConstructorDecl' and f.inits):
            old = self.defs.get(key)
            if old is None or old.body is None:
                self.defs[key] = f
                self.byqual.setdefault(f.qual, [])
                if not any(g.mangled == f.mangled for g in self.byqual[f.qual]):
                    self.byqual[f.qual].append(f)
        elif not any(g.mangled == f.mangled for g in self.declq.setdefault(f.qual, [])):
            self.declq[f.qual].append(f)
        if f.body is not None:
            self._local_records(tu, f.body, f.qual)
        if rec is not None:
            rec.methods.setdefault(n.get('name', ''), []).append(f)
            if f.kind == 'CXXConstructorDecl':
                rec.ctors.append(f)

    def _local_records(self, tu, n, scope):
        todo = [n]
        while todo:
            x = todo.pop()
            if x.get('kind') == 'DeclStmt':
                for c in x.get('inner', []):
                    if c.get('kind') == 'CXXRecordDecl' and c.get('name'):
                        pos = (self._line, self._file)
                        self._walk(tu, c, scope, None)
                        self._line, self._file = pos
            todo += [c for c in x.get('inner', []) if isinstance(c, dict)]

    # ---------------------------------------------------------------- lookup
    def func(self, qual, nparams=None, pred=None, decl=False):
        c = [f for q, fs in (self.declq if decl else self.byqual).items() if q == qual or q.endswith('::' + qual) for f in fs]
        c = [f for f in c if f.kind != 'CXXConstructorDecl' or qual.split('::')[-1] == f.qual.split('::')[-1]]
        if nparams is not None:
            c = [f for f in c if len(f.params) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        if not c:
            raise ExtractError('function not found in the current source: ' + qual)
        return c[0]

    def rec_name(self, s):
        """resolve a type string to a record's qualified name"""
        s = s.strip()
        if s in self.records:
            return s
        c = [q for q in self.records if q.endswith('::' + s)]
        if len(c) >= 1:
            return sorted(c, key=len)[0]
        if '<' in s:        # template arguments written without their scope
            def fix(m):
                q = self.rec_name(m.group(1))
                return '<' + (q or m.group(1)) + '>'
            t = re.sub(r'<([\w:]+)>', fix, s)
            if t != s:
                return self.rec_name(t)
        return None

if __name__ == '__main__':
    import time
    t = time.time()
    P = Program()
    P.load(sys.argv[1:])
    print(time.time() - t, len(P.defs), len(P.records))
    for q in sorted(P.byqual):
        print(q, [len(f.params) for f in P.byqual[q]])
    for r in sorted(P.records):
        print(r, [(f.get('name'), f['type'].get('desugaredQualType', f['type']['qualType'])) for f in P.records[r].fields])
    print(P.enums)
