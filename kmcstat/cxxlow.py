"""Lower clang's json syntax tree to the intermediate representation of ir.py."""
import re
from ir import N, Fn, Param, Cls, walk

WRAP = ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
        'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'FullExpr')
INTT = re.compile(r'^(unsigned |signed )?(int|long|long long|short|char|size_t|unsigned|unsigned int|'
                  r'unsigned long|std::size_t|ratekey|difference_type|size_type|ptrdiff_t|unsigned char|'
                  r'unsigned long long|long int|int32_t|int64_t|uint64_t|uint32_t)$')


def param_types(sig):
    """parameter types of a function type"""
    sig = re.sub(r'\s*noexcept.*$', '', sig)
    out, depth, cur = [], 0, ''
    # the parameter list is the last balanced group that is not a template argument
    j = sig.rfind(')')
    d = 0
    k = j
    while k >= 0:
        if sig[k] == ')':
            d += 1
        elif sig[k] == '(':
            d -= 1
            if d == 0:
                break
        k -= 1
    for ch in sig[k + 1:j]:
        if ch in '<([':
            depth += 1
        elif ch in '>)]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_cv(t):
    t = t.strip()
    while True:
        u = re.sub(r'^(const|volatile|typename|class|struct)\s+', '', t)
        u = re.sub(r'\s*(const|volatile)$', '', u)
        if u == t:
            return t
        t = u


def tkind(t):
    """coarse kind of a (desugared) C++ type"""
    t = strip_cv(t)
    isref = t.endswith('&')
    t = strip_cv(t.rstrip('&').strip())
    if t.endswith('*') or t.endswith('*const'):
        return 'ptr'
    if t == 'bool' or t.startswith('std::_Bit_reference'):
        return 'bool'
    if INTT.match(t):
        return 'int'
    if t in ('double', 'float', 'long double'):
        return 'float'
    if '__normal_iterator' in t or t.endswith('iterator') or '_Rb_tree' in t and 'iterator' in t \
            or '_Node_' in t and 'iterator' in t:
        return 'iter'
    if re.match(r'^(std::)?(__cxx11::)?basic_string<', t) or t in ('std::string', 'string'):
        return 'string'
    if re.match(r'^(std::)?vector<', t) or t.startswith('std::initializer_list') or t.startswith('std::array<'):
        return 'vec'
    if re.match(r'^(std::)?(unordered_)?map<', t):
        return 'map'
    if re.match(r'^(std::)?(unordered_)?set<', t):
        return 'set'
    if re.match(r'^(std::)?pair<', t):
        return 'pair'
    if re.search(r'ostream|ofstream|stringstream', t):
        return 'stream'
    if re.match(r'^[A-Za-z_]\w*(::\w+)*$', t):
        return 'class'
    if re.search(r'\[\d*\]$', t):
        return 'array'
    return 'other'


def targ(t):
    """first template argument of vector<...>"""
    t = strip_cv(t).rstrip('&').strip()
    i = t.find('<')
    if i < 0:
        return ''
    depth = 0
    for j in range(i, len(t)):
        if t[j] == '<':
            depth += 1
        elif t[j] == '>':
            depth -= 1
            if depth == 0:
                return t[i + 1:j].strip()
        elif t[j] == ',' and depth == 1:
            return t[i + 1:j].strip()
    return ''


def targs(t):
    t = strip_cv(t).rstrip('&').strip()
    i = t.find('<')
    out = []
    depth = 0
    cur = ''
    for ch in t[i:]:
        if ch == '<':
            depth += 1
            if depth == 1:
                continue
        elif ch == '>':
            depth -= 1
            if depth == 0:
                break
        if ch == ',' and depth == 1:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Program(object):
    def __init__(self):
        self.fns = {}        # key -> Fn (with body when there is one)
        self.byname = {}     # qname -> [Fn]
        self.classes = {}
        self.typedefs = {}
        self.globals = {}    # name -> (declaration, unit, file)
        self.ambiguous = set()
        self._const = None
        self._names = None
        self.unknown = {}    # kinds not understood
        self.files = []

    def lookup(self, qname, nparams=None):
        c = [f for f in self.byname.get(qname, []) if f.body is not None]
        if nparams is not None:
            c = [f for f in c if len(f.params) == nparams]
        return c


    def names(self):
        """names the bodies refer to: globals (name -> type), enum constants, external
        functions (name -> (parameter types, result type))"""
        if self._names is None:
            r = {'globals': {}, 'enums': set(), 'ext': {}}

            def see(n):
                if n.k == 'glob':
                    r['globals'][n.name] = n.get('ty') or ''
                elif n.k == 'const' and isinstance(n.v, str) and n.v.startswith('enum:'):
                    r['enums'].add(n.v[5:])
                elif n.k == 'bcall' and n.get('pt') is not None:
                    r['ext'][n.fn] = (n.pt, n.get('ty') or '')
            for f in self.fns.values():
                if f.body:
                    b = self.lower.body(f)
                    if b is not None:
                        walk(b, see)
            self._names = r
        return self._names

    def const_globals(self):
        """scalar globals that nothing in the program writes: name -> initialiser (IR)"""
        if self._const is not None:
            return self._const
        written = set()

        def root(e):
            while isinstance(e, N):
                if e.k == 'glob':
                    written.add(e.name)
                    return
                nx = e.get('o') if e.k in ('field', 'index') else e.get('e') if e.k in ('load', 'copy', 'cast') else None
                if e.k == 'cond':
                    root(e.a)
                    root(e.b)
                    return
                e = nx

        def see(n):
            if n.k in ('assign', 'opassign'):
                root(n.l)
            elif n.k in ('incdec', 'addr', 'decay'):
                root(n.e)
            elif n.k in ('call', 'bcall', 'mcall', 'new', 'dyncall', 'bctor', 'bnew', 'unknown'):
                for a in n.get('args') or []:
                    if a is not None:
                        root(a)
                for w in ('recv', 'o'):
                    if isinstance(n.get(w), N):
                        root(n.get(w))
            elif n.k == 'decl' and n.get('ref') and n.get('init') is not None:
                root(n.init)
        for f in self.fns.values():
            if f.body:
                b = self.lower.body(f)
                walk(b, see)
                for _, e, _ in f.inits:
                    if e is not None:
                        walk(e, see)
        out = {}
        for name, (d, tu, f) in self.globals.items():
            ty = d['type']['qualType']
            if name in self.ambiguous or (name in written and not ty.startswith('const ')):
                continue
            if tkind(ty) not in ('int', 'float', 'bool'):
                continue
            e = [x for x in d.get('inner', []) if x.get('kind') and not x['kind'].endswith('Attr')]
            if not e:
                continue
            self.lower.tu = tu
            self.lower.line = 0
            out[name] = self.lower.ex(e[0])
        self._const = out
        return out


class Lower(object):
    def __init__(self, decls):
        self.p = Program()
        self.decls = decls
        self.idx = {}           # (tu,id) -> decl
        self.owner = {}         # (tu,id) of method -> class name
        self.fnkey = {}
        self.line = None

    # ------------------------------------------------------------ indexing
    def run(self):
        for f, d, tu in self.decls:
            self._index(d, tu, None, f)
        for f, d, tu in self.decls:
            self._collect(d, tu, None, f)
        p = self.p
        for k, fn in p.fns.items():
            p.byname.setdefault(fn.qname, []).append(fn)
        return p

    def _index(self, d, tu, cls, f):
        if not isinstance(d, dict):
            return
        if 'id' in d and d.get('kind', '').endswith('Decl'):
            self.idx[(tu, d['id'])] = d
            if cls:
                self.owner[(tu, d['id'])] = cls
        c = d['name'] if d.get('kind') == 'CXXRecordDecl' and d.get('name') else cls
        for x in d.get('inner', []):
            self._index(x, tu, c if d.get('kind') in ('CXXRecordDecl', 'FunctionTemplateDecl') else None, f)

    def _clsof(self, d, tu):
        k = (tu, d['id'])
        if k in self.owner:
            return self.owner[k]
        pd = d.get('previousDecl')
        if pd and (tu, pd) in self.owner:
            return self.owner[(tu, pd)]
        pc = d.get('parentDeclContextId')
        if pc and (tu, pc) in self.idx and self.idx[(tu, pc)].get('kind') == 'CXXRecordDecl':
            return self.idx[(tu, pc)].get('name')
        return None

    def _fkey(self, d, tu):
        """global key of a function declaration"""
        if d['kind'] in ('CXXConstructorDecl', 'CXXDestructorDecl', 'CXXMethodDecl'):
            return (self._clsof(d, tu), d['name'], d['type']['qualType'])
        if d.get('storageClass') == 'static':
            return (None, d['name'], d['type']['qualType'], d.get('_file', ''))
        return (None, d['name'], d['type']['qualType'])

    def _collect(self, d, tu, cls, f):
        k = d.get('kind')
        ln = d.get('loc', {}).get('line') or d.get('range', {}).get('begin', {}).get('line')
        if ln:
            self.line = ln
        if k == 'CXXRecordDecl' and d.get('name') and d.get('completeDefinition'):
            self._class(d, tu, f)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
            self._function(d, tu, cls, f)
        elif k == 'FunctionTemplateDecl':
            insts = [x for x in d.get('inner', []) if x.get('kind') in ('FunctionDecl', 'CXXMethodDecl')]
            for x in insts[1:]:
                self._function(x, tu, cls, f, template=True)
        elif k in ('NamespaceDecl', 'LinkageSpecDecl'):
            for x in d.get('inner', []):
                self._collect(x, tu, None, f)
        elif k == 'VarDecl':
            old = self.p.globals.get(d['name'])
            if old is not None and (old[2] != f or old[1] != tu) and any(x.get('kind') for x in old[0].get('inner', [])):
                self.p.ambiguous.add(d['name'])
            else:
                self.p.globals[d['name']] = (d, tu, f)
            d['_global'] = True
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            self.p.typedefs[d['name']] = d['type'].get('desugaredQualType', d['type']['qualType'])

    def _class(self, d, tu, f):
        c = self.p.classes.get(d['name'])
        if c is None:
            c = Cls(d['name'], f, self.line)
            self.p.classes[d['name']] = c
            new = True
        else:
            new = False
        if new:
            for b in d.get('bases', []):
                c.bases.append(strip_cv(b['type'].get('desugaredQualType', b['type']['qualType'])))
        acc = 'private' if d.get('tagUsed') == 'class' else 'public'
        for x in d.get('inner', []):
            ln = x.get('loc', {}).get('line') or x.get('range', {}).get('begin', {}).get('line')
            if ln:
                self.line = ln
            xk = x.get('kind')
            if xk == 'AccessSpecDecl':
                acc = x['access']
            elif xk == 'FieldDecl' and new:
                c.fields.append((x['name'], self.ty(x), False))
                if x.get('hasInClassInitializer'):
                    c.given.add(x['name'])
            elif xk == 'VarDecl':
                x['_static_member'] = d['name']
                if new:
                    c.fields.append((x['name'], self.ty(x), True))
            elif xk in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
                if xk == 'CXXConstructorDecl' and not x.get('isImplicit') and not x.get('explicitlyDefaulted'):
                    if re.match(r'^void \(const %s &\)' % re.escape(d['name']), x['type']['qualType']):
                        c.usercopy = True
                fn = self._function(x, tu, d['name'], f, access=acc)
                if fn and new:
                    c.methods.append(fn)
            elif xk == 'FunctionTemplateDecl':
                self._collect(x, tu, d['name'], f)
            elif xk == 'CXXRecordDecl' and x.get('completeDefinition') and x.get('name') and not x.get('isImplicit'):
                self._class(x, tu, f)

    def ty(self, d):
        t = d.get('type', {})
        return self.tystr(t)

    def tystr(self, t):
        q = t.get('desugaredQualType', t.get('qualType', ''))
        return q

    def _function(self, d, tu, cls, f, access=None, template=False):
        if d['kind'] == 'FunctionDecl' and d.get('storageClass') == 'static':
            d['_file'] = f
        cls = cls or self._clsof(d, tu)
        key = (cls, d['name'], d['type']['qualType'])
        inner = d.get('inner', [])
        body = next((x for x in inner if x.get('kind') == 'CompoundStmt'), None)
        fn = self.p.fns.get(key)
        prm = [x for x in inner if x.get('kind') == 'ParmVarDecl']
        quals = d['type']['qualType']
        if fn is None:
            fn = Fn(d['name'], cls, [], None, f, self.line, 'c++',
                    virtual=d.get('virtual', False), const=bool(re.search(r'\)\s*const', quals)),
                    static=d.get('storageClass') == 'static' and cls is not None,
                    isctor=d['kind'] == 'CXXConstructorDecl', sig=quals, key=key,
                    implicit=d.get('isImplicit', False))
            fn.ret = quals.split('(')[0].strip()
            self.p.fns[key] = fn
            fn.params = [Param((tu, x['id']), x.get('name'), self.ty(x), None) for x in prm]
            fn.access = access
            fn.tu = tu
        else:
            if d.get('virtual'):
                fn.virtual = True
        if access:
            fn.access = access
        for i, x in enumerate(prm):
            di = [y for y in x.get('inner', []) if y.get('kind') and not y['kind'].endswith('Comment')]
            if x.get('init') and di:
                fn.params[i].default = (di[-1], tu)
        if body is not None and fn.body is None:
            fn.params = [Param((tu, x['id']), x.get('name'), self.ty(x), fn.params[i].default if i < len(fn.params)
                               else None) for i, x in enumerate(prm)]
            for q in fn.params:
                q.ref = q.type.rstrip().endswith('&')
            fn.file = f
            fn.line = d.get('loc', {}).get('line', self.line) or self.line
            fn.raw = (d, tu)
            fn.tu = tu
            fn.body = True       # lowered lazily
        return fn

    # ------------------------------------------------------------ lazily lower bodies
    def body(self, fn):
        if getattr(fn, 'lowered', None) is not None:
            return fn.lowered
        d, tu = fn.raw
        self.tu = tu
        self.line = fn.line
        inits = []
        for x in d.get('inner', []):
            if x.get('kind') == 'CXXCtorInitializer':
                e = [y for y in x.get('inner', []) if y.get('kind')]
                if 'anyInit' in x:
                    inits.append((x['anyInit'].get('name'), self.ex(e[0]) if e else None,
                                  self.tystr(x['anyInit'].get('type', {}))))
                elif 'baseInit' in x or (e and e[0]['kind'] == 'CXXConstructExpr'):
                    inits.append((None, self.ex(e[0]), None))
        fn.inits = inits
        b = next(x for x in d['inner'] if x.get('kind') == 'CompoundStmt')
        fn.lowered = self.st(b)
        return fn.lowered

    def default(self, p):
        if p.default is None:
            return None
        e, tu = p.default
        self.tu = tu
        return self.ex(e)

    # ------------------------------------------------------------ statements
    def L(self, n):
        b = n.get('range', {}).get('begin', {})
        ln = b.get('line') or b.get('expansionLoc', {}).get('line')
        if ln:
            self.line = ln
        return self.line

    def st(self, n):
        k = n.get('kind')
        if k is None:
            return N('block', body=[])
        ln = self.L(n)
        inner = n.get('inner', [])
        if k == 'CompoundStmt':
            return N('block', ln, body=[self.st(x) for x in inner])
        if k == 'DeclStmt':
            return N('block', ln, body=[y for y in (self.decl(x) for x in inner) if y is not None], noscope=True)
        if k == 'IfStmt':
            parts = list(inner)
            pre = []
            if n.get('hasInit') or n.get('hasVar'):
                pre.append(self.st(parts.pop(0)))
            c = self.ex(parts[0])
            t = self.st(parts[1])
            e = self.st(parts[2]) if len(parts) > 2 else None
            r = N('if', ln, c=c, t=t, e=e)
            return N('block', ln, body=pre + [r]) if pre else r
        if k == 'ForStmt':
            init, var, cond, inc, body = (inner + [{}] * 5)[:5]
            ini = self.st(init) if init.get('kind') else None
            c = self.ex(cond) if cond.get('kind') else N('const', v=True)
            w = N('while', ln, c=c, body=self.st(body), step=self.ex(inc) if inc.get('kind') else None)
            return N('block', ln, body=([ini] if ini else []) + [w])
        if k == 'WhileStmt':
            return N('while', ln, c=self.ex(inner[-2]), body=self.st(inner[-1]), step=None)
        if k == 'DoStmt':
            return N('dowhile', ln, c=self.ex(inner[1]), body=self.st(inner[0]))
        if k == 'CXXForRangeStmt':
            real = [x for x in inner if x.get('kind')]
            decls = [x for x in real if x['kind'] == 'DeclStmt']
            rng = decls[0]['inner'][0]
            var = decls[-1]['inner'][0]
            e = [x for x in rng.get('inner', []) if x.get('kind')][-1]
            return N('foreach', ln, var=(self.tu, var['id']), name=var.get('name'),
                     ref=self.ty(var).rstrip().endswith('&'), it=self.ex(e), body=self.st(real[-1]),
                     ty=self.ty(var))
        if k == 'ReturnStmt':
            return N('return', ln, e=self.ex(inner[0]) if inner else None)
        if k == 'BreakStmt':
            return N('break', ln)
        if k == 'ContinueStmt':
            return N('continue', ln)
        if k == 'NullStmt':
            return N('block', ln, body=[])
        if k == 'SwitchStmt':
            return self.switch(n)
        if k == 'CXXTryStmt':
            return N('try', ln, body=self.st(inner[0]), handlers=[(None, None, self.st(x['inner'][-1]))
                                                                  for x in inner[1:]], fin=None, els=None)
        if k == 'AttributedStmt':
            return self.st(inner[-1])
        return N('expr', ln, e=self.ex(n))

    def switch(self, n):
        inner = n['inner']
        cond = self.ex(inner[-2])
        groups = []         # list of [labels, stmts]

        def flat(x):
            k = x.get('kind')
            if k == 'CaseStmt':
                lab = self.ex(x['inner'][0])
                groups.append([[lab], []])
                flat_sub(x['inner'][-1])
            elif k == 'DefaultStmt':
                groups.append([[None], []])
                flat_sub(x['inner'][-1])
            elif groups:
                groups[-1][1].append(self.st(x))

        def flat_sub(x):
            flat(x)
        body = inner[-1]
        for x in (body.get('inner', []) if body['kind'] == 'CompoundStmt' else [body]):
            flat(x)
        return N('switch', self.L(n), c=cond, groups=groups)

    def decl(self, d):
        k = d.get('kind')
        if k != 'VarDecl':
            return None
        inner = [x for x in d.get('inner', []) if x.get('kind') and not x['kind'].endswith('Comment')
                 and not x['kind'].endswith('Attr')]
        t = self.ty(d)
        static = d.get('storageClass') == 'static'
        return N('decl', self.L(d), id=(self.tu, d['id']), name=d.get('name'), ty=t,
                 init=self.ex(inner[-1]) if inner else None,
                 ref=t.rstrip().endswith('&'), static=static)

    # ------------------------------------------------------------ expressions
    def ex(self, n):
        k = n.get('kind')
        f = getattr(self, 'x_' + k, None) if k else None
        ln = self.L(n)
        if f is None:
            self.p.unknown[k] = self.p.unknown.get(k, 0) + 1
            return N('unknown', ln, what=k, args=[self.ex(x) for x in n.get('inner', [])
                                                  if x.get('kind', '').endswith(('Expr', 'Operator', 'Literal'))])
        r = f(n)
        if isinstance(r, N) and r.line is None:
            r.line = ln
        return r

    def _w(self, n):
        return self.ex(n['inner'][0])
    x_ParenExpr = x_ExprWithCleanups = x_MaterializeTemporaryExpr = x_CXXBindTemporaryExpr = _w
    x_ConstantExpr = x_SubstNonTypeTemplateParmExpr = x_FullExpr = x_CXXStdInitializerListExpr = _w

    def x_ImplicitCastExpr(self, n):
        return self.cast(n)

    def cast(self, n):
        ck = n.get('castKind')
        e = self.ex(n['inner'][0])
        if ck == 'FloatingToIntegral':
            return N('cast', to='int', e=e)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return N('cast', to='bool', e=e)
        if ck == 'NullToPointer':
            return N('const', v=None)
        if ck == 'IntegralToFloating':
            return N('cast', to='float', e=e)
        if ck == 'LValueToRValue':
            return N('load', e=e)
        if ck == 'ArrayToPointerDecay':
            if e.k == 'const':
                return e
            return N('decay', e=e)
        return e
    x_CStyleCastExpr = x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_CXXConstCastExpr = cast
    x_CXXReinterpretCastExpr = x_CXXDynamicCastExpr = cast

    def x_IntegerLiteral(self, n):
        return N('const', v=int(n['value']))

    def x_FloatingLiteral(self, n):
        return N('const', v=float(n['value']))

    def x_CXXBoolLiteralExpr(self, n):
        return N('const', v=bool(n['value']))

    def x_StringLiteral(self, n):
        import json
        try:
            s = json.loads(n['value'])
        except Exception:
            s = n['value']
        return N('const', v=s)

    def x_CharacterLiteral(self, n):
        return N('const', v=int(n['value']))

    def x_GNUNullExpr(self, n):
        return N('const', v=None)
    x_CXXNullPtrLiteralExpr = x_GNUNullExpr

    def x_ImplicitValueInitExpr(self, n):
        return N('default', ty=self.ty(n))
    x_CXXScalarValueInitExpr = x_ImplicitValueInitExpr

    def x_CXXThisExpr(self, n):
        return N('this')

    def x_CXXThrowExpr(self, n):
        return N('throw', e=self.ex(n['inner'][0]) if n.get('inner') else None)

    def x_CXXDefaultArgExpr(self, n):
        return N('defarg')

    def x_CXXDefaultInitExpr(self, n):
        return N('defarg')

    def x_UnaryExprOrTypeTraitExpr(self, n):
        return N('bcall', fn=n.get('name', 'sizeof'), args=[N('const', v=n.get('argType', {}).get('qualType', '?'))])

    def x_ConditionalOperator(self, n):
        c, a, b = n['inner']
        return N('cond', c=self.ex(c), a=self.ex(a), b=self.ex(b))

    def x_ArraySubscriptExpr(self, n):
        a, b = n['inner']
        return N('index', o=N('deref', e=self.ex(a), arr=True), i=self.ex(b))

    def x_InitListExpr(self, n):
        return N('initlist', ty=self.ty(n), es=[self.ex(x) for x in n.get('inner', []) if x.get('kind')])

    def x_LambdaExpr(self, n):
        inner = n.get('inner', [])
        rec = next((x for x in inner if x.get('kind') == 'CXXRecordDecl'), None)
        params = []
        for x in (rec or {}).get('inner', []):
            if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()':
                params = [Param((self.tu, y['id']), y.get('name'), self.ty(y), None,
                                self.ty(y).rstrip().endswith('&'))
                          for y in x.get('inner', []) if y.get('kind') == 'ParmVarDecl']
        body = next((x for x in inner if x.get('kind') == 'CompoundStmt'), None)
        return N('lambda', params=params, body=self.st(body) if body else N('block', body=[]))

    def x_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        k = rd.get('kind')
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return N('fref', key=self.fnref(rd), name=rd.get('name'))
        if k == 'EnumConstantDecl':
            return N('const', v='enum:' + rd['name'])
        d = self.idx.get((self.tu, rd['id']))
        if d is None:
            return N('glob', name=rd.get('name'), ty=self.ty(n))
        if d.get('_static_member'):
            return N('glob', name=d['_static_member'] + '::' + d['name'], ty=self.ty(n))
        if d.get('_global') or (d.get('previousDecl') and (self.tu, d['previousDecl']) in self.idx
                                and self.idx[(self.tu, d['previousDecl'])].get('_static_member')):
            pd = self.idx.get((self.tu, d.get('previousDecl')))
            if pd is not None and pd.get('_static_member'):
                return N('glob', name=pd['_static_member'] + '::' + d['name'], ty=self.ty(n))
            return N('glob', name=d['name'], ty=self.ty(n))
        return N('var', id=(self.tu, rd['id']), name=rd.get('name'), ty=self.ty(d))

    def fnref(self, rd):
        d = self.idx.get((self.tu, rd['id']))
        if d is None:
            return None
        return (self._clsof(d, self.tu), d['name'], d['type']['qualType'])

    def x_MemberExpr(self, n):
        base = self.ex(n['inner'][0])
        if n.get('isArrow'):
            base = N('deref', e=base)
        d = self.idx.get((self.tu, n.get('referencedMemberDecl')))
        if d is not None and d.get('kind') == 'VarDecl':
            return N('glob', name=self.owner.get((self.tu, d['id']), '?') + '::' + d['name'], ty=self.ty(n))
        cls = self.owner.get((self.tu, n.get('referencedMemberDecl')))
        return N('field', o=base, f=n['name'], cls=cls, ty=self.ty(n))

    def x_UnaryOperator(self, n):
        op = n['opcode']
        e = n['inner'][0]
        if op == '*':
            return N('deref', e=self.ex(e))
        if op == '&':
            return N('addr', e=self.ex(e))
        if op in ('++', '--'):
            return N('incdec', op=op, e=self.ex(e), post=bool(n.get('isPostfix')))
        if op == '!':
            return N('not', e=self.ex(e))
        if op == '-':
            return N('bin', op='-', a=N('const', v=0), b=self.ex(e), int=tkind(self.ty(n)) == 'int')
        if op == '+':
            return self.ex(e)
        return N('unknown', what='unary' + op, args=[self.ex(e)])

    def x_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            return N('assign', l=self.ex(a), r=self.ex(b))
        if op == ',':
            return N('comma', a=self.ex(a), b=self.ex(b))
        if op == '&&':
            return N('and', a=self.ex(a), b=self.ex(b))
        if op == '||':
            return N('or', a=self.ex(a), b=self.ex(b))
        return N('bin', op=op, a=self.ex(a), b=self.ex(b), int=tkind(self.ty(n)) == 'int')

    def x_CompoundAssignOperator(self, n):
        a, b = n['inner']
        isint = tkind(n.get('computeResultType', n['type']).get('qualType', '')) == 'int'
        lk = tkind(self.ty(a))
        return N('opassign', op=n['opcode'][:-1], l=self.ex(a), r=self.ex(b), int=isint,
                 trunc=(lk == 'int' and not isint))

    # --- calls
    def callee(self, n):
        while n['kind'] in WRAP:
            n = n['inner'][0]
        return n

    def x_CallExpr(self, n):
        c = self.callee(n['inner'][0])
        args = n['inner'][1:]
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl'].get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
            key = self.fnref(c['referencedDecl'])
            if key is not None:
                return N('call', key=key, args=[self.ex(a) for a in args], recv=None)
            return N('bcall', fn=c['referencedDecl']['name'], args=[self.ex(a) for a in args], ty=self.ty(n),
                     pt=param_types(c['referencedDecl'].get('type', {}).get('qualType', '')), targs=c.get('targs'),
                     int=tkind(self.ty(n)) == 'int', atys=[self.ty(a) for a in args])
        if c['kind'] == 'MemberExpr':
            return self.x_CXXMemberCallExpr(n)
        return N('dyncall', f=self.ex(n['inner'][0]), args=[self.ex(a) for a in args])

    def x_CXXMemberCallExpr(self, n):
        c = self.callee(n['inner'][0])
        args = [a for a in n['inner'][1:]]
        if c['kind'] != 'MemberExpr':
            return N('dyncall', f=self.ex(n['inner'][0]), args=[self.ex(a) for a in args])
        base = c['inner'][0]
        bt = self.ty(base)
        o = self.ex(base)
        if c.get('isArrow'):
            o = N('deref', e=o)
            bt = bt.rstrip().rstrip('*').strip() if bt.rstrip().endswith('*') else bt
        d = self.idx.get((self.tu, c.get('referencedMemberDecl')))
        if d is not None:
            key = (self._clsof(d, self.tu), d['name'], d['type']['qualType'])
            # an explicitly qualified call (Base::f()) is not dispatched; clang
            # shows it by the base being cast to the class of the callee
            return N('call', key=key, args=[self.ex(a) for a in args], recv=o, rty=bt)
        if c['name'].startswith('operator '):
            return o
        return N('mcall', m=c['name'], o=o, oty=bt, args=[self.ex(a) for a in args
                                                          if a.get('kind') != 'CXXDefaultArgExpr'], ty=self.ty(n))

    def x_CXXOperatorCallExpr(self, n):
        c = self.callee(n['inner'][0])
        args = n['inner'][1:]
        name = c.get('referencedDecl', {}).get('name', '')
        if c['kind'] == 'DeclRefExpr':
            key = self.fnref(c['referencedDecl'])
            d = self.idx.get((self.tu, c['referencedDecl']['id']))
            if key is not None and not (d.get('isImplicit') and name == 'operator='):
                if key[0]:
                    if name == 'operator()':
                        return N('dyncall', f=self.ex(args[0]), args=[self.ex(a) for a in args[1:]])
                    return N('call', key=key, recv=self.ex(args[0]), args=[self.ex(a) for a in args[1:]],
                             rty=self.ty(args[0]))
                return N('call', key=key, recv=None, args=[self.ex(a) for a in args])
        op = name[len('operator'):]
        A = [self.ex(a) for a in args]
        kinds = [tkind(self.ty(a)) for a in args]
        if op == '[]':
            return N('index', o=A[0], i=A[1], oty=self.ty(args[0]))
        if op == '()':
            return N('dyncall', f=A[0], args=A[1:])
        if op == '=':
            return N('assign', l=A[0], r=A[1])
        if op in ('+=', '-='):
            return N('opassign', op=op[0], l=A[0], r=A[1], int=False, trunc=False)
        if op in ('++', '--'):
            return N('incdec', op=op, e=A[0], post=len(A) == 2)
        if op == '*' and len(A) == 1 or op == '->':
            d = N('deref', e=A[0])
            return d if op == '*' else N('addr', e=d)
        if op in ('==', '!=', '<', '<=', '>', '>=', '+', '-') and len(A) == 2:
            return N('bin', op=op, a=A[0], b=A[1], int=False)
        if op == '<<':
            return N('bcall', fn='operator<<', args=A, ty='')
        return N('bcall', fn='operator' + op, args=A, ty=self.ty(n))

    def x_CXXConstructExpr(self, n):
        t = strip_cv(self.ty(n))
        raw = [a for a in n.get('inner', []) if a.get('kind')]
        return self.construct(n, t, raw)
    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def construct(self, n, t, raw):
        tk = tkind(t)
        ct = n.get('ctorType', {}).get('qualType', '')
        args = [a for a in raw if not (a['kind'] == 'CXXDefaultArgExpr' and tk != 'class')]
        A = [self.ex(a) for a in args]
        if tk == 'class':
            name = t.split('::')[-1] if t.startswith('std::') else t
            if t in self.p.classes:
                cls = self.p.classes[t]
                if len(A) == 1 and re.match(r'^void \((const )?%s &&?\)' % re.escape(t), ct):
                    return N('copy', e=A[0], cls=t)
                return N('new', cls=t, ctor=ct, args=A)
            return N('bnew', cls=t, args=A)
        if tk in ('iter', 'bool', 'int', 'float') and len(A) == 1:
            return A[0]
        if tk in ('vec', 'map', 'set', 'pair', 'string') and len(A) == 1 and \
                strip_cv(self.ty(args[0])).rstrip('& ') and tkind(self.ty(args[0])) == tk:
            return N('copy', e=A[0], cls=None)
        return N('bctor', tk=tk, ty=t, args=A, atk=[tkind(self.ty(a)) for a in args],
                 targs=targs(t) if '<' in t else [])


def lower(loaded):
    lw = Lower(loaded['decls'])
    p = lw.run()
    p.lower = lw
    p.files = loaded['files']
    return p


if __name__ == '__main__':
    import sys, time
    import cxxast
    t = time.time()
    p = lower(cxxast.load(mpi='mpi' in sys.argv))
    n = 0
    for f in p.fns.values():
        if f.body:
            p.lower.body(f)
            n += 1
    print(len(p.fns), n, time.time() - t, p.unknown)
    for c in p.classes.values():
        print(c.name, c.bases, [x[0] for x in c.fields])
