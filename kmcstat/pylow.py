"""Lower Python sources (KMCLib's python layer and the reference model) to ir.py."""
import ast, glob, os
from ir import N, Fn, Param, Cls


MODEL = [False]


class PyProgram(object):
    def __init__(self):
        self.fns = {}       # qname -> Fn
        self.classes = {}
        self.globals = {}   # (module, name) -> N
        self.modules = {}   # module -> {imports}
        self.files = []
        self.unknown = {}

    def lookup(self, qname):
        f = self.fns.get(qname)
        return [f] if f else []

    def method(self, cls, name):
        """resolve a method along the (project) bases"""
        seen = set()
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in seen or c not in self.classes:
                continue
            seen.add(c)
            f = self.fns.get(c + "." + name)
            if f is None and name.startswith('_' + c.lstrip('_') + '__'):
                f = self.fns.get(c + "." + name[1 + len(c.lstrip('_')):])
            if f:
                return f
            todo += self.classes[c].bases
        return None


class PyLower(object):
    def __init__(self, prog=None):
        self.p = prog or PyProgram()

    def module(self, path, name=None, rel=None):
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        self.file = rel or path
        self.mod = name or os.path.splitext(os.path.basename(path))[0]
        self.p.files.append(self.file)
        self.p.modules[self.mod] = {}
        self.cls = None
        self.locals = None
        for s in tree.body:
            self.top(s)
        return self.p

    def top(self, s):
        if isinstance(s, ast.FunctionDef):
            fn = self.func(s, None)
            self.p.fns[fn.name] = fn
        elif isinstance(s, ast.ClassDef):
            c = Cls(s.name, self.file, s.lineno)
            c.module = self.mod
            c.bases = [b.id if isinstance(b, ast.Name) else getattr(b, 'attr', '?') for b in s.bases]
            self.p.classes[s.name] = c
            self.cls = s.name
            for x in s.body:
                if isinstance(x, ast.FunctionDef):
                    fn = self.func(x, s.name)
                    c.methods.append(fn)
                    self.p.fns[s.name + "." + x.name] = fn
                elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    self.locals = set()
                    c.consts[x.targets[0].id] = self.ex(x.value)
                    self.locals = None
            self.cls = None
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            self.locals = set()
            self.p.globals[(self.mod, s.targets[0].id)] = self.ex(s.value)
            self.locals = None
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                self.p.modules[self.mod][a.asname or a.name] = (getattr(s, 'module', None), a.name)
        elif isinstance(s, (ast.If, ast.Try)):
            for x in s.body + getattr(s, 'orelse', []):
                self.top(x)

    def mangle(self, n):
        if self.cls and n.startswith('__') and not n.endswith('__'):
            return '_' + self.cls.lstrip('_') + n
        return n

    def func(self, s, cls, nested=False):
        outer = self.locals
        a = s.args
        params = []
        pos = list(getattr(a, 'posonlyargs', [])) + a.args
        defs = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        names = [x.arg for x in pos] + [x.arg for x in a.kwonlyargs]
        loc = set(names)
        if a.vararg:
            loc.add(a.vararg.arg)
        if a.kwarg:
            loc.add(a.kwarg.arg)
        glob = set()

        def scan(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    loc.add(c.name)
                    continue
                if isinstance(c, ast.Lambda):
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    loc.add(c.id)
                if isinstance(c, ast.Global):
                    glob.update(c.names)
                if isinstance(c, ast.ExceptHandler) and c.name:
                    loc.add(c.name)
                scan(c)
        scan(s) if not isinstance(s, ast.Lambda) else None
        loc -= glob
        self.locals = loc | (outer or set()) if nested else loc
        defaults = {}
        for x, d in zip(pos, defs):
            params.append(Param(x.arg, x.arg, '', self.ex(d) if d is not None else None))
        if a.vararg:
            params.append(Param(a.vararg.arg, a.vararg.arg, '', None, star='*'))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            params.append(Param(x.arg, x.arg, '', self.ex(d) if d is not None else None, star='kw'))
        if a.kwarg:
            params.append(Param(a.kwarg.arg, a.kwarg.arg, '', None, star='**'))
        if isinstance(s, ast.Lambda):
            body = N('return', s.lineno, e=self.ex(s.body))
            self.locals = outer
            return Fn('<lambda>', None, params, body, self.file, s.lineno, 'py')
        decos = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '?') for d in s.decorator_list]
        fn = Fn(s.name, cls, params, None, self.file, s.lineno, 'py', decorators=decos,
                isctor=s.name == '__init__', static='staticmethod' in decos)
        fn.code = None
        for d in s.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'code':
                fn.code = ([ast.literal_eval(x) for x in d.args],
                           {k.arg: ast.literal_eval(k.value) for k in d.keywords})
        fn.mod = self.mod
        fn.body = N('block', s.lineno, body=self.stmts(s.body))
        fn.private = s.name.startswith('_')
        self.locals = outer
        return fn

    # ---------------------------------------------------------------- statements
    def stmts(self, b):
        out = []
        for s in b:
            r = self.st(s)
            if r is not None:
                out.append(r)
        return out

    def block(self, b):
        return N('block', b[0].lineno if b else None, body=self.stmts(b))

    def st(self, s):
        ln = s.lineno
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return None
            return N('expr', ln, e=self.ex(s.value))
        if isinstance(s, ast.Assign):
            v = self.ex(s.value)
            if len(s.targets) == 1:
                return N('passign', ln, t=self.target(s.targets[0]), e=v)
            b = [N('passign', ln, t=N('var', id='$t', name='$t'), e=v)]
            for t in s.targets:
                b.append(N('passign', ln, t=self.target(t), e=N('var', id='$t', name='$t')))
            return N('block', ln, body=b)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return None
            return N('passign', ln, t=self.target(s.target), e=self.ex(s.value))
        if isinstance(s, ast.AugAssign):
            return N('paug', ln, op=self.op(s.op), t=self.target(s.target), e=self.ex(s.value))
        if isinstance(s, ast.If):
            return N('if', ln, c=self.ex(s.test), t=self.block(s.body), e=self.block(s.orelse) if s.orelse else None)
        if isinstance(s, ast.While):
            return N('while', ln, c=self.ex(s.test), body=self.block(s.body), step=None,
                     els=self.block(s.orelse) if s.orelse else None)
        if isinstance(s, ast.For):
            return N('pfor', ln, t=self.target(s.target), it=self.ex(s.iter), body=self.block(s.body),
                     els=self.block(s.orelse) if s.orelse else None)
        if isinstance(s, ast.Return):
            return N('return', ln, e=self.ex(s.value) if s.value is not None else None)
        if isinstance(s, ast.Raise):
            return N('throw', ln, e=self.ex(s.exc) if s.exc is not None else None)
        if isinstance(s, ast.Break):
            return N('break', ln)
        if isinstance(s, ast.Continue):
            return N('continue', ln)
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            return None
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                self.p.modules[self.mod][a.asname or a.name] = (getattr(s, 'module', None), a.name)
            return None
        if isinstance(s, ast.Try):
            hs = []
            for h in s.handlers:
                hs.append((self.ex(h.type) if h.type is not None else None, h.name, self.block(h.body)))
            return N('try', ln, body=self.block(s.body), handlers=hs,
                     fin=self.block(s.finalbody) if s.finalbody else None,
                     els=self.block(s.orelse) if s.orelse else None)
        if isinstance(s, ast.With):
            return N('with', ln, items=[(self.ex(i.context_expr),
                                         self.target(i.optional_vars) if i.optional_vars else None)
                                        for i in s.items], body=self.block(s.body))
        if isinstance(s, ast.Delete):
            return N('del', ln, ts=[self.target(t) for t in s.targets])
        if isinstance(s, ast.Assert):
            return N('if', ln, c=N('not', e=self.ex(s.test)),
                     t=N('throw', ln, e=N('pycall', f=N('glob', name='AssertionError'), args=[], kw=[])), e=None)
        if isinstance(s, ast.FunctionDef):
            f = self.func(s, None, nested=True)
            return N('passign', ln, t=N('var', id=s.name, name=s.name), e=N('lambda', fn=f))
        self.p.unknown[type(s).__name__] = self.p.unknown.get(type(s).__name__, 0) + 1
        return N('expr', ln, e=N('unknown', what=type(s).__name__, args=[]))

    def target(self, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            return N('pat', t.lineno, ts=[self.target(x) for x in t.elts])
        return self.ex(t)

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
           ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
    CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=',
           ast.Is: 'is', ast.IsNot: 'isnot', ast.In: 'in', ast.NotIn: 'notin'}

    def op(self, o):
        return self.OPS.get(type(o), '?')

    # ---------------------------------------------------------------- expressions
    def ex(self, e):
        r = self._ex(e)
        if r.line is None:
            r.line = getattr(e, 'lineno', None)
        return r

    def _ex(self, e):
        if isinstance(e, ast.Constant):
            return N('const', v=e.value)
        if isinstance(e, ast.Name):
            if self.locals is not None and e.id in self.locals:
                return N('var', id=e.id, name=e.id)
            if e.id in ('True', 'False', 'None'):
                return N('const', v={'True': True, 'False': False, 'None': None}[e.id])
            return N('glob', name=e.id, mod=self.mod)
        if isinstance(e, ast.Attribute):
            return N('field', o=self.ex(e.value), f=self.mangle(e.attr))
        if isinstance(e, ast.Subscript):
            sl = e.slice
            if isinstance(sl, ast.Slice):
                return N('slice', o=self.ex(e.value), lo=self.ex(sl.lower) if sl.lower else None,
                         hi=self.ex(sl.upper) if sl.upper else None, step=self.ex(sl.step) if sl.step else None)
            return N('index', o=self.ex(e.value), i=self.ex(sl), py=True)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'at' and len(e.args) == 1 \
                and MODEL[0]:
            return N('deref', e=self.ex(e.args[0]))
        if isinstance(e, ast.Call):
            return N('pycall', f=self.ex(e.func), args=[self.ex(a) for a in e.args],
                     kw=[(k.arg, self.ex(k.value)) for k in e.keywords])
        if isinstance(e, ast.Starred):
            return N('star', e=self.ex(e.value))
        if isinstance(e, ast.BinOp):
            return N('bin', op=self.op(e.op), a=self.ex(e.left), b=self.ex(e.right), py=True, int=False)
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return N('not', e=self.ex(e.operand))
            if isinstance(e.op, ast.USub):
                return N('bin', op='-', a=N('const', v=0), b=self.ex(e.operand), int=False, py=True)
            if isinstance(e.op, ast.UAdd):
                return self.ex(e.operand)
            return N('unknown', what='unary', args=[self.ex(e.operand)])
        if isinstance(e, ast.BoolOp):
            k = 'and' if isinstance(e.op, ast.And) else 'or'
            r = self.ex(e.values[-1])
            for v in reversed(e.values[:-1]):
                r = N(k, a=self.ex(v), b=r, py=True)
            return r
        if isinstance(e, ast.Compare):
            parts = []
            l = e.left
            for o, r in zip(e.ops, e.comparators):
                parts.append(N('bin', op=self.CMP[type(o)], a=self.ex(l), b=self.ex(r), py=True, int=False))
                l = r
            r = parts[-1]
            for p in reversed(parts[:-1]):
                r = N('and', a=p, b=r)
            return r
        if isinstance(e, ast.IfExp):
            return N('cond', c=self.ex(e.test), a=self.ex(e.body), b=self.ex(e.orelse))
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return N('seq', tk={'List': 'list', 'Tuple': 'tuple', 'Set': 'set'}[type(e).__name__],
                     es=[self.ex(x) for x in e.elts])
        if isinstance(e, ast.Dict):
            return N('dict', ks=[self.ex(k) if k is not None else None for k in e.keys],
                     vs=[self.ex(v) for v in e.values])
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            saved = self.locals
            names = set()
            for g in e.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        names.add(x.id)
            self.locals = (saved or set()) | names
            gens = [(self.target(g.target), self.ex(g.iter), [self.ex(c) for c in g.ifs]) for g in e.generators]
            if isinstance(e, ast.DictComp):
                r = N('comp', tk='dict', elt=self.ex(e.key), val=self.ex(e.value), gens=gens)
            else:
                r = N('comp', tk={'ListComp': 'list', 'GeneratorExp': 'gen', 'SetComp': 'set'}[type(e).__name__],
                      elt=self.ex(e.elt), gens=gens)
            self.locals = saved
            return r
        if isinstance(e, ast.Lambda):
            saved = self.locals
            names = set(a.arg for a in e.args.args)
            self.locals = (saved or set()) | names
            params = []
            for a in e.args.args:
                params.append(Param(a.arg, a.arg, '', None))
            f = Fn('<lambda>', None, params, N('return', e.lineno, e=self.ex(e.body)), self.file, e.lineno, 'py')
            f.mod = self.mod
            self.locals = saved
            return N('lambda', fn=f)
        if isinstance(e, ast.Slice):
            return N('seq', tk='sliceobj', es=[self.ex(x) if x is not None else N('const', v=None)
                                               for x in (e.lower, e.upper, e.step)])
        if isinstance(e, ast.JoinedStr):
            return N('fstr', es=[self.formatted(x) if isinstance(x, ast.FormattedValue) else self.ex(x)
                                 for x in e.values])
        self.p.unknown[type(e).__name__] = self.p.unknown.get(type(e).__name__, 0) + 1
        return N('unknown', what=type(e).__name__, args=[])

    def formatted(self, x):
        v = self.ex(x.value)
        f = x.format_spec
        if f is None and x.conversion in (-1, ord('s')):
            return v
        spec = f.values[0].value if f is not None and len(f.values) == 1 and isinstance(f.values[0], ast.Constant) \
            else None
        p = percent(spec) if spec else None
        if x.conversion != -1 or p is None:
            return N('bin', op='%', a=N('const', v='%%r{%s}' % ast.dump(f) if f is not None else '%r'), b=v,
                     int=False, py=True)
        return N('bin', op='%', a=N('const', v=p), b=N('seq', tk='tuple', es=[v]), int=False, py=True)


def percent(spec):
    """a format specification of str.format as a % conversion"""
    import re
    m = re.match(r'^([<>]?)([+ ]?)(0?)(\d*)(\.\d+)?([deEfFgGs])$', spec)
    if not m:
        return None
    al, sg, z, w, pr, c = m.groups()
    left = al == '<' or (not al and c == 's' and w)
    if z and left:
        return None
    return '%' + ('-' if left and w else '') + sg + z + w + (pr or '') + c


def load(repo, sub="python/src/KMCLib", skip=("Backend/Backend.py", "Backend/Custom.py")):
    lw = PyLower()
    root = os.path.join(repo, sub)
    for p in sorted(glob.glob(os.path.join(root, "**", "*.py"), recursive=True)):
        rel = os.path.relpath(p, root)
        if rel in skip or rel.endswith("__init__.py"):
            continue
        lw.module(p, rel=os.path.join(sub, rel))
    return lw.p


def load_model(paths):
    lw = PyLower()
    MODEL[0] = True
    try:
        for p in paths:
            lw.module(p, rel=os.path.basename(p))
    finally:
        MODEL[0] = False
    return lw.p


if __name__ == '__main__':
    p = load("/repo")
    print(len(p.fns), p.unknown, sorted(p.classes))
