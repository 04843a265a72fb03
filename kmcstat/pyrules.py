"""Structural rules over the Python layer (syntax tree, no execution)."""
import ast
import glob
import os
import re
import engine

BUILTIN_COPY = ('list', 'dict', 'set', 'tuple', 'sorted', 'array', 'copy', 'deepcopy', 'zeros', 'ones', 'str', 'int',
                'float', 'len', 'sum', 'max', 'min', 'range', 'zip', 'map', 'filter', 'bool', 'abs', 'round',
                'format', 'join', 'split', 'strip', 'repr', 'type', 'isinstance')
LISTMUT = ('append', 'extend', 'insert', 'sort', 'pop', 'remove', 'reverse', 'clear', 'update', 'fill', 'setdefault',
           'popitem', 'resize')


class Fn(object):
    def __init__(self, node, cls, mod, file):
        self.node, self.cls, self.mod, self.file = node, cls, mod, file
        self.name = node.name
        self.qname = (cls + '.' if cls else '') + node.name
        self.params = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        self.me = self.params[0] if cls and self.params and not any(
            isinstance(d, ast.Name) and d.id == 'staticmethod' for d in node.decorator_list) else None


class Layer(object):
    def __init__(self):
        self.fns = []
        self.classes = {}           # name -> (bases, {method: Fn})
        self.byname = {}            # method or function name -> [Fn]
        self.trees = {}
        root = os.path.join(engine.REPO, 'python', 'src', 'KMCLib')
        for path in sorted(glob.glob(os.path.join(root, '**', '*.py'), recursive=True)):
            rel = os.path.relpath(path, engine.REPO)
            if '/Backend/' in rel or '/unittest' in rel.lower():
                continue
            with open(path) as f:
                tree = ast.parse(f.read(), path)
            mod = os.path.splitext(os.path.basename(path))[0]
            self.trees[rel] = tree
            for s in tree.body:
                if isinstance(s, ast.FunctionDef):
                    self.addfn(Fn(s, None, mod, rel))
                elif isinstance(s, ast.ClassDef):
                    ms = {}
                    self.classes[s.name] = ([b.id if isinstance(b, ast.Name) else getattr(b, 'attr', '?')
                                             for b in s.bases], ms)
                    for x in s.body:
                        if isinstance(x, ast.FunctionDef):
                            fn = Fn(x, s.name, mod, rel)
                            ms[x.name] = fn
                            self.addfn(fn)

    def addfn(self, fn):
        self.fns.append(fn)
        self.byname.setdefault(fn.name, []).append(fn)

    def method(self, cls, name):
        todo, seen = [cls], set()
        while todo:
            c = todo.pop(0)
            if c in seen or c not in self.classes:
                continue
            seen.add(c)
            bases, ms = self.classes[c]
            if name in ms:
                return ms[name]
            todo += bases
        return None

    def owner(self, cls, attr):
        """attributes are shared along the bases: the top project class names them"""
        if attr.startswith('__') and not attr.endswith('__'):
            return cls
        c = cls
        while c in self.classes:
            b = [x for x in self.classes[c][0] if x in self.classes]
            if not b:
                return c
            c = b[0]
        return c

    def called(self, call, fn):
        """project functions a call may reach, as far as names tell"""
        f = call.func
        if isinstance(f, ast.Name):
            if f.id in self.classes:
                m = self.method(f.id, '__init__')
                return [m] if m else []
            return [x for x in self.byname.get(f.id, []) if x.cls is None]
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == fn.me:
                r = []
                m = self.method(fn.cls, f.attr)
                if m:
                    r.append(m)
                for c in self.classes:
                    # overridden in a subclass
                    if c != fn.cls and self.derives(c, fn.cls) and f.attr in self.classes[c][1]:
                        r.append(self.classes[c][1][f.attr])
                return r
            if isinstance(f.value, ast.Name) and f.value.id in self.classes:
                m = self.method(f.value.id, f.attr)
                return [m] if m else []
            if f.attr in LISTMUT:
                return []
            return [x for x in self.byname.get(f.attr, []) if x.cls]
        return []

    def derives(self, c, base):
        todo, seen = [c], set()
        while todo:
            x = todo.pop()
            if x == base:
                return True
            if x in seen or x not in self.classes:
                continue
            seen.add(x)
            todo += self.classes[x][0]
        return False


def nodes(fn):
    """every node of a function, nested functions excluded"""
    todo = list(fn.node.body)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo = list(ast.iter_child_nodes(n)) + todo


def at(fn, n=None):
    return '%s (%s:%s)' % (fn.qname, fn.file, getattr(n, 'lineno', None) or fn.node.lineno)


# ---------------------------------------------------------------- shared mutable data
class Sharing(object):
    """which attributes may hold the same list or array, and which are changed in place"""

    def __init__(self, L):
        self.L = L
        self.returns = {}           # Fn -> set of attributes it may return uncopied
        self.env = {}
        self.names = {}
        self.kind = {}              # attribute -> 'array' when it holds lists or arrays somewhere
        for _ in range(3):
            for fn in L.fns:
                self.returns[fn] = self.result(fn)
        self.edges = []             # (attribute, object stored in it, fn, node, how)
        self.muts = {}              # attribute -> [(fn, node)]
        for fn in L.fns:
            self.scan(fn)

    def attr(self, fn, e):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == fn.me and fn.me:
            return ('attr', self.L.owner(fn.cls, e.attr), e.attr)
        return None

    def sources(self, fn, e, depth=0):
        """objects that the value of e may be (not a copy of)"""
        if depth > 8 or e is None:
            return set()
        a = self.attr(fn, e)
        if a:
            return {a}
        if isinstance(e, ast.Name):
            if e.id in fn.params and e.id != fn.me and not self.rebound(fn, e.id):
                return {('param', fn.qname, e.id)}
            r = set()
            for v in self.values(fn, e.id):
                r |= self.sources(fn, v, depth + 1)
            if len(self.values(fn, e.id)) == 1 and fresh_mutable(self.values(fn, e.id)[0]):
                r.add(('local', fn.qname, e.id))
            return r
        if isinstance(e, ast.IfExp):
            return self.sources(fn, e.body, depth + 1) | self.sources(fn, e.orelse, depth + 1)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.sources(fn, v, depth + 1) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.sources(fn, e.value, depth + 1)
        if isinstance(e, ast.Call):
            f = e.func
            nm = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '')
            if nm in BUILTIN_COPY and not (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name)
                                           and f.value.id == fn.me):
                return set()
            if nm in ('asarray', 'asanyarray', 'ravel', 'view', 'reshape'):
                return self.sources(fn, e.args[0], depth + 1) if e.args else set()
            r = set()
            for g in self.L.called(e, fn):
                r |= {x for x in self.returns.get(g, set()) if x[0] == 'attr'}
                for x in self.returns.get(g, set()):
                    if x[0] == 'param' and x[1] == g.qname:
                        i = g.params.index(x[2]) - (1 if g.me else 0)
                        if 0 <= i < len(e.args):
                            r |= self.sources(fn, e.args[i], depth + 1)
                        for k in e.keywords:
                            if k.arg == x[2]:
                                r |= self.sources(fn, k.value, depth + 1)
            return r
        return set()

    def values(self, fn, name):
        k = (fn, name)
        if k not in self.names:
            r = []
            for n in nodes(fn):
                if isinstance(n, ast.Assign):
                    for tg in n.targets:
                        if isinstance(tg, ast.Name) and tg.id == name:
                            r.append(n.value)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value:
                    r.append(n.value)
                elif isinstance(n, ast.NamedExpr) and n.target.id == name:
                    r.append(n.value)
            self.names[k] = r
        return self.names[k]

    def rebound(self, fn, name):
        return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in nodes(fn))

    def result(self, fn):
        r = set()
        for n in nodes(fn):
            if isinstance(n, ast.Return) and n.value is not None:
                r |= self.sources(fn, n.value)
        return {x for x in r if x[0] != 'local'}

    def scan(self, fn):
        for n in nodes(fn):
            if isinstance(n, ast.Assign):
                many = [self.attr(fn, tg) for tg in n.targets]
                for tg in n.targets:
                    a = self.attr(fn, tg)
                    if a and len(many) > 1 and many[0] and a != many[0] and fresh_mutable(n.value):
                        self.edges.append((a, many[0], fn, n, 'is'))
                    if a:
                        self.store(a, fn, n.value, n, 'is')
                        if arraylike(n.value):
                            self.kind[a] = 'array'
                    elif isinstance(tg, ast.Subscript):
                        self.mutated(fn, tg.value, n)
                        for b in self.sources(fn, tg.value):
                            if b[0] == 'attr':
                                self.store(b, fn, n.value, n, 'holds')
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Subscript):
                    self.mutated(fn, n.target.value, n)
                else:
                    self.mutated(fn, n.target, n, aug=n)
            elif isinstance(n, ast.Delete):
                for tg in n.targets:
                    if isinstance(tg, ast.Subscript):
                        self.mutated(fn, tg.value, n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in LISTMUT:
                self.mutated(fn, n.func.value, n)
                for b in self.sources(fn, n.func.value):
                    if b[0] == 'attr':
                        for v in n.args:
                            self.store(b, fn, v, n, 'holds')

    def store(self, a, fn, v, n, how):
        for x in self.sources(fn, v):
            self.edges.append((a, x, fn, n, how))

    def mutated(self, fn, e, n, aug=None):
        while isinstance(e, ast.Subscript):
            e = e.value
        for x in self.sources(fn, e):
            self.muts.setdefault(x, []).append((fn, n, aug))


def fresh_mutable(e):
    return isinstance(e, (ast.List, ast.ListComp, ast.Dict, ast.Set)) or \
        isinstance(e, ast.BinOp) and (fresh_mutable(e.left) or fresh_mutable(e.right)) or \
        isinstance(e, ast.Call) and getattr(e.func, 'attr', getattr(e.func, 'id', '')) in ('list', 'array', 'zeros',
                                                                                          'ones', 'copy', 'deepcopy')


def arraylike(e):
    if isinstance(e, (ast.List, ast.ListComp)):
        return True
    if isinstance(e, ast.BinOp):
        return arraylike(e.left) or arraylike(e.right)
    if isinstance(e, ast.Call):
        return getattr(e.func, 'attr', getattr(e.func, 'id', '')) in ('list', 'array', 'zeros', 'ones', 'copy',
                                                                     'deepcopy', 'asarray', 'full', 'arange')
    return False


def shared_state(R, world):
    """data that is changed in place is held by one attribute only"""
    rule = 'alias:in-place'
    L = Layer()
    S = Sharing(L)
    for fn in L.fns:
        R.functions.add(fn.qname)
    # arrays spread along sharing
    kind = dict(S.kind)
    for _ in range(3):
        for a, x, fn, n, how in S.edges:
            if how == 'is' and (kind.get(x) or kind.get(a)):
                if x[0] == 'attr':
                    kind[x] = 'array'
                kind[a] = 'array'

    def inplace(x):
        for fn, n, aug in S.muts.get(x, ()):
            if aug is not None and not kind.get(x):
                continue
            return fn, n
        return None
    for x in sorted(S.muts, key=str):
        if x[0] != 'attr' or inplace(x) is None:
            continue
        R.calls += len(S.muts[x])
        name = '%s.%s' % (x[1], x[2])
        fn, n = inplace(x)
        bad = ''
        for a, y, g, m, how in S.edges:
            if a == y and how == 'is':
                continue
            if a == x and how == 'is' and y[0] in ('attr', 'param'):
                other = 'the argument %s of %s' % (y[2], y[1]) if y[0] == 'param' else 'the attribute %s.%s' % y[1:]
                bad = '%s is changed in place at %s but may be %s (stored at %s)' % (name, at(fn, n), other, at(g, m))
            elif y == x:
                bad = '%s is changed in place at %s but is also stored uncopied at %s' % (name, at(fn, n), at(g, m))
        R.add(rule, name, 'violated' if bad else 'holds', bad, at(fn, n))
    # a list created once and stored several times
    for a, y, g, m, how in S.edges:
        if y[0] == 'local' and inplace(y) is not None and how == 'holds':
            loops = enclosing_loops(g, m)
            made = [n for n in nodes(g) if isinstance(n, ast.Assign) and any(
                isinstance(tg, ast.Name) and tg.id == y[2] for tg in n.targets)]
            inner = [l for l in loops if not any(l in enclosing_loops(g, k) for k in made)]
            if inner:
                fn, n = inplace(y)
                if any(l in enclosing_loops(g, n) for l in inner):
                    R.add(rule, '%s:%s' % (g.qname, y[2]), 'violated',
                          'the list %s is stored in every iteration and changed in place at %s' % (y[2], at(fn, n)), at(g, m))


    for fn in L.fns:
        repeated_elements(R, rule, S, fn)
        mutable_defaults(R, rule, S, fn)


def repeated_elements(R, rule, S, fn):
    """[[...]] * n whose elements are changed in place"""
    for n in nodes(fn):
        if not isinstance(n, ast.Assign) or len(n.targets) != 1:
            continue
        v = n.value
        if not (isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult)):
            continue
        lst = v.left if isinstance(v.left, ast.List) else v.right if isinstance(v.right, ast.List) else None
        if lst is None or not any(fresh_mutable(x) for x in lst.elts):
            continue
        tg = n.targets[0]
        a = S.attr(fn, tg) or (('name', tg.id) if isinstance(tg, ast.Name) else None)
        if a is None:
            continue
        for g in (S.L.fns if a[0] == 'attr' else [fn]):
            for m in nodes(g):
                e = None
                if isinstance(m, (ast.Assign, ast.AugAssign)):
                    for t2 in (m.targets if isinstance(m, ast.Assign) else [m.target]):
                        if isinstance(t2, ast.Subscript) and isinstance(t2.value, ast.Subscript):
                            e = t2.value.value
                        elif isinstance(t2, ast.Subscript) and isinstance(m, ast.AugAssign):
                            e = t2.value if fresh_mutable(lst.elts[0]) and arraylike(lst.elts[0]) else None
                elif isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr in LISTMUT and \
                        isinstance(m.func.value, ast.Subscript):
                    e = m.func.value.value
                if e is None:
                    continue
                same = S.attr(g, e) == a if a[0] == 'attr' else isinstance(e, ast.Name) and e.id == a[1]
                if same:
                    R.add(rule, '%s:%s' % (fn.qname, a[-1]), 'violated',
                          'the elements of %s are one object and are changed in place at %s' % (a[-1], at(g, m)), at(fn, n))
                    return


def mutable_defaults(R, rule, S, fn):
    a = fn.node.args
    pos = a.posonlyargs + a.args
    for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
            [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if not fresh_mutable(d):
            continue
        x = ('param', fn.qname, p.arg)
        m = [(f, n) for f, n, aug in S.muts.get(x, ()) if aug is None or True]
        kept = [(g, n) for b, y, g, n, how in S.edges if y == x]
        if m or kept:
            f, n = (m or kept)[0]
            R.add(rule, '%s:%s' % (fn.qname, p.arg), 'violated',
                  'the default of %s is one object for all calls and is %s at %s'
                  % (p.arg, 'changed in place' if m else 'kept', at(f, n)), at(fn))


def enclosing_loops(fn, node):
    """loops of fn around node"""
    r = []

    def go(n, loops):
        if n is node:
            r.extend(loops)
            return
        for c in ast.iter_child_nodes(n):
            go(c, loops + [n] if isinstance(n, (ast.For, ast.While)) else loops)
    go(fn.node, [])
    return r


# ---------------------------------------------------------------- parallel execution
CLOCK = ('time', 'clock', 'perf_counter', 'monotonic', 'process_time', 'time_ns', 'now', 'utcnow', 'today', 'ctime',
         'localtime', 'gmtime', 'strftime')
RANK = ('isMaster', 'myRank')


class Taint(object):
    """values that may differ between the ranks of a parallel run (or between two runs)"""

    def __init__(self, L, is_source):
        self.L = L
        self.is_source = is_source
        self.attrs = {}             # (class, attr) -> why
        self.ret = {}               # Fn -> why
        self.loc = {}               # (Fn, name) -> why
        changed = True
        while changed:
            changed = False
            for fn in L.fns:
                changed |= self.step(fn)

    def step(self, fn):
        ch = False
        for n in nodes(fn):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                w = self.of(fn, n.value)
                if w:
                    for tg in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        ch |= self.mark(fn, tg, w)
            elif isinstance(n, ast.For):
                w = self.of(fn, n.iter) or self.is_source(fn, n)
                if w:
                    ch |= self.mark(fn, n.target, w)
            elif isinstance(n, ast.Return) and n.value is not None:
                w = self.of(fn, n.value)
                if w and fn not in self.ret:
                    self.ret[fn] = w
                    ch = True
        return ch

    def mark(self, fn, tg, w):
        if isinstance(tg, (ast.Tuple, ast.List)):
            return any([self.mark(fn, x, w) for x in tg.elts])
        if isinstance(tg, ast.Name):
            k, d = (fn, tg.id), self.loc
        elif isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == fn.me:
            k, d = (self.L.owner(fn.cls, tg.attr), tg.attr), self.attrs
        else:
            return False
        if k in d:
            return False
        d[k] = w
        return True

    def of(self, fn, e):
        """why the value of e is tainted, or None"""
        for n in ast.walk(e):
            if isinstance(n, (ast.Call, ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                w = self.is_source(fn, n)
                if w:
                    return w
                for g in self.L.called(n, fn) if isinstance(n, ast.Call) else ():
                    if g in self.ret:
                        return self.ret[g]
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and (fn, n.id) in self.loc:
                return self.loc[fn, n.id]
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and \
                    n.value.id == fn.me and fn.me:
                w = self.attrs.get((self.L.owner(fn.cls, n.attr), n.attr))
                if w:
                    return w
        return None


def callname(n):
    f = getattr(n, 'func', None)
    return f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '')


def receiver(n):
    f = getattr(n, 'func', None)
    if isinstance(f, ast.Attribute):
        v = f.value
        return v.id if isinstance(v, ast.Name) else getattr(v, 'attr', '')
    return ''


def imported(L, fn, name):
    """module that a bare name was imported from"""
    for s in ast.walk(L.trees[fn.file]):
        if isinstance(s, ast.ImportFrom):
            for a in s.names:
                if (a.asname or a.name) == name:
                    return (s.module or '').split('.')[-1]
    return ''


def clock_call(L, fn, n):
    nm, rc = callname(n), receiver(n)
    if nm in CLOCK and (rc in ('time', 'datetime', 'date') or not rc and imported(L, fn, nm) in ('time', 'datetime')):
        return 'the wall clock'
    return None


def guards(fn, node):
    """conditions that decide whether node is reached: enclosing tests and earlier exits"""
    path = []

    def go(n, trail):
        if n is node:
            path.extend(trail)
            return True
        for f, v in ast.iter_fields(n):
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST) and go(c, trail + [(n, f, v, c)]):
                    return True
        return False
    go(fn.node, [])
    out = []
    for n, f, v, c in path:
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and f in ('body', 'orelse'):
            out.append(n.test)
        elif isinstance(n, ast.For) and f == 'body':
            out.append(n.iter)
        elif isinstance(n, ast.BoolOp) and c is not n.values[0]:
            out.extend(n.values[:n.values.index(c)])
        if isinstance(v, list) and isinstance(c, ast.stmt):
            for s in v[:v.index(c)]:
                out.extend(exits(s))
    return out


def exits(s):
    """tests under which statement s leaves the function or the loop"""
    out = []

    def go(n, tests):
        if isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Raise)):
            out.extend(tests)
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            return
        if isinstance(n, ast.If):
            for c in n.body + n.orelse:
                go(c, tests + [n.test])
            return
        for c in ast.iter_child_nodes(n):
            go(c, tests)
    go(s, [])
    return out


def collective_calls(R, world):
    """every rank reaches the same collective operations: none is under a condition that
    may differ between the ranks"""
    rule = 'spmd:collectives'
    L = Layer()

    def source(fn, n):
        if callname(n) in RANK:
            return 'the rank'
        return clock_call(L, fn, n)
    T = Taint(L, source)
    base = collectives_of(world)
    coll = {}

    def why(fn, n):
        nm = callname(n)
        if nm in base and (receiver(n) in ('MPICommons', 'Backend', 'Custom') or imported(L, fn, nm) == 'Backend'
                           or nm not in L.byname and isinstance(n.func, ast.Attribute)):
            return nm
        for g in L.called(n, fn):
            if g in coll:
                return '%s -> %s' % (g.qname, coll[g])
        return None
    changed = True
    while changed:
        changed = False
        for fn in L.fns:
            if fn in coll:
                continue
            for n in nodes(fn):
                if isinstance(n, ast.Call):
                    w = why(fn, n)
                    if w:
                        coll[fn] = w
                        changed = True
                        break
    for fn in sorted(coll, key=lambda f: (f.file, f.node.lineno)):
        R.functions.add(fn.qname)
        bad = None
        reason = ''
        for n in nodes(fn):
            if not isinstance(n, ast.Call):
                continue
            w = why(fn, n)
            if not w:
                continue
            R.calls += 1
            for g in guards(fn, n):
                s = T.of(fn, g)
                if s and bad is None:
                    reason = s
                    bad = '%s: the collective operation %s is reached only under a condition that depends on %s (line %d)' % (
                        at(fn, n), w, s, g.lineno)
        R.add(rule, '%s:%s' % (fn.cls or fn.mod, reason.replace(' ', '-')) if bad else fn.qname, 'violated' if bad else 'holds', bad or '',
              at(fn))


def never(L, fn, g):
    """a comparison of an attribute that only ever holds one constant, and it is false"""
    if not (isinstance(g, ast.Compare) and len(g.ops) == 1 and isinstance(g.comparators[0], ast.Constant) and
            isinstance(g.left, ast.Attribute) and isinstance(g.left.value, ast.Name) and g.left.value.id == fn.me):
        return False
    vals = []
    for f in L.fns:
        for n in nodes(f):
            for tg in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []):
                if isinstance(tg, ast.Attribute) and tg.attr == g.left.attr:
                    if not (isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant)):
                        return False
                    vals.append(n.value.value)
    a, b = set(vals), g.comparators[0].value
    if len(a) != 1:
        return False
    a = a.pop()
    if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
        return False
    op = g.ops[0]
    return not {ast.Gt: a > b, ast.GtE: a >= b, ast.Lt: a < b, ast.LtE: a <= b, ast.Eq: a == b,
                ast.NotEq: a != b}.get(type(op), True)


def collectives_of(world):
    """backend entry points that communicate in the parallel build"""
    C = Cxx(world(True))
    return {f.name for f in C.collective()}


# ---------------------------------------------------------------- files
def master_writes(R, world):
    """only the master rank writes files and prints"""
    rule = 'spmd:output'
    L = Layer()

    def source(fn, n):
        return 'the rank' if callname(n) in RANK else None
    T = Taint(L, source)

    def effect(fn, n):
        nm = callname(n)
        if isinstance(n.func, ast.Name) and nm == 'open':
            m = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
            if m is not None and not (isinstance(m, ast.Constant) and set(str(m.value)) <= set('rbtU')):
                return 'opens a file for writing'
        elif nm == 'write' and isinstance(n.func, ast.Attribute):
            return 'writes to a stream'
        elif isinstance(n.func, ast.Name) and nm == 'print':
            return 'prints'
        elif receiver(n) == 'os' and nm in ('remove', 'rename', 'mkdir', 'makedirs', 'unlink', 'rmdir', 'truncate', 'replace') \
                or receiver(n) == 'shutil':
            return 'changes files'
        return None

    def guarded(fn, n):
        return any(T.of(fn, g) or never(L, fn, g) for g in guards(fn, n))
    callers = {}
    for fn in L.fns:
        for n in nodes(fn):
            if isinstance(n, ast.Call):
                for g in L.called(n, fn):
                    callers.setdefault(g, []).append((fn, n))

    def safe(fn, n, depth=0):
        if guarded(fn, n):
            return True
        cs = callers.get(fn, [])
        # a private helper is fine when all its callers guard it
        return depth < 5 and fn.name.startswith('_') and not fn.name.endswith('__') and \
            all(safe(g, m, depth + 1) for g, m in cs)
    for fn in L.fns:
        acts = [(n, effect(fn, n)) for n in nodes(fn) if isinstance(n, ast.Call) and effect(fn, n)]
        if not acts:
            continue
        R.functions.add(fn.qname)
        bad = ''
        for n, w in acts:
            R.calls += 1
            if not safe(fn, n) and not bad:
                bad = '%s: %s on every rank' % (at(fn, n), w)
        R.add(rule, fn.qname, 'violated' if bad else 'holds', bad, at(fn))


# ---------------------------------------------------------------- reproducibility
def determinism(R, world):
    """two runs with one seed are the same: nothing but the seeded engine is random"""
    rule = 'determinism:sources'
    C = Cxx(world())
    L = Layer()
    backend = {f.name for f in C.fns}
    clocks = {}

    def value_source(fn, n):
        w = clock_call(L, fn, n) or entropy_call(L, fn, n)
        if w:
            clocks[w] = 1
        return w or unordered(fn, n)
    T = Taint(L, value_source)

    def isbackend(n):
        nm = callname(n)
        return nm in backend and nm not in L.byname and isinstance(n.func, ast.Attribute) and \
            receiver(n) != 'MPICommons' or receiver(n) in ('Backend', 'Custom')
    for fn in L.fns:
        bad = ''
        k = 0
        for n in nodes(fn):
            if isinstance(n, ast.Call) and isbackend(n):
                k += 1
                for a in list(n.args) + [x.value for x in n.keywords]:
                    w = T.of(fn, a)
                    if w:
                        bad = bad or '%s: %s is handed to the backend function %s' % (at(fn, n), w, callname(n))
                for g in guards(fn, n):
                    w = T.of(fn, g)
                    if w and w != 'the order of a set':
                        bad = bad or '%s: the backend function %s is called depending on %s' % (at(fn, n), callname(n), w)
            elif isinstance(n, ast.Return) and n.value is not None and fn.cls and not fn.name.startswith('_'):
                w = T.of(fn, n.value)
                if w in clocks:
                    bad = bad or '%s: the result depends on %s' % (at(fn, n), w)
        srcs = [n for n in nodes(fn) if isinstance(n, ast.Call) and value_source(fn, n)]
        if k or srcs or bad:
            R.functions.add(fn.qname)
            R.calls += k + len(srcs)
            R.add(rule, fn.qname, 'violated' if bad else 'holds', bad, at(fn))
    import rules
    for f in C.fns:
        bad = ''
        rng = os.path.basename(f.file).startswith('random.')
        for n in C.calls[f]:
            nm = C.name(n)
            if n.k == 'bcall' and nm in CXX_ENTROPY and not rng:
                bad = bad or '%s: %s is used outside the random number generator' % (rules.at_line(f, n.line), nm)
            if n.k == 'mcall' and nm in ('begin', 'cbegin') and 'unordered' in (n.get('oty') or ''):
                bad = bad or '%s: the order of a hash table is used' % rules.at_line(f, n.line)
        for n in C.ir.find(C.W.cxx.lower.body(f), lambda n: n.k in ('foreach', 'decl')):
            ty = n.get('ty') or ''
            if n.k == 'foreach' and 'unordered' in ty:
                bad = bad or '%s: the order of a hash table is used' % rules.at_line(f, n.line)
            if n.k == 'decl' and not rng and any(x in ty for x in (
                    'random_device', 'mersenne_twister', 'linear_congruential', 'subtract_with_carry', 'std::thread',
                    'chrono::')):
                bad = bad or '%s: a %s is used outside the random number generator' % (rules.at_line(f, n.line), ty)
            if n.k == 'decl' and ADDRESS_ORDER.search(ty):
                bad = bad or '%s: objects are ordered by their addresses (%s)' % (rules.at_line(f, n.line), ty)
        R.functions.add(f.qname)
        R.calls += len(C.calls[f])
        if bad:
            R.add(rule, f.qname, 'violated', bad, rules.at_line(f))
    R.add(rule, 'c++', 'holds', '', '%d functions' % len(C.fns))


ADDRESS_ORDER = re.compile(r'\b(set|map|multimap|multiset|priority_queue)<\s*(const\s+)?[\w:]+(\s+const)?\s*\*')
CXX_ENTROPY = ('time', 'clock', 'gettimeofday', 'clock_gettime', 'rand', 'random', 'drand48', 'lrand48', 'srand', 'getpid',
               'now', 'rand_r', 'getenv', 'random_shuffle', 'pthread_create', 'async')


def entropy_call(L, fn, n):
    nm, rc = callname(n), receiver(n)
    if rc == 'random' or not rc and imported(L, fn, nm) in ('random', 'secrets', 'uuid'):
        return 'random numbers outside the backend'
    if (rc, nm) in (('os', 'urandom'), ('os', 'getpid'), ('os', 'getenv'), ('uuid', 'uuid4'), ('uuid', 'uuid1'),
                    ('secrets', 'token_bytes'), ('os', 'listdir'), ('glob', 'glob')):
        return '%s.%s' % (rc, nm)
    if isinstance(getattr(n, 'func', None), ast.Name) and nm in ('id', 'hash') and nm not in fn.params:
        return 'the address or hash of an object'
    return None


SETOPS = ('union', 'intersection', 'difference', 'symmetric_difference')


def isset(fn, e, depth=0):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset') or \
            isinstance(e.func, ast.Attribute) and e.func.attr in SETOPS and isset(fn, e.func.value, depth + 1)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return isset(fn, e.left, depth + 1) or isset(fn, e.right, depth + 1)
    if isinstance(e, ast.Name) and depth < 3:
        vs = [n.value for n in nodes(fn) if isinstance(n, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        return bool(vs) and all(isset(fn, v, depth + 1) for v in vs)
    return False


def unordered(fn, n):
    """the iteration order of a set is used"""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'enumerate', 'zip',
                                                                                'map', 'iter', 'next'):
        if any(isset(fn, a) for a in n.args):
            return 'the order of a set'
    if isinstance(n, ast.For) and isset(fn, n.iter):
        return 'the order of a set'
    if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) and any(isset(fn, g.iter) for g in n.generators):
        return 'the order of a set'
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and isset(fn, n.func.value):
        return 'the order of a set'
    return None


# ---------------------------------------------------------------- parallel execution, C++ side
MPI_COLLECTIVE = ('MPI_Bcast', 'MPI_Allreduce', 'MPI_Reduce', 'MPI_Barrier', 'MPI_Allgather', 'MPI_Allgatherv',
                  'MPI_Gather', 'MPI_Gatherv', 'MPI_Scatter', 'MPI_Scatterv', 'MPI_Alltoall', 'MPI_Alltoallv', 'MPI_Scan')
LOCAL_SOURCE = ('MPI_Comm_rank', 'myRank', 'isMaster', 'splitOverProcesses')


class Cxx(object):
    """call graph of the C++ program"""

    def __init__(self, W):
        import ir
        self.ir = ir
        self.W = W
        self.fns = []
        self.calls = {}
        for f in W.cxx.fns.values():
            if not f.file or getattr(f, 'raw', None) is None or 'stubs' in f.file:
                continue
            b = W.cxx.lower.body(f)
            if b is None:
                continue
            self.fns.append(f)
            self.calls[f] = ir.find(b, lambda n: n.k in ('call', 'bcall', 'mcall'))
        self.named = {}
        for f in self.fns:
            self.named.setdefault(f.name, []).append(f)

    def name(self, n):
        return n.key[1] if n.k == 'call' else n.fn if n.k == 'bcall' else n.m

    def collective(self):
        """functions that reach a collective operation -> which"""
        r = {}
        ch = True
        while ch:
            ch = False
            for f in self.fns:
                if f in r:
                    continue
                for n in self.calls[f]:
                    nm = self.name(n)
                    w = nm if n.k == 'bcall' and nm in MPI_COLLECTIVE else None
                    if n.k == 'call' or n.k == 'bcall' and nm not in MPI_COLLECTIVE:
                        for g in self.named.get(nm, []):
                            if g in r and (n.k != 'call' or g.cls == n.key[0] or g.cls is None or n.key[0] is None
                                           or g.virtual):
                                w = '%s -> %s' % (g.qname, r[g])
                    if w:
                        r[f] = w
                        ch = True
                        break
        return r


def cxx_collectives(R, world):
    """no collective operation of the backend is under a condition that differs between ranks"""
    rule = 'spmd:collectives'
    C = Cxx(world(True))
    coll = C.collective()
    names = {f.name for f in coll}
    for f in sorted(coll, key=lambda f: (f.qname, f.sig)):
        R.functions.add(f.qname)
        body = C.W.cxx.lower.body(f)
        tainted = {}

        def source(e):
            """why an expression is local to the rank"""
            if not isinstance(e, C.ir.N):
                if isinstance(e, (list, tuple)):
                    for x in e:
                        w = source(x)
                        if w:
                            return w
                return None
            if e.k in ('call', 'bcall'):
                nm = C.name(e)
                if nm in LOCAL_SOURCE:
                    return nm
                if nm in names:
                    return None          # the result of a collective operation is common
            if e.k == 'var' and e.id in tainted:
                return tainted[e.id]
            for v in e.d.values():
                w = source(v) if isinstance(v, (C.ir.N, list, tuple)) else None
                if w:
                    return w
            return None

        def mark(n):
            if n.k == 'decl' and n.get('init') is not None:
                w = source(n.init)
                if w and n.id not in tainted:
                    tainted[n.id] = w
            elif n.k in ('assign', 'opassign'):
                w = source(n.r)
                v = n.l
                while isinstance(v, C.ir.N) and v.k in ('index', 'field'):
                    v = v.o
                if w and isinstance(v, C.ir.N) and v.k == 'var' and v.id not in tainted:
                    tainted[v.id] = w
            elif n.k == 'bcall' and n.fn == 'MPI_Comm_rank':
                for v in C.ir.find(n.args[1:], lambda x: x.k == 'var'):
                    tainted.setdefault(v.id, 'the rank')
        for _ in range(3):
            C.ir.walk(body, mark)
        bad = []

        def go(n, gs):
            if isinstance(n, (list, tuple)):
                gs = list(gs)
                for x in n:
                    go(x, gs)
                    if isinstance(x, C.ir.N) and x.k == 'if' and C.ir.find(
                            [x.t, x.get('e')], lambda y: y.k in ('return', 'break', 'continue', 'throw')):
                        gs.append(x.c)
                return
            if not isinstance(n, C.ir.N):
                return
            if n.k in ('call', 'bcall'):
                nm = C.name(n)
                if nm in MPI_COLLECTIVE or nm in names and any(
                        g in coll and (n.k == 'bcall' or g.cls == n.key[0] or g.virtual or not g.cls)
                        for g in C.named.get(nm, [])):
                    R.calls += 1
                    for g in gs:
                        w = source(g)
                        if w:
                            bad.append((nm, w, n.line))
            if n.k in ('if', 'while', 'dowhile', 'cond', 'foreach', 'for'):
                c = [n.get('c'), n.get('it') if n.k == 'foreach' else None]
                for k, v in n.d.items():
                    go(v, gs + ([x for x in c if x is not None] if k not in ('c', 'it', 'init') else []))
                return
            for v in n.d.values():
                go(v, gs)
        go(body, [])
        import rules
        R.add(rule, f.qname + ('<%s>' % f.sig.replace(' ', '') if len([g for g in coll if g.qname == f.qname]) > 1 else ''),
              'violated' if bad else 'holds',
              '%s: the collective operation %s is reached only under a condition that depends on %s'
              % ((rules.at_line(f, bad[0][2]),) + bad[0][:2]) if bad else '', rules.at_line(f))


# ---------------------------------------------------------------- data shared by all objects
def scratch(R, world):
    """static data is not carried from one call to the next: a result never depends on what an
    earlier call (for this or another object) left in it, and a reference to it is not used
    after a call that may overwrite it"""
    import rules
    import terms as t
    rule = 'static:scratch'
    W = world()
    C = Cxx(W)
    uses = {}
    for f in C.fns:
        b = W.cxx.lower.body(f)
        for n in C.ir.find(b, lambda n: n.k == 'glob' or n.k == 'decl' and n.get('static')):
            uses.setdefault(n.name, {}).setdefault(f, []).append(n)
    written = set()
    for f in C.fns:
        b = W.cxx.lower.body(f)
        for n in C.ir.find(b, lambda n: n.k in ('assign', 'opassign', 'incdec', 'preinc', 'postinc', 'mcall', 'unop')):
            e = n.get('l') or n.get('o') or n.get('e')
            while isinstance(e, C.ir.N) and e.k in ('index', 'field', 'deref', 'mcall'):
                e = e.get('o') if e.get('o') is not None else e.get('e')
            if isinstance(e, C.ir.N) and e.k == 'glob':
                if n.k != 'mcall' or n.m not in ('size', 'begin', 'end', 'empty', 'cbegin', 'cend', 'at', 'front', 'back'):
                    written.add(e.name)
    # references handed out
    gives = {}
    for f in C.fns:
        if not (f.ret or f.sig).split('(')[0].strip().endswith('&'):
            continue
        for n in C.ir.find(W.cxx.lower.body(f), lambda n: n.k == 'return' and n.get('e') is not None):
            e = n.e
            while isinstance(e, C.ir.N) and e.k in ('cast', 'paren'):
                e = e.e
            if isinstance(e, C.ir.N) and e.k == 'glob':
                gives.setdefault(e.name, set()).add(f)
                written.add(e.name)
    for name in sorted(written):
        for f in sorted(uses.get(name, {}), key=lambda f: (f.qname, f.sig)):
            if os.path.basename(f.file).startswith(('random.', 'mpicommons.')):
                continue
            R.functions.add(f.qname)
            at = '%s:%s' % (f.qname, name)
            try:
                ev, out, thr = rules.logged(W, f, rules.OPAQUE)
            except rules.PROBLEMS as e:
                R.add(rule, at, 'undecided', str(e))
                continue
            bad = ''
            if out is not None:
                for root, v in sorted(out.m.items()):
                    handed = root == 'g:' + name and any(y[0] == 'loc' and y[1] == root for y in
                                                         rules.subterms(out.m.get('$ret', t.NONE)) if y)
                    if root != '$ret' and root != 'this' and not handed and not root.startswith('p') and root != '$heap':
                        continue
                    for y in rules.subterms(v):
                        if y and y[0] == 'in' and isinstance(y[1], str) and (name in y[1]):
                            bad = '%s: the result depends on what an earlier call left in %s (%s)' % (
                                rules.at_line(f), name, t.show(v)[:120])
            R.add(rule, at, 'violated' if bad else 'holds', bad, rules.at_line(f))
    # references that outlive the next call
    for name, fs in sorted(gives.items()):
        reach = set(fs)
        ch = True
        while ch:
            ch = False
            for f in C.fns:
                if f not in reach and any(n.k == 'call' and any(g in reach and (g.cls, g.name, g.sig) == tuple(n.key) for g in
                                                                  C.named.get(n.key[1], [])) for n in C.calls[f]):
                    reach.add(f)
                    ch = True
        direct = {(f.cls, f.name, f.sig) for f in fs}
        again = {(f.cls, f.name, f.sig) for f in reach}
        for f in C.fns:
            seq = []
            C.ir.walk(W.cxx.lower.body(f), seq.append)
            for i, n in enumerate(seq):
                if not (n.k == 'decl' and n.get('ref') and n.get('init') is not None):
                    continue
                e = n.init
                while isinstance(e, C.ir.N) and e.k in ('cast', 'paren'):
                    e = e.e
                if not (isinstance(e, C.ir.N) and e.k == 'call' and tuple(e.key) in direct):
                    continue
                R.calls += 1
                R.functions.add(f.qname)
                own = set()
                C.ir.walk(e, lambda x: own.add(id(x)))
                later = [j for j in range(i + 1, len(seq)) if seq[j].k == 'call' and tuple(seq[j].key) in again and
                         id(seq[j]) not in own]
                used = [j for j in range(i + 1, len(seq)) if seq[j].k == 'var' and seq[j].id == n.id]
                bad = any(q < u and not inside(C, seq[q], seq[u]) for q in later for u in used)
                # a loop that contains the call and a use, entered after the reference was made
                for l in seq[i + 1:]:
                    if l.k in ('while', 'for', 'foreach', 'dowhile'):
                        sub = set()
                        C.ir.walk(l, lambda x: sub.add(id(x)))
                        if any(id(seq[q]) in sub for q in later) and any(id(seq[u]) in sub for u in used):
                            bad = True
                R.add(rule, '%s:%s' % (f.qname, n.name), 'violated' if bad else 'holds',
                      '%s: the reference %s to the static %s is used after a call that overwrites it'
                      % (rules.at_line(f, n.line), n.name, name) if bad else '', rules.at_line(f, n.line))


def inside(C, call, var):
    """var is an argument of the call"""
    hit = []
    C.ir.walk(call, lambda x: hit.append(1) if x is var else None)
    return bool(hit)


# ---------------------------------------------------------------- objects that point into themselves
def self_pointers(R, world):
    """a copy of an object does not keep pointing into the object it was copied from"""
    import rules
    import terms as t
    rule = 'ownership:self-pointer'
    W = world()
    found = {}
    n = 0
    for f in sorted(W.cxx.fns.values(), key=lambda f: (f.qname, f.sig)):
        if not (f.isctor and f.body and not f.implicit):
            continue
        n += 1
        try:
            ev, out, thr = rules.logged(W, f, rules.OPAQUE)
        except rules.PROBLEMS:
            continue
        if out is None:
            continue
        me = out.m.get('this', t.NONE)
        if me[0] != 'upd':
            continue
        for fld, v in me[2]:
            if any(y and y[0] == 'loc' and y[1] == 'this' for y in rules.subterms(v)):
                found.setdefault(f.cls, {}).setdefault(fld, f)
    R.calls += n
    for cls, flds in sorted(found.items()):
        cc = [f for f in W.cxx.fns.values() if f.cls == cls and f.isctor and not f.implicit and f.body and
              len(f.params) == 1 and re.search(r'\b%s\b' % cls, f.params[0].type) and 'vector' not in f.params[0].type]
        for fld, f in sorted(flds.items()):
            R.functions.add(f.qname)
            at = '%s:%s' % (cls, fld)
            if not cc:
                if deleted_copy(W, cls):
                    R.add(rule, at, 'holds', '', 'not copyable')
                    continue
                R.add(rule, at, 'violated', '%s: %s points into the object itself, but %s has no copy constructor of its '
                      'own: a copy works on the data of the original' % (rules.at_line(f), fld, cls), rules.at_line(f))
                continue
            for g in cc:
                R.functions.add(g.qname)
                try:
                    ev, out, thr = rules.logged(W, g, rules.OPAQUE)
                except rules.PROBLEMS as e:
                    R.add(rule, at, 'undecided', str(e))
                    continue
                v = t.fld(out.m.get('this', t.NONE), fld) if out is not None else t.NONE
                other = any(y and (y[0] == 'loc' and y[1] == 'p0' or
                                   y[0] == 'fld' and y[2] == fld and y[1][0] == 'in' and y[1][1] == 'p0')
                            for y in elements(v))
                R.add(rule, at, 'violated' if other else 'holds',
                      '%s: %s still points into the original' % (rules.at_line(g), fld) if other else '', rules.at_line(g))


def elements(v):
    """subterms of v that can be elements (sizes are not)"""
    todo = [v]
    while todo:
        y = todo.pop()
        if not isinstance(y, tuple) or not y:
            continue
        yield y
        if y[0] in ('size', 'lt', 'le', 'eq'):
            continue
        todo.extend(z for z in (y[3:] if y[0] in ('map', 'flat') else y[1:]) if isinstance(z, tuple))


def deleted_copy(W, cls):
    return False


# ---------------------------------------------------------------- products in a narrow type
NARROW = ('int', 'unsigned int', 'unsigned', 'short', 'unsigned short', 'char', 'int32_t', 'uint32_t')
WIDE = ('long', 'unsigned long', 'long long', 'unsigned long long', 'size_t', 'std::size_t', 'int64_t', 'uint64_t')


def plain_type(ty):
    return re.sub(r'\b(const|volatile)\b|&', '', ty or '').strip()


def int_products(R, world):
    """the multiplicity is computed without products in a type that the number of choices does not fit into"""
    import rules
    rule = 'range:int-product'
    W = world()
    C = Cxx(W)
    todo = [f for f in C.fns if f.name == 'multiplicity']
    if not todo:
        R.add(rule, 'multiplicity', 'undecided', 'no function multiplicity')
    seen = []
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.append(f)
        for n in C.calls[f]:
            if n.k == 'call':
                todo.extend(g for g in C.named.get(n.key[1], []) if g.cls == n.key[0])
    for f in sorted(seen, key=lambda f: (f.qname, f.sig)):
        body = W.cxx.lower.body(f)
        R.functions.add(f.qname)
        types = {p.id: plain_type(p.type) for p in f.params}
        for n in C.ir.find(body, lambda n: n.k == 'decl'):
            types[n.id] = plain_type(n.ty)
        verdict, bad = 'holds', ''
        for loop in C.ir.find(body, lambda n: n.k in ('while', 'dowhile', 'for', 'foreach')):
            for n in C.ir.find([v for v in loop.d.values()], lambda n: n.k in ('opassign', 'assign')):
                v = n.l
                if not (isinstance(v, C.ir.N) and v.k == 'var'):
                    continue
                if n.k == 'opassign' and n.op != '*' or n.get('r') is None:
                    continue
                if n.k == 'opassign' and not C.ir.find(n.r, lambda x: x.k in ('var', 'call', 'index', 'field')):
                    continue
                if n.k == 'assign' and not C.ir.find(n.r, lambda x: x.k == 'bin' and x.op == '*' and C.ir.find(
                        x, lambda y: y.k == 'var' and y.id == v.id)):
                    continue
                R.calls += 1
                ty = types.get(v.id, '')
                if ty in NARROW:
                    verdict = 'violated'
                    bad = '%s: the product %s of numbers of particles is accumulated in type %s, which it soon exceeds' % (
                        rules.at_line(f, n.line or loop.line), dict((x.id, x.name) for x in C.ir.find(
                            body, lambda x: x.k == 'decl')).get(v.id, v.get('name')), ty)
                elif ty in WIDE and verdict == 'holds':
                    verdict, bad = 'undecided', 'a product is accumulated in a 64 bit integer'
        if plain_type(f.ret or f.sig.split('(')[0]) in NARROW and C.ir.find(body, lambda n: n.k == 'return' and C.ir.find(
                n, lambda x: x.k == 'bin' and x.op == '*' and C.ir.find(x, lambda y: y.k == 'call' and tuple(
                    y.key[:2]) == (f.cls, f.name)))):
            verdict, bad = 'violated', '%s: recursive product of type %s' % (rules.at_line(f), f.ret)
        R.add(rule, f.qname, verdict, bad, rules.at_line(f))


# ---------------------------------------------------------------- memoised results
def stale_memo(R, world):
    """an object that is built once and returned again is built from the arguments of the call only when a
    later call with other arguments builds it anew"""
    rule = 'memo:key'
    L = Layer()
    S = Sharing(L)
    for fn in L.fns:
        if not fn.me or len(fn.params) < 2:
            continue
        derived = {p: {p} for p in fn.params if p != fn.me}

        def of(e):
            r = set()
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and x.id in derived:
                    r |= derived[x.id]
            return r
        for _ in range(4):
            for n in nodes(fn):
                tg, v = [], None
                if isinstance(n, ast.Assign):
                    tg, v = n.targets, n.value
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                    tg, v = [n.target], n.value
                elif isinstance(n, ast.For):
                    tg, v = [n.target], n.iter
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                        'append', 'push_back', 'extend', 'insert') and isinstance(n.func.value, ast.Name):
                    tg, v = [n.func.value], ast.Tuple(elts=n.args, ctx=ast.Load())
                elif isinstance(n, (ast.If, ast.While)):
                    # what is assigned under a condition depends on it
                    for m in ast.walk(n):
                        if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                            tg.append(m)
                    v = n.test
                w = of(v) if v is not None else set()
                for x in tg:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and (isinstance(y.ctx, ast.Store) or y is x) and w:
                            derived.setdefault(y.id, set()).update(w)
        tests = [n.test for n in nodes(fn) if isinstance(n, (ast.If, ast.IfExp, ast.While))]
        written = {}
        for n in nodes(fn):
            if isinstance(n, ast.Assign):
                for tg in n.targets:
                    a = S.attr(fn, tg)
                    if a:
                        written.setdefault(a[2], []).append(n)
        for a, ns in sorted(written.items()):
            if not any(none_test(fn, x, a) for x in tests):
                continue
            if not any(isinstance(n, ast.Return) and n.value is not None and any(
                    S.attr(fn, y) and S.attr(fn, y)[2] == a for y in ast.walk(n.value)) for n in nodes(fn)):
                continue
            w = set().union(*[of(n.value) for n in ns])
            # arguments that only name the object in a script or message are no input
            R.functions.add(fn.qname)
            R.calls += 1
            keyed = set()
            for x in tests:
                mine = any(isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == fn.me and
                           y.attr != a for y in ast.walk(x))
                if mine:
                    keyed |= of(x)
            miss = sorted(w - keyed)
            R.add(rule, '%s:%s' % (fn.qname, a), 'violated' if miss else 'holds',
                  '%s: the stored %s depends on %s, but is returned for other values of it, too'
                  % (at(fn, ns[0]), a, ', '.join(miss)) if miss else '', at(fn))


def none_test(fn, x, a):
    """x tests whether attribute a is there"""
    def mine(e):
        return isinstance(e, ast.Attribute) and e.attr == a and isinstance(e.value, ast.Name) and e.value.id == fn.me
    for y in ast.walk(x):
        if isinstance(y, ast.Compare) and len(y.ops) == 1 and isinstance(y.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            l, r = y.left, y.comparators[0]
            for p, q in ((l, r), (r, l)):
                if mine(p) and isinstance(q, ast.Constant) and q.value is None:
                    return True
        if isinstance(y, ast.UnaryOp) and isinstance(y.op, ast.Not) and mine(y.operand):
            return True
        if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == 'hasattr' and len(y.args) == 2 and \
                isinstance(y.args[1], ast.Constant) and y.args[1].value == a:
            return True
    return mine(x)
