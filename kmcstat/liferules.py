"""Structural rules about life times and definite values (syntax trees, no execution).

borrowed     Python keeps every object alive that a backend object keeps a reference to
dangling     no reference, pointer or iterator is used after what it refers to is gone
members      a constructor gives every plain member a value
unset        no local variable is used before it has a value
unresolved   every name, own method and own attribute that Python code uses exists, and
             project functions are called with arguments they accept
"""
import ast
import builtins
import os
import re
import pyrules
from pyrules import Layer, Cxx, nodes, at

SCALAR = re.compile(r'^(const )?(unsigned |signed )?(bool|char|short|int|long|long long|long int|unsigned|float|double|'
                    r'size_t|std::size_t|unsigned long|unsigned int|[\w:]+ \*|.*\*)$')


def stripcv(ty):
    return re.sub(r'\s+', ' ', re.sub(r'\b(const|volatile)\b', ' ', ty or '')).strip()


def scalar(ty):
    ty = stripcv(ty)
    return bool(SCALAR.match(ty)) and not ty.endswith('&')


def reference(ty):
    return (ty or '').rstrip().endswith('&')


def pointer(ty):
    return (ty or '').rstrip().rstrip('const').rstrip().endswith('*')


# ---------------------------------------------------------------- C++: what constructors keep references to
def strip(e, C):
    while isinstance(e, C.ir.N) and e.k in ('cast', 'paren', 'load', 'copy', 'decay'):
        e = e.e
    return e


def borrows(W, C):
    """class -> constructor -> parameter positions of which the object keeps a reference"""
    refs = {}                       # class -> constructor -> {position: field}
    fields = {c: {n: ty for n, ty, st in k.fields if not st} for c, k in W.cxx.classes.items()}
    ctors = [f for f in W.cxx.fns.values() if f.isctor and f.body and not f.implicit and f.cls in fields]
    for f in ctors:
        W.cxx.lower.body(f)
    for _ in range(4):
        for f in ctors:
            pos = {p.id: i for i, p in enumerate(f.params)}
            for name, e, ty in f.inits:
                if e is None:
                    continue
                fty = fields[f.cls].get(name) if name else None
                x = strip(e, C)
                if name and fty and (reference(fty) or pointer(fty)):
                    if x is not None and x.k == 'addr':
                        x = strip(x.e, C)
                    cond = [x]
                    if x is not None and x.k == 'cond':
                        cond = [strip(x.t, C), strip(x.e, C)] if x.get('t') is not None else []
                    for y in cond:
                        if y is not None and y.k == 'var' and y.id in pos:
                            refs.setdefault(f.cls, {}).setdefault(f.key, {})[pos[y.id]] = name
                elif x is not None and x.k in ('new', 'bctor', 'call') and x.get('cls') in refs and x.get('args'):
                    for key, m in refs[x.cls].items():
                        if tuple(x.get('ctor').key if x.get('ctor') is not None else ()) != tuple(key):
                            continue
                        for i in m:
                            if i < len(x.args):
                                y = strip(x.args[i], C)
                                if y is not None and y.k == 'var' and y.id in pos:
                                    refs.setdefault(f.cls, {}).setdefault(f.key, {})[pos[y.id]] = name or 'base'
    return refs


class Kept(object):
    """whether something else than the local scope keeps a Python value alive"""

    def __init__(self, L):
        self.L = L

    def attribute(self, fn, e):
        return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == fn.me and fn.me

    def stored(self, fn, name):
        """the local name is also stored in the object"""
        for n in nodes(fn):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == name:
                if any(self.attribute(fn, x) or isinstance(x, ast.Subscript) and self.attribute(fn, x.value)
                       for x in n.targets):
                    return True
            if isinstance(n, ast.Assign) and len(n.targets) > 1 and any(self.attribute(fn, x) for x in n.targets) and any(
                    isinstance(x, ast.Name) and x.id == name for x in n.targets):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and self.attribute(fn, n.func.value) and \
                    n.func.attr in ('append', 'add', 'insert') and any(isinstance(a, ast.Name) and a.id == name
                                                                       for a in n.args):
                return True
        return False

    def test(self, fn, e, depth=0):
        """'' when kept, a reason when certainly not, None when not known"""
        if depth > 6:
            return None
        if self.attribute(fn, e):
            return ''
        if isinstance(e, ast.IfExp):
            return worst([self.test(fn, e.body, depth + 1), self.test(fn, e.orelse, depth + 1)])
        if isinstance(e, ast.Name):
            if e.id in fn.params:
                return ''
            if self.stored(fn, e.id):
                return ''
            vals = [n.value for n in nodes(fn) if isinstance(n, ast.Assign) and any(
                isinstance(x, ast.Name) and x.id == e.id for x in n.targets)]
            if not vals:
                return None
            return worst([self.test(fn, v, depth + 1) for v in vals])
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'Backend':
                return 'the object made by Backend.%s(...) is only held by a local name' % f.attr
            if isinstance(f, ast.Attribute):
                if self.attribute(fn, f.value) or isinstance(f.value, ast.Name):
                    base = '' if isinstance(f.value, ast.Name) and f.value.id == fn.me else self.test(fn, f.value, depth + 1)
                    gs = self.L.called(e, fn)
                    if not gs or base is None:
                        return None
                    if base:
                        return base
                    return worst([self.result(g, depth + 1) for g in gs])
        return None

    def result(self, g, depth):
        rs = [n for n in nodes(g) if isinstance(n, ast.Return) and n.value is not None]
        if not rs:
            return None
        return worst([self.test(g, r.value, depth + 1) for r in rs])


def worst(rs):
    bad = [r for r in rs if r]
    if bad:
        return bad[0]
    return None if any(r is None for r in rs) or not rs else ''


def borrowed(R, world):
    rule = 'lifetime:borrowed'
    W = world()
    C = Cxx(W)
    L = Layer()
    K = Kept(L)
    refs = borrows(W, C)
    n = 0
    for fn in L.fns:
        for c in nodes(fn):
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name)
                    and c.func.value.id == 'Backend' and c.func.attr in refs):
                continue
            if c.keywords or any(isinstance(a, ast.Starred) for a in c.args):
                R.add(rule, '%s:%s' % (fn.qname, c.func.attr), 'undecided', 'arguments not positional')
                continue
            pos = {}
            for key, m in refs[c.func.attr].items():
                f = W.cxx.fns[key]
                need = len([p for p in f.params if p.default is None])
                if need <= len(c.args) <= len(f.params):
                    for i, fld in m.items():
                        pos[i] = fld
            for i, fld in sorted(pos.items()):
                if i >= len(c.args):
                    continue
                n += 1
                R.functions.add(fn.qname)
                r = K.test(fn, c.args[i])
                k = '%s:%s:%s' % (fn.qname, c.func.attr, fld)
                if r is None:
                    R.add(rule, k, 'undecided', 'not known what keeps %s' % ast.unparse(c.args[i]))
                else:
                    R.add(rule, k, 'violated' if r else 'holds',
                          '%s: the %s keeps a reference (%s) to %s, which is gone when the function returns: %s' % (
                              at(fn, c), c.func.attr, fld, ast.unparse(c.args[i]), r) if r else '', at(fn, c))
    R.calls += n


# ---------------------------------------------------------------- C++: references to what is gone
GROWS = ('push_back', 'emplace_back', 'insert', 'resize', 'clear', 'reserve', 'swap', 'assign', 'shrink_to_fit')
VIEW = ('begin', 'end', 'back', 'front', 'at', 'rbegin', 'cbegin', 'data', 'find')


def path_of(e, C):
    """the object an access path names: ('x', field, ...) without indices, or None"""
    e = strip(e, C)
    if not isinstance(e, C.ir.N):
        return None
    if e.k == 'var':
        return ('v', e.id)
    if e.k == 'this':
        return ('this',)
    if e.k == 'glob':
        return ('g', e.name)
    if e.k == 'field':
        p = path_of(e.o, C)
        return p and p + (e.f,)
    if e.k == 'deref':
        return path_of(e.e, C)
    if e.k == 'index':
        p = path_of(e.o, C)
        return p and p + ('[]',)
    return None


def container_of(e, C):
    """(container path, kind of access) of a reference to an element or an iterator"""
    e = strip(e, C)
    if not isinstance(e, C.ir.N):
        return None
    if e.k == 'addr':
        return container_of(e.e, C)
    if e.k == 'deref':
        return container_of(e.e, C)
    if e.k == 'index':
        return path_of(e.o, C), 'element', e.get('oty')
    if e.k == 'mcall' and e.m in VIEW:
        return path_of(e.o, C), e.m, e.get('oty')
    if e.k == 'field':
        return container_of(e.o, C)
    if e.k == 'bin' and e.op in '+-':
        return container_of(e.a, C)
    return None


def dangling(R, world):
    """uses of references after the container has changed, references to locals handed out"""
    rule = 'lifetime:dangling'
    W = world()
    C = Cxx(W)
    ir = C.ir
    for f in sorted(C.fns, key=lambda f: (f.qname, f.sig)):
        body = W.cxx.lower.body(f)
        R.functions.add(f.qname)
        bad = handed_out(W, C, f, body)
        byval = {p.id: p.name for p in f.params if not reference(p.type) and not pointer(p.type)}
        fields = {n: ty for n, ty, st in W.cxx.classes[f.cls].fields} if f.cls in W.cxx.classes else {}
        if f.isctor:
            for name, e, ty in f.inits:
                if name and e is not None and (reference(fields.get(name)) or pointer(fields.get(name))):
                    x = strip(e, C)
                    if x.k == 'addr':
                        x = strip(x.e, C)
                    elif pointer(fields.get(name)):
                        continue
                    if x.k == 'var' and x.id in byval:
                        bad = bad or '%s refers to the argument %s, which is a copy that ends with the call' % (
                            name, byval[x.id])
        bad = bad or invalidated(W, C, f, body, R)
        import rules
        R.add(rule, '%s%s' % (f.qname, f.sig[f.sig.index('('):].replace(' ', '') if '(' in f.sig else ''),
              'violated' if bad else 'holds', '%s: %s' % (rules.at_line(f), bad) if bad else '')


def handed_out(W, C, f, body):
    ret = (f.ret or f.sig.split('(')[0]).strip()
    if not (ret.endswith('&') or ret.endswith('*')):
        return ''
    local = {p.id: p.name for p in f.params if not reference(p.type) and not pointer(p.type)}
    for d in C.ir.find(body, lambda n: n.k == 'decl'):
        if not d.get('static') and not reference(d.ty) and not pointer(d.ty):
            local[d.id] = d.name
    for n in C.ir.find(body, lambda n: n.k == 'return' and n.get('e') is not None):
        e = strip(n.e, C)
        if ret.endswith('*'):
            if e.k != 'addr':
                continue
            e = strip(e.e, C)
        while isinstance(e, C.ir.N) and (e.k == 'field' or e.k == 'index' and not pointer(e.get('oty'))):
            if e.k == 'field' and e.get('arrow'):
                return ''
            e = strip(e.o, C)
        if isinstance(e, C.ir.N) and e.k == 'var' and e.id in local:
            return 'hands out a reference to its local variable %s' % local[e.id]
    return ''


def invalidated(W, C, f, body, R):
    """a reference or iterator is used after its container was changed, on a path without a new value"""
    ir = C.ir
    N = ir.N
    found = []

    def is_iter(ty):
        return 'iterator' in (ty or '')

    class St(object):
        def __init__(self, refs=None, dead=None):
            self.refs = dict(refs or {})       # id -> (container path, how, name)
            self.dead = dict(dead or {})       # id -> why

        def copy(self):
            return St(self.refs, self.dead)

    def merge(a, b):
        """only what is certain on both"""
        if a is None:
            return b
        if b is None:
            return a
        return St({k: v for k, v in a.refs.items() if b.refs.get(k) == v},
                  {k: v for k, v in a.dead.items() if k in b.dead})

    def bind(st, id, name, e):
        c = container_of(e, C)
        st.dead.pop(id, None)
        st.refs.pop(id, None)
        if c and c[0] and not is_assoc(c[2] if len(c) > 2 else ''):
            st.refs[id] = (c[0], c[1], name)
            R.calls += 1
        else:
            x = strip(e, C)
            if isinstance(x, N) and x.k == 'var' and x.id in st.refs:
                st.refs[id] = st.refs[x.id][:2] + (name,)

    def is_assoc(ty):
        return bool(re.search(r'\b(map|set|list|deque)<', ty or ''))

    def kill(st, path, why, only=None):
        for k, (p, how, name) in list(st.refs.items()):
            if p == path and (only is None or how in only):
                st.dead[k] = '%s (to an element of %s)' % (name, why)
            elif p[:len(path)] == path and len(p) > len(path) and only is None:
                st.dead[k] = '%s (to an element of %s)' % (name, why)

    def expr(e, st, lhs=False):
        if not isinstance(e, N):
            if isinstance(e, (list, tuple)):
                for x in e:
                    expr(x, st)
            return
        if e.k == 'lambda':
            return
        if e.k == 'var':
            if e.id in st.dead:
                found.append((e.line, st.dead[e.id]))
            return
        if e.k in ('and', 'or'):
            expr(e.a, st)
            s2 = st.copy()
            expr(e.b, s2)
            return
        if e.k == 'cond':
            expr(e.c, st)
            for x in (e.get('t'), e.get('e')):
                expr(x, st.copy())
            return
        if e.k == 'assign':
            expr(e.r, st)
            l = strip(e.l, C)
            if isinstance(l, N) and l.k == 'var' and (l.id in iters or l.id in ptrs):
                bind(st, l.id, iters.get(l.id) or ptrs.get(l.id), e.r)
                return
            expr(e.l, st)
            p = path_of(e.l, C)
            ty = e.l.get('ty') if isinstance(e.l, N) else ''
            if p and l.k in ('var', 'field') and l.k == 'field' and re.search(r'\bvector<', l.get('ty') or '') and False:
                kill(st, p, 'that is assigned')
            return
        if e.k == 'mcall':
            expr(e.args, st)
            expr(e.o, st)
            if e.m in GROWS:
                p = path_of(e.o, C)
                if p and not is_assoc(e.get('oty')):
                    kill(st, p, 'a sequence that %s has changed' % e.m)
            elif e.m == 'pop_back':
                p = path_of(e.o, C)
                if p:
                    kill(st, p, 'a sequence that pop_back has changed', ('back', 'end'))
            elif e.m == 'erase' and e.args:
                x = strip(e.args[0], C)
                p = path_of(e.o, C)
                if p and isinstance(x, N) and x.k == 'var' and x.id in st.refs and st.refs[x.id][0] == p:
                    st.dead[x.id] = '%s (to the element that erase has removed)' % st.refs[x.id][2]
                elif p and len(e.args) == 1 and isinstance(x, N) and x.k == 'mcall' and x.m == 'begin':
                    kill(st, p, 'a sequence that erase has changed', None)
            return
        for v in e.d.values():
            expr(v, st)

    def stmt(s, st):
        """state after s, None when control does not get there"""
        if s is None:
            return st
        if isinstance(s, (list, tuple)):
            for x in s:
                if st is None:
                    return None
                st = stmt(x, st)
            return st
        if s.k == 'block':
            return stmt(s.body, st)
        if s.k == 'decl':
            expr(s.get('init'), st)
            if s.get('init') is not None and (reference(s.ty) or pointer(s.ty) or is_iter(s.ty)):
                bind(st, s.id, s.name, s.init)
            return st
        if s.k == 'expr':
            expr(s.e, st)
            return st
        if s.k == 'if':
            expr(s.c, st)
            a = stmt(s.t, st.copy())
            b = stmt(s.get('e'), st.copy())
            return merge(a, b)
        if s.k in ('while', 'dowhile'):
            e0 = st.copy()
            if s.k == 'while':
                expr(s.c, e0)
            one = stmt(s.body, e0.copy())
            if one is not None:
                if s.get('step') is not None:
                    expr(s.step, one)
                expr(s.c, one)
                # a second round
                two = stmt(s.body, one.copy())
            return merge(e0, one) if s.k == 'while' else (one or e0)
        if s.k == 'foreach':
            expr(s.it, st)
            e0 = st.copy()
            p = path_of(s.it, C)
            inner = e0.copy()
            if p and s.get('ref'):
                inner.refs[s.var] = (p, 'element', s.name)
                inner.dead.pop(s.var, None)
            mark = len(found)
            one = stmt(s.body, inner)
            if p and one is not None and isinstance(strip(s.it, C), N):
                # the loop goes on over a container that the body has certainly changed
                probe = St({'loop': (p, 'element', 'the position of the loop')})
                o = stmt_silent(s.body, probe)
                if o is not None and 'loop' in o.dead:
                    found.append((s.line, o.dead['loop']))
            return merge(e0, one)
        if s.k == 'switch':
            expr(s.c, st)
            out = st.copy()
            for labels, body in s.groups:
                out = merge(out, stmt(body, st.copy()))
            return out
        if s.k == 'return':
            expr(s.get('e'), st)
            return None
        if s.k in ('break', 'continue'):
            return None
        if s.k == 'throw':
            expr(s.get('e'), st)
            return None
        if s.k == 'try':
            a = stmt(s.body, st.copy())
            for h in s.handlers:
                stmt(h[-1], st.copy())
            return a
        for v in s.d.values():
            expr(v, st)
        return st

    def stmt_silent(s, st):
        n = len(found)
        r = stmt(s, st)
        del found[n:]
        return r

    iters = {d.id: d.name for d in ir.find(body, lambda n: n.k == 'decl' and is_iter(n.ty))}
    ptrs = {d.id: d.name for d in ir.find(body, lambda n: n.k == 'decl' and pointer(n.ty))}
    stmt(body, St())
    if found:
        return 'uses %s' % found[0][1]
    return ''


# ---------------------------------------------------------------- C++: members and locals without a value
def members(R, world):
    rule = 'value:member'
    W = world()
    C = Cxx(W)
    import rules
    made = set()                    # classes of which objects are made without arguments
    for f in C.fns:
        b = W.cxx.lower.body(f)
        for n in C.ir.find([b] + [e for m, e, _ in f.inits if m], lambda n: n.k == 'new' and not n.get('args')):
            made.add(n.cls)
        for n, e, ty in f.inits:
            if n is None and e is not None and e.k == 'new' and not e.get('args') and f.params:
                made.add(e.cls)
    for fn in Layer().fns:
        for n in nodes(fn):
            if isinstance(n, ast.Call) and not n.args and isinstance(n.func, ast.Attribute) and isinstance(
                    n.func.value, ast.Name) and n.func.value.id == 'Backend':
                made.add(n.func.attr)
    for cls, k in sorted(W.cxx.classes.items()):
        given = getattr(k, 'given', set())
        plain = [n for n, ty, st in k.fields if not st and scalar(ty) and n not in given]
        ctors = [f for f in W.cxx.fns.values() if f.cls == cls and f.isctor and f.body and not f.implicit]
        readers = {}
        for f in C.fns:
            if f.cls != cls:
                continue
            for n in C.ir.find(W.cxx.lower.body(f), lambda n: n.k == 'field' and n.f in plain and
                               isinstance(n.o, C.ir.N) and strip(n.o, C).k in ('this', 'deref')):
                readers.setdefault(n.f, set()).add(f.qname)
        for f in ctors:
            body = W.cxx.lower.body(f)
            R.functions.add(f.qname)
            have = {n for n, e, ty in f.inits if n}
            if any(n is None and e is not None and e.k in ('new', 'call') and e.get('cls') == cls for n, e, ty in f.inits):
                continue            # delegates
            for fld in plain:
                a = '%s%s:%s' % (f.qname, f.sig[f.sig.index('('):].replace(' ', ''), fld)
                if fld in have or definitely(W, C, body, fld, set()):
                    R.add(rule, a, 'holds')
                elif not f.params and not have & set(plain) and cls not in made:
                    R.add(rule, a, 'holds', '', 'no such object is ever made')
                elif not assigned(W, C, f, fld, set()):
                    R.add(rule, a, 'violated' if readers.get(fld) else 'holds',
                          '%s: the member %s gets no value, but %s reads it' % (
                              rules.at_line(f), fld, ', '.join(sorted(readers[fld])[:3])) if readers.get(fld) else '')
                else:
                    R.add(rule, a, 'undecided', 'assigned on some paths')


def callee(W, n):
    f = W.cxx.fns.get(tuple(n.key))
    return f if f is not None and f.body and getattr(f, 'raw', None) is not None else None


def sets_field(n, fld, C):
    if n.k == 'assign':
        l = strip(n.l, C)
        return isinstance(l, C.ir.N) and l.k == 'field' and l.f == fld and strip(l.o, C).k in ('this', 'deref')
    return False


def definitely(W, C, s, fld, seen):
    """every path through s assigns the member"""
    if s is None:
        return False
    if isinstance(s, (list, tuple)):
        return any(definitely(W, C, x, fld, seen) for x in s)
    if s.k == 'block':
        return definitely(W, C, s.body, fld, seen)
    if s.k == 'if':
        return definitely(W, C, s.t, fld, seen) and s.get('e') is not None and definitely(W, C, s.e, fld, seen)
    if s.k in ('expr', 'decl', 'return'):
        return assigns(W, C, s, fld, seen, definitely)
    if s.k == 'dowhile':
        return definitely(W, C, s.body, fld, seen)
    if s.k == 'try':
        return definitely(W, C, s.body, fld, seen)
    return False


def assigns(W, C, s, fld, seen, inner):
    hit = []

    def see(n):
        if sets_field(n, fld, C):
            hit.append(1)
        elif n.k == 'addr' and strip(n.e, C).k == 'field' and strip(n.e, C).f == fld:
            hit.append(1)
        elif n.k == 'call':
            g = callee(W, n)
            for a, p in zip(n.args, g.params if g else []):
                x = strip(a, C)
                if isinstance(x, C.ir.N) and x.k == 'field' and x.f == fld and reference(p.type):
                    hit.append(1)
            if g is not None and g not in seen and g.cls and n.get('recv') is not None and \
                    strip(n.recv, C).k in ('this', 'deref'):
                b = W.cxx.lower.body(g)
                if inner(W, C, b, fld, seen | {g}):
                    hit.append(1)
        elif n.k in ('bcall', 'mcall', 'dyncall'):
            for a in n.get('args') or ():
                x = strip(a, C)
                if isinstance(x, C.ir.N) and x.k == 'field' and x.f == fld and n.k == 'bcall' and n.fn != 'operator<<':
                    hit.append(1)
    C.ir.walk(s, see)
    return bool(hit)


def assigned(W, C, f, fld, seen):
    """some statement of the constructor (or of what it calls) may assign the member"""
    def anywhere(W, C, b, fld, seen):
        return assigns(W, C, b, fld, seen, anywhere)
    return anywhere(W, C, W.cxx.lower.body(f), fld, seen)


def unset_cxx(R, world):
    """plain locals of C++ functions are assigned before they are read (certain cases only)"""
    rule = 'value:local'
    W = world()
    C = Cxx(W)
    import rules
    N = C.ir.N
    for f in sorted(C.fns, key=lambda f: (f.qname, f.sig)):
        body = W.cxx.lower.body(f)
        names = {d.id: d.name for d in C.ir.find(body, lambda n: n.k == 'decl' and n.get('init') is None and
                                                 not n.get('static') and scalar(n.ty))}
        if not names:
            continue
        R.functions.add(f.qname)
        found = {}

        def expr(e, un, skip=False):
            """un: the locals that certainly have no value yet; updated in place"""
            if not isinstance(e, N):
                if isinstance(e, (list, tuple)):
                    for x in e:
                        expr(x, un)
                return
            if e.k == 'var':
                if e.id in un and not skip:
                    found.setdefault(e.id, e.line)
                return
            if e.k == 'assign':
                expr(e.r, un)
                l = strip(e.l, C)
                if isinstance(l, N) and l.k == 'var':
                    un.discard(l.id)
                else:
                    expr(e.l, un)
                return
            if e.k == 'addr' or e.k == 'lambda':
                for x in C.ir.find(e, lambda n: n.k == 'var'):
                    un.discard(x.id)
                return
            if e.k in ('and', 'or'):
                expr(e.a, un)
                expr(e.b, set(un))
                for x in C.ir.find(e.b, lambda n: n.k == 'assign'):
                    l = strip(x.l, C)
                    if isinstance(l, N) and l.k == 'var':
                        un.discard(l.id)
                return
            if e.k == 'cond':
                expr(e.c, un)
                a, b = set(un), set(un)
                expr(e.get('t'), a)
                expr(e.get('e'), b)
                un &= a & b
                return
            if e.k in ('call', 'bcall', 'mcall', 'dyncall', 'bctor', 'new', 'unknown'):
                g = callee(W, e) if e.k == 'call' else None
                for i, a in enumerate(e.get('args') or ()):
                    x = strip(a, C)
                    if isinstance(x, N) and x.k == 'var' and x.id in un:
                        if g is not None and i < len(g.params) and not reference(g.params[i].type):
                            expr(a, un)
                        else:
                            un.discard(x.id)
                    else:
                        expr(a, un)
                for k in ('o', 'recv', 'f'):
                    expr(e.get(k), un)
                return
            for v in e.d.values():
                expr(v, un)

        def stmt(s, un):
            if s is None or un is None:
                return un
            if isinstance(s, (list, tuple)):
                for x in s:
                    un = stmt(x, un)
                    if un is None:
                        return None
                return un
            if s.k == 'block':
                return stmt(s.body, un)
            if s.k == 'decl':
                if s.id in names:
                    un.add(s.id)
                else:
                    expr(s.get('init'), un)
                    if s.get('init') is not None and reference(s.ty):
                        x = strip(s.init, C)
                        if isinstance(x, N) and x.k == 'var':
                            un.discard(x.id)
                return un
            if s.k == 'if':
                expr(s.c, un)
                a, b = stmt(s.t, set(un)), stmt(s.get('e'), set(un))
                return b if a is None else a if b is None else a & b
            if s.k == 'while':
                expr(s.c, un)
                a = stmt(s.body, set(un))
                if a is not None and s.get('step') is not None:
                    expr(s.step, a)
                # anything assigned in the body may have a value afterwards
                return un & a if a is not None else un - touched(s)
            if s.k == 'dowhile':
                a = stmt(s.body, un)
                if a is not None:
                    expr(s.c, a)
                return a
            if s.k == 'foreach':
                expr(s.it, un)
                a = stmt(s.body, set(un))
                return un & a if a is not None else un - touched(s)
            if s.k == 'switch':
                expr(s.c, un)
                out = set(un)
                for labels, b in s.groups:
                    x = stmt(b, set(un))
                    out = out & x if x is not None else out - touched(s)
                return out
            if s.k == 'try':
                a = stmt(s.body, set(un))
                return (a if a is not None else un) - touched(s)
            if s.k in ('return', 'throw'):
                expr(s.get('e'), un)
                return None
            if s.k in ('break', 'continue'):
                return None
            for v in s.d.values():
                expr(v, un)
            return un

        def touched(s):
            return {x.id for x in C.ir.find(s, lambda n: n.k == 'var')}

        stmt(body, set())
        for id, name in sorted(names.items(), key=lambda kv: kv[1]):
            R.calls += 1
            R.add(rule, '%s:%s' % (f.qname, name), 'violated' if id in found else 'holds',
                  '%s: %s is read before it has a value' % (rules.at_line(f, found[id]), name) if id in found else '')


# ---------------------------------------------------------------- Python: names, attributes, arguments
def bound_names(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            out |= set(n.names)
    return out


def module_names(tree):
    out = {'__name__', '__file__', '__doc__', '__builtins__', '__path__', '__package__', '__spec__', '__loader__', '__class__'}
    star = False
    todo = list(tree.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name == '*':
                    star = True
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            pass
        todo.extend(ast.iter_child_nodes(n))
    for n in ast.walk(tree):
        if isinstance(n, ast.Global):
            out |= set(n.names)
    return out, star


def unresolved(R, world):
    L = Layer()
    names(R, L)
    attributes(R, L)
    arguments(R, L)


def names(R, L):
    rule = 'value:name'
    for rel, tree in sorted(L.trees.items()):
        top, star = module_names(tree)
        if star:
            R.add(rule, rel, 'undecided', 'imports *')
            continue
        defs = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]
        outer = {}
        for d in defs:
            for n in ast.walk(d):
                if isinstance(n, ast.FunctionDef) and n is not d:
                    outer.setdefault(n, set()).update(bound_names(d))
        for d in defs:
            mine = bound_names(d) | outer.get(d, set())
            bad = []
            for n in ast.walk(d):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in mine and n.id not in top and \
                        not hasattr(builtins, n.id):
                    bad.append(n)
            unset = definitely_unset(d)
            k = '%s:%s' % (rel.split('KMCLib/')[-1], d.name)
            if bad:
                R.add(rule, k, 'violated', '%s (%s:%d): there is no %s' % (d.name, rel, bad[0].lineno, bad[0].id))
            elif unset:
                R.add(rule, k, 'violated', '%s (%s:%d): %s is read before it has a value' % (
                    d.name, rel, unset[0].lineno, unset[0].id))
            else:
                R.add(rule, k, 'holds')
            R.functions.add(d.name)


class Unset(object):
    """local names that certainly have no value yet"""

    def __init__(self, d):
        self.d = d
        params = {a.arg for a in ast.walk(d.args) if isinstance(a, ast.arg)}
        free = set()
        for n in ast.walk(d):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                free |= set(n.names)
        self.local = set()
        self.collect(d.body)
        self.local -= params | free
        self.bad = []

    def collect(self, body):
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.local.add(n.name)
                continue
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.local.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.local.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.local.add(n.name)
            todo.extend(ast.iter_child_nodes(n))

    def expr(self, e, un):
        if e is None:
            return
        if isinstance(e, (list, tuple)):
            for x in e:
                self.expr(x, un)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                if e.id in un:
                    self.bad.append(e)
            else:
                un.discard(e.id)
            return
        if isinstance(e, (ast.Lambda,)):
            return
        if isinstance(e, ast.BoolOp):
            self.expr(e.values[0], un)
            for v in e.values[1:]:
                self.expr(v, set(un))
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, un)
            self.expr(e.body, set(un))
            self.expr(e.orelse, set(un))
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            mine = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            self.expr(e.generators[0].iter, un)
            inner = un - mine
            for g in e.generators[1:]:
                self.expr(g.iter, set(inner))
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, un)
            un.discard(e.target.id)
            return
        for x in ast.iter_child_nodes(e):
            self.expr(x, un)

    def stmts(self, ss, un):
        for s in ss:
            un = self.stmt(s, un)
            if un is None:
                return None
        return un

    def touched(self, n):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)} | \
               {(a.asname or a.name).split('.')[0] for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom))
                for a in x.names}

    def stmt(self, s, un):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return un - {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return un - {(a.asname or a.name).split('.')[0] for a in s.names}
        if isinstance(s, ast.Assign):
            self.expr(s.value, un)
            self.expr(s.targets, un)
            return un
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, un)
            if isinstance(s.target, ast.Name):
                if s.target.id in un:
                    self.bad.append(s.target)
                un.discard(s.target.id)
            else:
                self.expr(s.target, un)
            return un
        if isinstance(s, ast.If):
            self.expr(s.test, un)
            a, b = self.stmts(s.body, set(un)), self.stmts(s.orelse, set(un))
            return b if a is None else a if b is None else a & b
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.expr(s.iter, un)
                inner = set(un)
                self.expr(s.target, inner)
            else:
                self.expr(s.test, un)
                inner = set(un)
            self.stmts(s.body, inner)
            un = un - self.touched(s)
            self.stmts(s.orelse, set(un))
            return un
        if isinstance(s, ast.Try):
            a = self.stmts(s.body, set(un))
            t = self.touched(s)
            for h in s.handlers:
                self.stmts(h.body, un - t)
            self.stmts(s.finalbody, un - t)
            return un - t
        if isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr, un)
                self.expr(i.optional_vars, un)
            return self.stmts(s.body, un)
        if isinstance(s, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                self.expr(x, un)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        for x in ast.iter_child_nodes(s):
            self.expr(x, un)
        return un


def definitely_unset(d):
    u = Unset(d)
    u.stmts(d.body, set(u.local))
    return sorted(u.bad, key=lambda n: n.lineno)


def attributes(R, L):
    """own attributes that methods read are set by the constructor or before they are read"""
    rule = 'value:attribute'
    for cls, (bases, ms) in sorted(L.classes.items()):
        foreign = [b for b in bases if b not in L.classes and b != 'object']
        tree = [n for rel, tr in L.trees.items() for n in tr.body if isinstance(n, ast.ClassDef) and n.name == cls]
        inclass = {x.id for c in tree for s in c.body for x in ast.walk(s) if not isinstance(s, ast.FunctionDef) and
                   isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        family = [c for c in L.classes if c == cls or L.derives(cls, c)]
        methods = {m for c in family for m in L.classes[c][1]}
        sets = {}
        for c in family + [c for c in L.classes if L.derives(c, cls)]:
            for m, fn in L.classes[c][1].items():
                for n in nodes(fn):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == fn.me and \
                            isinstance(n.ctx, ast.Store):
                        sets.setdefault(n.attr if not private(n.attr) or c == cls else '_' + c + n.attr, set()).add(fn)
        for m, fn in sorted(ms.items()):
            if fn.me is None:
                continue
            R.functions.add(fn.qname)
            bad = None
            called = {id(n.func) for n in nodes(fn) if isinstance(n, ast.Call)}
            for n in nodes(fn):
                if not (isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == fn.me and
                        isinstance(n.ctx, ast.Load)):
                    continue
                if n.attr in sets or n.attr in inclass or n.attr in methods or n.attr.startswith('__') and n.attr.endswith('__'):
                    # only the method that reads it sets it, and only after reading it
                    if n.attr in sets and sets[n.attr] == {fn} and m != '__init__' and n.attr not in inclass and \
                            n.attr not in methods and not foreign and first_read(fn, n.attr):
                        bad = bad or (n, 'is read before anything sets it')
                    continue
                if not private(n.attr) and foreign:
                    continue
                bad = bad or (n, 'is never set')
            R.add(rule, fn.qname, 'violated' if bad else 'holds',
                  '%s: %s.%s %s' % (at(fn, bad[0]), fn.me, bad[0].attr, bad[1]) if bad else '')


def private(a):
    return a.startswith('__') and not a.endswith('__')


def first_read(fn, attr):
    """the attribute is certainly read before the method can have set it"""
    def isattr(n, ctx):
        return isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == fn.me and n.attr == attr and \
            isinstance(n.ctx, ctx)
    for s in fn.node.body:
        if isinstance(s, (ast.If, ast.While)):
            if any(isattr(n, ast.Load) for n in ast.walk(s.test)):
                return True
        elif isinstance(s, ast.Assign):
            if any(isattr(n, ast.Load) for n in ast.walk(s.value)):
                return True
        elif isinstance(s, (ast.Return, ast.Expr, ast.AugAssign)):
            if any(isattr(n, ast.Load) for n in ast.walk(s)) or isinstance(s, ast.AugAssign) and isattr(s.target, ast.Store):
                return True
        if any(isattr(n, (ast.Store, ast.Load)) for n in ast.walk(s)):
            return False
        if any(isinstance(n, ast.Call) for n in ast.walk(s)) and any(
                isinstance(n, ast.Name) and n.id == 'setattr' for n in ast.walk(s)):
            return False
    return False


def arguments(R, L):
    """calls of project functions whose target is certain pass arguments that it accepts"""
    rule = 'value:argument'
    for fn in L.fns:
        for c in nodes(fn):
            if not isinstance(c, ast.Call) or any(isinstance(a, ast.Starred) for a in c.args) or any(
                    k.arg is None for k in c.keywords):
                continue
            g, skip = target(L, fn, c)
            if g is None:
                continue
            R.calls += 1
            a = g.node.args
            if a.vararg or a.kwarg:
                continue
            pos = [x.arg for x in a.posonlyargs + a.args][skip:]
            need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
            kw = {k.arg for k in c.keywords}
            bad = ''
            if len(c.args) > len(pos):
                bad = 'takes %d arguments, is given %d' % (len(pos), len(c.args))
            elif kw - set(pos) - {x.arg for x in a.kwonlyargs}:
                bad = 'has no argument %s' % sorted(kw - set(pos))[0]
            elif kw & set(pos[:len(c.args)]):
                bad = 'gets %s twice' % sorted(kw & set(pos[:len(c.args)]))[0]
            else:
                miss = [p for p in need[len(c.args):] if p not in kw]
                if miss:
                    bad = 'needs the argument %s' % miss[0]
            R.add(rule, '%s:%s' % (fn.qname, g.qname), 'violated' if bad else 'holds',
                  '%s: %s %s' % (at(fn, c), g.qname, bad) if bad else '')


def target(L, fn, c):
    """(the function, parameters that the call binds itself)"""
    f = c.func
    if isinstance(f, ast.Name):
        rel = fn.file
        tree = L.trees[rel]
        local = any(isinstance(n, ast.Name) and n.id == f.id and isinstance(n.ctx, ast.Store) for n in ast.walk(fn.node)) or \
            f.id in fn.params
        if local:
            return None, 0
        known = any(isinstance(n, (ast.ImportFrom,)) and any((a.asname or a.name) == f.id and (n.module or '').startswith(
            'KMCLib') for a in n.names) for n in ast.walk(tree)) or any(
                isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == f.id for s in tree.body)
        if not known:
            return None, 0
        if f.id in L.classes:
            m = L.method(f.id, '__init__')
            if m is None or any(b not in L.classes and b != 'object' for b in L.classes[f.id][0]):
                return None, 0
            return m, 1
        gs = [g for g in L.byname.get(f.id, []) if g.cls is None]
        return (gs[0], 0) if len(gs) == 1 else (None, 0)
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and fn.me and f.value.id == fn.me:
        if not private(f.attr):
            return None, 0
        m = L.classes.get(fn.cls, ((), {}))[1].get(f.attr)
        return (m, 1 if m.me else 0) if m is not None else (None, 0)
    if isinstance(f, ast.Attribute):
        # a method that only one project class has, with a name of the project
        gs = [g for g in L.byname.get(f.attr, []) if g.cls]
        if len(gs) == 1 and gs[0].me and f.attr.startswith('_') and not isinstance(f.value, ast.Name):
            return gs[0], 1
    return None, 0


# ---------------------------------------------------------------- the SWIG interface
def swig(world):
    import engine
    p = os.path.join(engine.REPO, 'c++/wrap/backend.i')
    with open(p) as f:
        src = f.read()
    src = re.sub(r'/\*.*?\*/', '', src, flags=re.S)
    return re.sub(r'//[^\n]*', '', src)


def canonical(ty):
    return re.sub(r'\s+', '', ty).replace('std::', '')


# the sequences and maps that Python builds for, or gets from, the core
TEMPLATES = {'StdVectorString': 'vector<string>', 'StdVectorStdVectorString': 'vector<vector<string>>',
             'StdVectorDouble': 'vector<double>', 'StdVectorInt': 'vector<int>', 'StdVectorBool': 'vector<bool>',
             'StdVectorProcess': 'vector<Process>', 'StdVectorCustomRateProcess': 'vector<CustomRateProcess>',
             'StdVectorStdVectorDouble': 'vector<vector<double>>', 'StdVectorCoordinate': 'vector<Coordinate>',
             'StdMapStringInt': 'map<string,int>', 'StdVectorStdMapStringInt': 'vector<map<string,int>>',
             'StdVectorTypeBucket': 'vector<TypeBucket>'}


def interface(R, world):
    """callbacks into Python are possible, their exceptions come back, and Python only uses
    what the interface has"""
    rule = 'interface'
    W = world()
    C = Cxx(W)
    L = Layer()
    try:
        src = swig(world)
    except OSError:
        R.add(rule, 'backend.i', 'undecided', 'no interface file')
        return
    f = 'c++/wrap/backend.i'

    def add(at_, ok, why, maybe=False):
        R.add(rule, at_, 'holds' if ok else 'undecided' if maybe else 'violated', '' if ok else '%s: %s' % (f, why))
    # classes that Python extends
    derived = {}
    for rel, tree in L.trees.items():
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef):
                for b in n.bases:
                    if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == 'Backend':
                        derived.setdefault(b.attr, []).append((n, rel))
    directors = bool(re.search(r'%module\s*\([^)]*directors\s*=\s*"?1', src))
    for c, uses in sorted(derived.items()):
        m = re.search(r'%feature\s*\(\s*"director"\s*\)\s*%s\s*;|%%feature\s*\(\s*"director"\s*\)\s*;' % c if False else
                      r'%feature\s*\(\s*"director"\s*\)\s*(' + c + r')?\s*;', src)
        head = [x for x in re.finditer(r'%include\s+"(\w+\.h)"', src) if W.cxx.classes.get(c) is not None and
                os.path.basename(W.cxx.classes[c].file or '') == x.group(1)]
        ok = directors and m and all(m.start() < x.start() for x in head)
        add('director:' + c, ok, 'methods of Python classes derived from %s (%s) are never called by the core: it is no '
            'director class' % (c, uses[0][0].name))
        vs = {g.name: g for g in W.cxx.fns.values() if g.cls == c and g.virtual}
        for cls, rel in uses:
            for d in cls.body:
                if isinstance(d, ast.FunctionDef) and d.name in {g.name for g in W.cxx.fns.values() if g.cls == c}:
                    R.functions.add('%s.%s' % (cls.name, d.name))
                    g = vs.get(d.name)
                    k = '%s.%s' % (cls.name, d.name)
                    add('virtual:' + k, g is not None, '%s::%s is not virtual: the core does not call %s (%s:%d)' % (
                        c, d.name, k, rel, d.lineno))
                    if g is not None and not d.args.vararg:
                        n = len(d.args.args) - 1
                        add('arity:' + k, n - len(d.args.defaults) <= len(g.params) <= n,
                            '%s takes %d arguments, the core passes %d' % (k, n, len(g.params)))
        # what the core calls is what Python implements
        for name, g in sorted(vs.items()):
            if name.startswith('~'):
                continue
            called = [x for h in C.fns for x in C.calls[h] if x.k == 'call' and x.key[1] == name]
            if called:
                add('callback:%s' % name, any(isinstance(d, ast.FunctionDef) and d.name == name for cls, rel in uses
                                              for d in cls.body),
                    'no Python class overrides %s::%s, which the core calls' % (c, name))
    # exceptions of callbacks
    m = re.search(r'%feature\s*\(\s*"director:except"\s*\)\s*\{(.*?)\n\}', src, re.S)
    add('callback errors', m and 'throw' in m.group(1) and '$error' in m.group(1),
        'an exception that a plugin raises in a callback is not passed on to the core', maybe=bool(m and '$error' in m.group(1)))
    m = re.search(r'%exception\s*\{(.*?)\n\}', src, re.S)
    ok = m and re.search(r'catch\s*\(\s*(const\s+)?Swig::DirectorException|catch\s*\(\s*\.\.\.', m.group(1)) and (
        'SWIG_fail' in m.group(1) or 'SWIG_exception' in m.group(1)) and '$action' in m.group(1)
    add('core errors', ok, 'an exception from a plugin is not reported to the caller in Python', maybe=bool(m))
    # templates
    temps = dict((a, canonical(b)) for a, b in re.findall(r'%template\s*\(\s*(\w+)\s*\)\s*([^;]+);', src))
    for a, b in sorted(TEMPLATES.items()):
        if a in temps:
            add('type:' + a, temps[a] == b, 'Backend.%s is a %s' % (a, temps[a]))
    # names that Python uses
    known = set(W.cxx.classes) | {g.name for g in W.cxx.fns.values() if g.cls is None} | set(temps)
    text = src
    for h in re.findall(r'%include\s+"(\w+\.h)"', src):
        import engine
        try:
            with open(os.path.join(engine.REPO, 'c++/src', h)) as fh:
                text += fh.read()
        except OSError:
            pass
    used = {}
    for rel, tree in L.trees.items():
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'Backend':
                used.setdefault(n.attr, (rel, n.lineno))
    for a, (rel, line) in sorted(used.items()):
        R.calls += 1
        if a == 'Backend' or a.startswith('_'):
            continue
        # nested names of a class appear as Class_name
        ok = a in known or re.search(r'\b%s\b' % a, text) or any(a.startswith(c + '_') for c in W.cxx.classes)
        R.add(rule, 'name:' + a, 'holds' if ok else 'violated', '' if ok else '%s:%d: the interface has no %s' % (rel, line, a))
