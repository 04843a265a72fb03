"""Value graph construction.

The evaluator turns a function (ir.py) into gated value terms (terms.py): for
every location the function can write, for its result and for its exits, one
term over the values on entry.  Branches become gates, loops become closed
forms, folds and searches; nothing is executed and no path is enumerated.
"""
import re
from fractions import Fraction
import terms as t
import effects
from terms import T, TRUE, FALSE, NONE, ZERO, ONE, num
from ir import N, Fn, Param
from cxxlow import tkind, targ, targs, strip_cv

t.TKIND, t.TARG, t.TARGS = tkind, targ, targs
EMPTY = T('empty')
UNDEF = T('undef')
MAXNODES = 40000


class TooBig(Exception):
    pass


class Unsupported(Exception):
    pass


class State(object):
    __slots__ = ('m', 'g')

    def __init__(self, m=None, g=TRUE):
        self.m = m if m is not None else {}
        self.g = g

    def copy(self):
        return State(dict(self.m), self.g)


def merge(c, a, b):
    """state a where c holds, b elsewhere"""
    if a is None:
        return b
    if b is None:
        return a
    if a.g == FALSE:
        return b
    if b.g == FALSE:
        return a
    m = {}
    for r in a.m.keys() | b.m.keys():
        x, y = a.m.get(r), b.m.get(r)
        if x is None:
            x = default_root(r) if persistent(r) else y
        if y is None:
            y = default_root(r) if persistent(r) else x
        m[r] = x if x is y else t.ite(c, x, y)
        if m[r] is not x:
            check_size(m[r])
    return State(m, t.or_(a.g, b.g))


_nodes = {}


def nodes(x):
    seen = set()
    todo = [x]
    n = 0
    while todo:
        y = todo.pop()
        if not isinstance(y, tuple) or y in seen:
            continue
        seen.add(y)
        n += 1
        if n > MAXNODES:
            return n
        todo.extend(z for z in y if isinstance(z, tuple))
    return n


def check_size(x):
    n = _nodes.get(x)
    if n is None:
        n = nodes(x)
        _nodes[x] = n
    if n > MAXNODES:
        raise TooBig()


def persistent(r):
    return not r.startswith('v')


ROOTT = {}


def default_root(r):
    return T('in', r, ROOTT.get(r, ''))


class Frame(object):
    def __init__(self, fn, ev, uid):
        self.fn = fn
        self.env = {}
        self.this = None
        self.uid = uid
        self.prog = ev.prog
        self.outer = None
        self.alias = {}


def loc(root, *path):
    return T('loc', root, tuple(path))


def view(S, root, v, fn):
    """the part of an argument that a call depends on"""
    if S is None:
        return v
    if root != 'this':
        p = fn.params[int(root[1:])] if int(root[1:]) < len(fn.params) else None
        if p is None or not p.type.rstrip().endswith('&'):
            return v
    r = S.reads.get(root, effects.NOFIELDS)
    if r == effects.ALL:
        return v
    return T('tuple', tuple(t.fld(v, f) for f in sorted(r)))


def number(v):
    if v[0] == 'ite':
        return number(v[2]) or number(v[3])
    return v[0] in ('n', 'poly', 'max', 'min') or t.is_int(v)


def unclamp(n):
    """a number of copies: none when it is below zero"""
    if n[0] == 'max' and len(n[1]) == 2 and ZERO in n[1]:
        return n[1][1] if n[1][0] == ZERO else n[1][0]
    if n[0] == 'ite' and ZERO in n[2:]:
        x, low = (n[3], n[1]) if n[2] == ZERO else (n[2], t.not_(n[1]))
        if low in (t.lt(x, ONE), t.le(x, ZERO), t.lt(x, ZERO)):
            return x
    return n


class Ev(object):
    """One evaluation context (program + policy)."""

    def __init__(self, prog, lang, opaque=(), inline_virtual=(), cxx=None, world=(), pure=(), query=(), names=None,
                 raising=True, static_type=None):
        self.prog = prog
        self.lang = lang              # 'c++' or 'py'
        self.opaque = set(opaque)
        self.inline_virtual = set(inline_virtual)
        self.cxx = cxx                # C++ program, for reference models of C++ functions
        self.uid = 0
        self.pend = []
        self.depth = 0
        self.world = world
        self.pure = pure
        self.query = query
        self.calls = []               # opaque calls seen (name, line)
        self.log = None
        self.inlined = set()
        self.unk = []
        self.loops = 0
        self.try_calls = None
        self.tmp = 0
        self.pytypes = names or {}

    # ------------------------------------------------------------------ locations
    def get(self, st, root):
        v = st.m.get(root)
        if v is None:
            v = default_root(root)
        return v

    def read(self, st, l):
        if l[0] == 'cloc':
            return t.ite(l[1], self.read(st, l[2]), self.read(st, l[3]))
        v = self.get(st, l[1])
        for k, x in l[2]:
            if k == 'm':
                v = t.upd_many(T('new', 'pair'), {'first': x, 'second': t.idx(v, x)})
            else:
                v = t.fld(v, x) if k == 'f' else t.idx(v, x)
        return v

    def write(self, st, l, val):
        if l[0] == 'cloc':
            c = l[1]
            old2, old3 = self.read(st, l[2]), self.read(st, l[3])
            if l[2] == l[3]:
                return self.write(st, l[2], val)
            self.write(st, l[2], t.ite(c, val, old2))
            old3 = self.read(st, l[3])
            self.write(st, l[3], t.ite(c, old3, val))
            return

        def upd(v, path):
            if not path:
                return val
            k, x = path[0]
            if v[0] == 'ite':
                return t.ite(v[1], upd(v[2], path), upd(v[3], path))
            if k == 'f':
                return t.upd(v, x, upd(t.fld(v, x), path[1:]))
            if x[0] == 'ite':
                return t.ite(x[1], upd(v, ((k, x[2]),) + path[1:]), upd(v, ((k, x[3]),) + path[1:]))
            return t.store(v, x, upd(t.idx(v, x), path[1:]))
        st.m[l[1]] = upd(self.get(st, l[1]), l[2])

    def ext(self, l, k, x):
        if l[0] == 'cloc':
            return T('cloc', l[1], self.ext(l[2], k, x), self.ext(l[3], k, x))
        if l[2] and l[2][-1][0] == 'm' and k == 'f' and x == 'second':
            return T('loc', l[1], l[2][:-1] + (('i', l[2][-1][1]),))
        return T('loc', l[1], l[2] + ((k, x),))

    def deref(self, p):
        if p[0] == 'ite':
            return T('cloc', p[1], self.deref(p[2]), self.deref(p[3]))
        if p[0] == 'ptr':
            return self.ext(p[1], 'i', p[2])
        if p[0] == 'addr':
            return p[1]
        if p[0] == 'mapit':
            return self.ext(p[3], 'm', p[2])
        if p[0] == 'idx' and p[1][0] == 'list' and 0 < len(p[1][1]) <= 8 and \
                all(x[0] in ('ptr', 'addr') for x in p[1][1]):
            # one of the places in an array of pointers
            l = self.deref(p[1][1][-1])
            for i in range(len(p[1][1]) - 2, -1, -1):
                l = T('cloc', t.eq(p[2], t.num(i)), self.deref(p[1][1][i]), l)
            return l
        return loc('$heap', ('i', p))

    def addr(self, l):
        if l[0] == 'cloc':
            return t.ite(l[1], self.addr(l[2]), self.addr(l[3]))
        if l[1] == '$heap' and len(l[2]) == 1:
            return l[2][0][1]
        if l[2] and l[2][-1][0] == 'i':
            return T('ptr', T('loc', l[1], l[2][:-1]), l[2][-1][1])
        return T('addr', l)

    def temp(self, st, v):
        self.tmp += 1
        r = 'v$%d' % self.tmp
        st.m[r] = v
        return loc(r)

    def newroot(self, frame, name):
        self.tmp += 1
        return 'v%d:%s' % (self.tmp, name)

    # ------------------------------------------------------------------ functions
    def run_fn(self, fn, this=None, args=None, st=None, init=None):
        """Evaluate fn on symbolic inputs; returns (normal state, throw state)."""
        st = st or State()
        for r, v in (init or {}).items():
            st.m[r] = v
        fr = Frame(fn, self, 0)
        fr.this = this
        off = 0
        for i, p in enumerate(fn.params):
            if self.lang == 'py' and fn.cls and i == 0 and not fn.static:
                fr.env[p.id] = this if this is not None else loc('this')
                continue
            if args is not None and i < len(args):
                fr.env[p.id] = args[i]
            else:
                r = 'p%d' % (i - (1 if self.lang == 'py' and fn.cls and not fn.static else 0))
                ty = p.type if self.lang == 'c++' else ROOTT.get(r, '')
                if self.lang == 'c++':
                    ROOTT[r] = strip_cv(ty.rstrip().rstrip('&').strip()) if ty else ''
                fr.env[p.id] = loc(r)
        if this is None:
            fr.this = loc('this')
            if self.lang == 'c++' and fn.cls:
                ROOTT['this'] = fn.cls
        return self.finish(fn, fr, st)

    def finish(self, fn, fr, st):
        """run the body of fn; returns (state with $ret, throw state)"""
        if self.lang == 'c++' and fn.lang == 'c++':
            body = self.prog.lower.body(fn)
        else:
            body = fn.body
            self.prebind(body, st, fr)
        saved, self.pend = self.pend, []
        base = st.g
        st.g = TRUE
        if fn.isctor and fn.lang == 'c++':
            self.ctor_inits(fn, fr, st)
        o = self.block([body], st, fr)
        n = o.get('n')
        r = o.get('r')
        if n is not None and '$ret' in n.m:
            del n.m['$ret']
        if n is not None:
            n.m['$ret'] = NONE
        out = merge(r.g, r, n) if r is not None else n
        thr = o.get('t')
        if self.pend:
            for p in self.pend:
                thr = merge(thr.g, thr, p) if thr is not None else p
        self.pend = saved
        if out is not None:
            out.g = t.and_(base, out.g)
        if thr is not None:
            thr.g = t.and_(base, thr.g)
        return out, thr

    def ctor_inits(self, fn, fr, st):
        cls = self.prog.classes.get(fn.cls)
        done = set()
        for name, e, ty in fn.inits:
            if name is None:
                # base class
                if e is not None and e.k == 'new':
                    self.construct_into(e, fr.this, st, fr)
                elif e is not None and e.k == 'copy':
                    src = self.rv(e.e, st, fr)
                    bc = self.prog.classes.get(e.cls)
                    if bc:
                        for f, fty, s in self.allfields(e.cls):
                            if not s:
                                self.write(st, self.ext(fr.this, 'f', f), t.fld(src, f))
                continue
            done.add(name)
            fl = self.ext(fr.this, 'f', name)
            fty = next((x[1] for x in cls.fields if x[0] == name), '') if cls else ''
            if fty.rstrip().endswith('&') and e is not None:
                v = self.rv(e, st, fr)
            else:
                v = self.rv(e, st, fr) if e is not None else UNDEF
            self.write(st, fl, v)

    def allfields(self, cname):
        out = []
        c = self.prog.classes.get(cname)
        if c is None:
            return out
        for b in c.bases:
            out += self.allfields(b)
        return out + c.fields

    def construct_into(self, e, this, st, fr):
        """run the constructor of `new` expression e on the object at location this"""
        ct = None
        for f in self.prog.fns.values():
            if f.cls == e.cls and f.isctor and f.sig == e.ctor and f.body:
                ct = f
                break
        if ct is None:
            return False
        if self.depth > 12:
            raise Unsupported('recursion')
        nf = Frame(ct, self, 0)
        nf.this = this
        self.bind(ct, nf, e.args, st, fr)
        self.depth += 1
        self.inlined.add(ct.qname)
        out, thr = self.finish(ct, nf, st)
        self.depth -= 1
        self.after_call(st, out, thr)
        return True

    def after_call(self, st, out, thr):
        if thr is not None and thr.g != FALSE:
            self.pend.append(thr)
        if out is None:
            st.g = FALSE
            return UNDEF
        ret = out.m.pop('$ret', NONE)
        st.m = out.m
        st.g = out.g
        return ret

    def bind(self, fn, nf, args, st, fr):
        """bind actual (IR) arguments evaluated in frame fr to the parameters"""
        for i, p in enumerate(fn.params):
            a = args[i] if i < len(args) else None
            if a is None or a.k == 'defarg':
                d = self.prog.lower.default(p) if fn.lang == 'c++' else None
                if d is None:
                    nf.env[p.id] = self.temp(st, T('in', 'default', p.type))
                    continue
                v = self.rv(d, st, nf)
                nf.env[p.id] = self.temp(st, v)
                continue
            if p.type.rstrip().endswith('&'):
                l = self.lv(a, st, fr)
                if l is None:
                    l = self.temp(st, self.rv(a, st, fr))
                nf.env[p.id] = l
            else:
                nf.env[p.id] = self.temp(st, self.rv(a, st, fr))

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        """returns {'n','r','b','c','t'} -> State"""
        out = {}
        cur = st
        for s in stmts:
            if cur is None or cur.g == FALSE:
                cur = None
                break
            o = self.stmt(s, cur, fr)
            for k in ('r', 'b', 'c', 't'):
                if k in o and o[k] is not None and o[k].g != FALSE:
                    out[k] = merge(out[k].g, out[k], o[k]) if k in out else o[k]
            cur = o.get('n')
        if cur is not None and cur.g != FALSE:
            out['n'] = cur
        return out

    def flush(self, st, o):
        """turn pending throws of the expressions of this statement into outcomes"""
        if self.pend:
            thr = o.get('t')
            for p in self.pend:
                thr = merge(thr.g, thr, p) if thr is not None else p
            self.pend = []
            o['t'] = thr
        return o

    def stmt(self, s, st, fr):
        f = getattr(self, 's_' + s.k, None)
        if f is None:
            raise Unsupported('statement ' + s.k)
        saved, self.pend = self.pend, []
        o = f(s, st, fr)
        o = self.flush(st, o)
        self.pend = saved
        return o

    def s_block(self, s, st, fr):
        return self.block(s.body, st, fr)

    def s_expr(self, s, st, fr):
        e = s.e
        if e.k == 'throw':
            return self.s_throw(e, st, fr)
        self.rv(e, st, fr)
        return {'n': st}

    def s_decl(self, s, st, fr):
        if s.static and not (s.ty.startswith('const ') and s.init is not None and s.init.k in ('const', 'cast')):
            root = 'static:%s:%s' % (fr.fn.qname, s.name)
            ROOTT.setdefault(root, strip_cv(s.ty))
            fr.env[s.id] = loc(root)
            return {'n': st}
        if s.ref and s.init is not None:
            l = self.lv(s.init, st, fr)
            if l is None:
                l = self.temp(st, self.rv(s.init, st, fr))
            fr.env[s.id] = l
            return {'n': st}
        root = self.newroot(fr, s.name)
        if s.init is not None:
            if s.init.k == 'initlist':
                v = self.initlist(s.init, s.ty, st, fr)
            else:
                v = self.rv(s.init, st, fr)
        else:
            v = self.default_value(s.ty, st, fr, explicit=False)
        st.m[root] = v
        fr.env[s.id] = loc(root)
        return {'n': st}

    def default_value(self, ty, st, fr, explicit=True):
        k = tkind(ty)
        if k in ('vec', 'map', 'set'):
            if ty.startswith('std::array') or 'array<' in ty[:12]:
                return UNDEF
            return EMPTY
        if k == 'string':
            return T('s', '')
        if k == 'pair':
            a = targs(ty)
            if len(a) == 2:
                return t.upd_many(T('new', 'pair'), {'first': self.default_value(a[0], st, fr),
                                                     'second': self.default_value(a[1], st, fr)})
        if k == 'class':
            c = strip_cv(ty)
            if c in self.prog.classes:
                return self.new_object(c, None, [], st, fr)
            return T('new', c)
        if not explicit:
            return UNDEF
        if k in ('int', 'float'):
            return ZERO
        if k == 'bool':
            return FALSE
        if k == 'ptr':
            return NONE
        return UNDEF

    def initlist(self, e, ty, st, fr):
        vs = [self.rv(x, st, fr) for x in e.es]
        k = tkind(ty)
        if k == 'class' and strip_cv(ty) in self.prog.classes:
            fs = [f for f, ft, s in self.allfields(strip_cv(ty)) if not s]
            return t.upd_many(T('new', strip_cv(ty)), dict(zip(fs, vs)))
        if k == 'pair' and len(vs) == 2:
            return t.upd_many(T('new', 'pair'), {'first': vs[0], 'second': vs[1]})
        if k in ('int', 'float', 'bool', 'string') and len(vs) <= 1:
            return vs[0] if vs else self.default_value(ty, st, fr)
        return T('list', tuple(vs)) if vs else EMPTY

    def s_if(self, s, st, fr):
        c = t.truth(self.rv(s.c, st, fr))
        if c == TRUE:
            return self.block([s.t], st, fr)
        if c == FALSE:
            return self.block([s.e], st, fr) if s.e is not None else {'n': st}
        g = st.g
        a = st.copy()
        a.g = t.and_(g, c)
        b = st
        b.g = t.and_(g, t.not_(c))
        npend, self.pend = self.pend, []
        oa = self.block([s.t], a, fr) if a.g != FALSE else {}
        ob = (self.block([s.e], b, fr) if s.e is not None else {'n': b}) if b.g != FALSE else {}
        self.pend = npend + self.pend
        return self.join(c, oa, ob)

    def join(self, c, oa, ob):
        o = {}
        for k in set(oa) | set(ob):
            o[k] = merge(c, oa.get(k), ob.get(k))
        return o

    def s_switch(self, s, st, fr):
        v = self.rv(s.c, st, fr)
        groups = []
        for labs, body in s.groups:
            groups.append([labs, body])
        # a label group without statements shares the next body; a body that does
        # not leave the switch falls through into the next one
        conds = []
        for labs, body in groups:
            conds.append([None if l is None else t.eq(v, self.rv(l, st, fr)) for l in labs])
        anycase = FALSE
        for cs in conds:
            for c in cs:
                if c is not None:
                    anycase = t.or_(anycase, c)
        out = {}
        g0 = st.g
        result = {}
        hasdefault = any(None in cs for cs in conds)
        used = FALSE
        for gi, cs in enumerate(conds):
            c = FALSE
            for x in cs:
                c = t.or_(c, t.not_(anycase) if x is None else x)
            c = t.and_(c, t.not_(used)) if not any(x is None for x in cs) else c
            if c == FALSE:
                continue
            a = st.copy()
            a.g = t.and_(g0, c)
            body = []
            for labs, b in groups[gi:]:
                body += b
            if a.g == FALSE:
                continue
            o = self.block(body, a, fr)
            if 'b' in o:
                o['n'] = merge(o['b'].g, o['b'], o.get('n'))
                del o['b']
            result = self.join(c, o, result)
        if not hasdefault:
            rest = st.copy()
            rest.g = t.and_(g0, t.not_(anycase))
            if rest.g != FALSE:
                result = self.join(anycase, result, {'n': rest})
        return result

    def s_return(self, s, st, fr):
        if s.e is None:
            st.m['$ret'] = NONE
        else:
            if fr.fn.lang == 'c++' and strip_cv(fr.fn.ret).endswith('&'):
                l = self.lv(s.e, st, fr)
                v = self.addr(l) if l is not None else T('addr', self.temp(st, self.rv(s.e, st, fr)))
            elif s.e.k == 'initlist':
                v = self.initlist(s.e, fr.fn.ret, st, fr)
            else:
                v = self.rv(s.e, st, fr)
            st.m['$ret'] = v
        return {'r': st}

    def s_throw(self, s, st, fr):
        if s.e is not None:
            st.m['$exc'] = self.rv(s.e, st, fr)
        else:
            st.m['$exc'] = T('call', 'reraise', ())
        return {'t': st}

    def s_break(self, s, st, fr):
        return {'b': st}

    def s_continue(self, s, st, fr):
        return {'c': st}

    def s_while(self, s, st, fr):
        if fr.fn.lang == 'py':
            self.prebind(s, st, fr)

        def head(x):
            return t.truth(self.rv(s.c, x, fr))

        def body(x):
            return self.block([s.body], x, fr)

        def step(x):
            if s.step is not None:
                self.rv(s.step, x, fr)
        return self.loop(st, fr, head, body, step, els=s.get('els'))

    def s_dowhile(self, s, st, fr):
        def head(x):
            return TRUE

        def body(x):
            o = self.block([s.body], x, fr)
            n = o.get('n')
            if 'c' in o:
                n = merge(o['c'].g, o['c'], n)
                del o['c']
            if n is None:
                return o
            g = n.g
            c = t.truth(self.rv(s.c, n, fr))
            stay = n.copy()
            stay.g = t.and_(g, c)
            leave = n
            leave.g = t.and_(g, t.not_(c))
            o['n'] = stay if stay.g != FALSE else None
            if leave.g != FALSE:
                o['b'] = merge(o['b'].g, o['b'], leave) if 'b' in o else leave
            if o['n'] is None:
                del o['n']
            return o
        return self.loop(st, fr, head, body, lambda x: None)

    def s_foreach(self, s, st, fr):
        cont = self.lv(s.it, st, fr)
        if cont is None:
            cont = self.temp(st, self.rv(s.it, st, fr))
        tk = tkind(s.ty)
        ctr = self.newroot(fr, '$k')
        st.m[ctr] = ZERO
        n = t.size(self.read(st, cont))

        def head(x):
            return t.lt(x.m[ctr], n)

        def body(x):
            el = self.ext(cont, 'i', x.m[ctr])
            if s.ref:
                fr.env[s.var] = el
            else:
                r = self.newroot(fr, s.name or '')
                x.m[r] = self.read(x, el)
                fr.env[s.var] = loc(r)
            return self.block([s.body], x, fr)

        def step(x):
            x.m[ctr] = t.add(x.m[ctr], ONE)
        return self.loop(st, fr, head, body, step)

    # --- python statements
    def s_passign(self, s, st, fr):
        v = None
        if s.t.k == 'var' and s.e.k in ('field', 'index', 'var'):
            l = self.lv(s.e, st, fr)
            v = self.rv(s.e, st, fr)
            self.assign_target(s.t, v, st, fr)
            if l is not None and l[0] == 'loc':
                fr.alias[s.t.id] = l
            return {'n': st}
        v = self.rv(s.e, st, fr)
        self.assign_target(s.t, v, st, fr)
        return {'n': st}

    def assign_target(self, tg, v, st, fr):
        if tg.k == 'pat':
            for i, x in enumerate(tg.ts):
                self.assign_target(x, t.idx(v, num(i)), st, fr)
            return
        if tg.k == 'var':
            l = fr.env.get(tg.id)
            if self.cxx is not None and l is not None and l[0] == 'loc' and re.match(r'p\d+$', l[1]) and not l[2]:
                # reference models of C++ write through to their arguments
                st.m[l[1]] = v
                return
            if l is None or not (l[0] == 'loc' and l[1].startswith('v') and not l[2]):
                l = loc(self.newroot(fr, tg.name))
                fr.env[tg.id] = l
            fr.alias.pop(tg.id, None)
            st.m[l[1]] = v
            return
        if tg.k == 'slice':
            o = tg.o
            l = self.lv(o, st, fr)
            if l is not None:
                lo = self.rv(tg.lo, st, fr) if tg.lo is not None else NONE
                hi = self.rv(tg.hi, st, fr) if tg.hi is not None else NONE
                if lo == NONE and hi == NONE:
                    nv = v
                else:
                    nv = T('call', 'setslice', (self.read(st, l), lo, hi, v))
                self.mutate(l, nv, o, st, fr)
            return
        if tg.k == 'index':
            l = self.lv(tg.o, st, fr)
            i = self.rv(tg.i, st, fr)
            if l is not None:
                old = self.read(st, l)
                i = self.pyindex(old, i)
                self.mutate(l, t.store(old, i, v), tg.o, st, fr)
            return
        if tg.k == 'glob' and self.cxx is not None and tg.name in self.cxx.names()['globals']:
            st.m['g:' + tg.name] = v
            return
        l = self.lv(tg, st, fr)
        if l is None:
            raise Unsupported('assignment target ' + tg.k)
        self.mutate_loc(l, v, tg, st, fr)

    def pyindex(self, v, i):
        if i[0] == 'n' and i[1] < 0:
            return t.add(t.size(v), i)
        return i

    def mutate(self, l, nv, expr, st, fr):
        """write nv through location l, keeping the object an alias was taken from
        in step (python reference semantics)"""
        old = self.read(st, l)
        self.write(st, l, nv)
        e = expr
        # v = self.x ; v.append(..)
        if e.k == 'var' and e.id in fr.alias:
            al = fr.alias[e.id]
            if self.read(st, al) == old and al != l:
                self.write(st, al, nv)
        elif e.k in ('field', 'index'):
            b = e
            path = []
            while b.k in ('field', 'index'):
                b = b.o
            if b.k == 'var' and b.id in fr.alias:
                al = fr.alias[b.id]
                bl = fr.env.get(b.id)
                if bl is not None:
                    nb = self.read(st, bl)
                    # rewrite the whole aliased object when it was still the same
                    tmp = st.copy()
                    self.write(tmp, l, old)
                    if self.read(tmp, bl) == self.read(st, al):
                        self.write(st, al, nb)

    def mutate_loc(self, l, v, tg, st, fr):
        self.mutate(l, v, tg, st, fr)

    def s_paug(self, s, st, fr):
        tg = s.t
        if tg.k == 'var':
            old = self.rv(tg, st, fr)
            r = self.rv(s.e, st, fr)
            if s.op == '+' and self.listlike(old):
                l = self.lv(tg, st, fr)
                self.mutate(l, self.listcat(old, r), tg, st, fr)
                return {'n': st}
            v = self.binop(s.op, old, r, False, True)
            self.assign_target(tg, v, st, fr)
            return {'n': st}
        l = self.lv(tg, st, fr)
        if l is None:
            raise Unsupported('augmented target')
        old = self.read(st, l)
        r = self.rv(s.e, st, fr)
        v = self.listcat(old, r) if s.op == '+' and self.listlike(old) else self.binop(s.op, old, r, False, True)
        self.mutate(l, v, tg, st, fr)
        return {'n': st}

    def listlike(self, v):
        return v[0] in ('list', 'empty', 'map', 'flat', 'cat', 'fill', 'push', 'sorted', 'slice', 'tuple')

    def listcat(self, a, b):
        if a[0] == 'ite':
            return t.ite(a[1], self.listcat(a[2], b), self.listcat(a[3], b))
        if a[0] in ('list', 'empty') and b[0] in ('list', 'empty'):
            x = (a[1] if a[0] == 'list' else ()) + (b[1] if b[0] == 'list' else ())
            return T('list', x) if x else EMPTY
        return t.cat(a, b)

    def prebind(self, s, st, fr):
        """names assigned in a loop body live on after it: give them a location first"""
        names = {}

        def see(n):
            if n.k == 'passign' or n.k == 'paug' or n.k == 'pfor':
                tg(n.t)

        def tg(x):
            if x.k == 'pat':
                for y in x.ts:
                    tg(y)
            elif x.k == 'var':
                names[x.id] = x.name
        from ir import walk
        walk(s, see)
        for i, nm in names.items():
            l = fr.env.get(i)
            if l is None:
                l = loc(self.newroot(fr, nm))
                fr.env[i] = l
                st.m[l[1]] = UNDEF
            elif not (l[0] == 'loc' and (l[1].startswith('v') or self.cxx is not None and re.match(r'p\d+$', l[1]))
                      and not l[2]):
                v = self.read(st, l)
                l2 = loc(self.newroot(fr, nm))
                fr.env[i] = l2
                st.m[l2[1]] = v
                fr.alias.setdefault(i, l)

    def s_pfor(self, s, st, fr):
        self.prebind(s, st, fr)
        n, elem, base = self.iterview(s.it, st, fr)
        ctr = self.newroot(fr, '$k')
        st.m[ctr] = ZERO

        def head(x):
            return t.lt(x.m[ctr], n)

        def body(x):
            v = elem(x.m[ctr])
            self.assign_target(s.t, v, x, fr)
            if base is not None and s.t.k == 'var':
                fr.alias[s.t.id] = self.ext(base, 'i', x.m[ctr])
            return self.block([s.body], x, fr)

        def step(x):
            x.m[ctr] = t.add(x.m[ctr], ONE)
        return self.loop(st, fr, head, body, step, els=s.get('els'))

    def iterview(self, e, st, fr):
        """(count, k -> element term, location of the container or None)"""
        if e.k == 'pycall' and e.f.k == 'glob':
            nm = e.f.name
            if nm in ('range', 'xrange'):
                a = [self.rv(x, st, fr) for x in e.args]
                if len(a) == 1:
                    return a[0], lambda k: k, None
                if len(a) == 2:
                    return t.sub(a[1], a[0]), lambda k: t.add(a[0], k), None
                if len(a) == 3 and a[2] == num(-1):
                    return t.sub(a[0], a[1]), lambda k: t.sub(a[0], k), None
                if len(a) == 3 and a[2][0] == 'n' and a[2][1] > 0:
                    stp = a[2]
                    return (t.idiv(t.add(t.sub(a[1], a[0]), t.sub(stp, ONE)), stp),
                            lambda k: t.add(a[0], t.mul(stp, k)), None)
            if nm == 'enumerate' and len(e.args) >= 1:
                n, el, b = self.iterview(e.args[0], st, fr)
                s0 = self.rv(e.args[1], st, fr) if len(e.args) > 1 else ZERO
                return n, lambda k: T('tuple', (t.add(s0, k), el(k))), None
            if nm in ('zip', 'izip'):
                vs = [self.iterview(x, st, fr) for x in e.args]
                if len(vs) == 1:
                    return vs[0][0], lambda k: T('tuple', (vs[0][1](k),)), None
                n = vs[0][0]
                for v in vs[1:]:
                    if v[0] != n:
                        n = t.min_(n, v[0])
                return n, lambda k: T('tuple', tuple(v[1](k) for v in vs)), None
            if nm == 'reversed' and len(e.args) == 1:
                n, el, b = self.iterview(e.args[0], st, fr)
                return n, lambda k: el(t.sub(t.sub(n, ONE), k)), None
            if nm in ('list', 'tuple', 'iter') and len(e.args) == 1:
                n, el, b = self.iterview(e.args[0], st, fr)
                return n, el, None
        if e.k == 'pycall' and e.f.k == 'field' and e.f.f in ('items', 'keys', 'values', 'iteritems') and not e.args:
            v = self.rv(e.f.o, st, fr)
            ks = T('call', 'keys', (v,))
            n = t.size(v)
            if self.cxx is not None:
                # a C++ map: a sequence of (key, value) pairs
                return n, lambda k: T('tuple', (t.fld(t.idx(v, k), 'first'), t.fld(t.idx(v, k), 'second'))), None
            if e.f.f == 'keys':
                return n, lambda k: t.idx(ks, k), None
            if e.f.f == 'values':
                return n, lambda k: t.idx(v, t.idx(ks, k)), None
            return n, lambda k: T('tuple', (t.idx(ks, k), t.idx(v, t.idx(ks, k)))), None
        l = self.lv(e, st, fr) if e.k in ('var', 'field', 'index') else None
        v = self.rv(e, st, fr)
        return self.termview(v) + (l,)

    def termview(self, v):
        return t.size(v), (lambda k: t.idx(v, k))

    def s_try(self, s, st, fr):
        saved = self.try_calls
        self.try_calls = []
        before = st.copy()
        o = self.block([s.body], st, fr)
        seen, self.try_calls = self.try_calls, saved
        thr = o.pop('t', None)
        g = before.g
        # implicit exceptions of the calls inside the block
        r = FALSE
        if s.handlers:
            for c in seen:
                r = t.or_(r, T('call', 'raises', (c,)))
        res = dict(o)
        if s.get('els') is not None and 'n' in res:
            n = res.pop('n')
            o2 = self.block([s.els], n, fr)
            for k, v in o2.items():
                res[k] = merge(res[k].g, res[k], v) if k in res else v
        if s.handlers:
            if r != FALSE:
                for k in list(res):
                    res[k].g = t.and_(res[k].g, t.not_(r))
                hs = before.copy()
                hs.g = t.and_(g, r)
                hs.m['$exc'] = T('call', 'caught', ())
                if thr is not None:
                    thr.g = t.and_(thr.g, t.not_(r))
                    hs = merge(r, hs, thr)
            else:
                hs = thr
            if hs is not None and hs.g != FALSE:
                left = hs
                for ty, name, body in s.handlers:
                    if left is None or left.g == FALSE:
                        break
                    h = left.copy()
                    if ty is not None and not (ty.k == 'glob' and ty.name in ('Exception', 'BaseException')) \
                            and ty.k == 'glob':
                        c = T('isinst', left.m.get('$exc', NONE), ty.name)
                        h.g = t.and_(left.g, c)
                        left.g = t.and_(left.g, t.not_(c))
                    else:
                        left = None
                    if name:
                        l = loc(self.newroot(fr, name))
                        fr.env[name] = l
                        h.m[l[1]] = h.m.get('$exc', NONE)
                    o2 = self.block([body], h, fr)
                    for k, v in o2.items():
                        res[k] = merge(v.g, v, res.get(k))
                if left is not None and left.g != FALSE:
                    res['t'] = merge(left.g, left, res.get('t'))
        elif thr is not None:
            res['t'] = thr
        if s.fin is not None:
            r2 = {}
            for k, v in res.items():
                ret = v.m.get('$ret')
                o2 = self.block([s.fin], v, fr)
                for k2, v2 in o2.items():
                    kk = k if k2 == 'n' else k2
                    if kk == 'r' and k2 == 'n' and ret is not None:
                        v2.m['$ret'] = ret
                    r2[kk] = merge(v2.g, v2, r2.get(kk))
            res = r2
        return res

    def s_with(self, s, st, fr):
        for e, tg in s.items:
            v = self.rv(e, st, fr)
            if tg is not None:
                self.assign_target(tg, v, st, fr)
        o = self.block([s.body], st, fr)
        for v in o.values():
            v.m['$io'] = T('call', 'exit#io', (v.m.get('$io', default_root('$io')),))
        return o

    def s_del(self, s, st, fr):
        for x in s.ts:
            if x.k == 'index':
                l = self.lv(x.o, st, fr)
                i = self.rv(x.i, st, fr)
                if l is not None:
                    self.mutate(l, T('erase', self.read(st, l), i), x.o, st, fr)
            elif x.k == 'slice':
                l = self.lv(x.o, st, fr)
                if l is not None:
                    self.mutate(l, EMPTY if x.lo is None and x.hi is None else
                                T('call', 'delslice', (self.read(st, l),)), x.o, st, fr)
        return {'n': st}

    # ------------------------------------------------------------------ loops
    def loop(self, st, fr, head, body, step, els=None):
        self.loops += 1
        self.uid += 1
        uid = 't%d' % self.uid
        K = T('it', uid)
        base_g = st.g
        slots = []          # (root, path-of-fields or ('ptroff',))
        saved_pend, self.pend = self.pend, []
        env0 = dict(fr.env)
        alias0 = dict(fr.alias)

        def slotval(s, slot):
            v = self.get(s, slot[0])
            for f in slot[1]:
                if f == '*':
                    v = v[2] if v[0] == 'ptr' else UNDEF
                else:
                    v = t.fld(v, f)
            return v

        def mkstart(temps):
            s = st.copy()
            s.g = TRUE
            byroot = {}
            for i, sl in enumerate(slots):
                byroot.setdefault(sl[0], []).append((sl[1], temps[i]))
            for r, ps in byroot.items():
                def build(v, ps):
                    if len(ps) == 1 and not ps[0][0]:
                        return ps[0][1]
                    if ps[0][0][0] == '*':
                        return T('ptr', v[1], ps[0][1])
                    d = {}
                    for p, x in ps:
                        d.setdefault(p[0], []).append((p[1:], x))
                    return t.upd_many(v, {f: build(t.fld(v, f), q) for f, q in d.items()})
                s.m[r] = build(self.get(st, r), ps)
            return s

        for rnd in range(40):
            temps = [T('acc', uid, i) for i in range(len(slots))]
            for i, sl in enumerate(slots):
                tt = t.typeof(slotval(st, sl))
                if tt:
                    t.ACCT[temps[i]] = tt
                elif isbool(slotval(st, sl)):
                    t.ACCT[temps[i]] = 'bool'
                elif t.is_int(slotval(st, sl)):
                    t.ACCT[temps[i]] = 'int'
            start = mkstart(temps)
            t.reset_types()
            self.pend = []
            s0 = start.copy()
            fr.env = dict(env0)
            fr.alias = dict(alias0)
            c = head(s0)
            hstate = s0.copy()
            sb = s0.copy()
            sb.g = c
            o = body(sb) if c != FALSE else {}
            cont = o.get('n')
            if 'c' in o:
                cont = merge(o['c'].g, o['c'], cont)
            if cont is not None and cont.g != FALSE:
                step(cont)
            else:
                cont = None
            if self.pend:
                for p in self.pend:
                    o['t'] = merge(o['t'].g, o['t'], p) if 't' in o else p
                self.pend = []
            # discover modified slots
            new = []
            drop = []
            if cont is not None:
                for r in st.m.keys() | {x for x in cont.m if persistent(x)}:
                    if r in ('$ret', '$exc'):
                        continue
                    a, b = self.get(start, r), self.get(cont, r)
                    if a == b:
                        continue
                    mine = [i for i, sl in enumerate(slots) if sl[0] == r]
                    if not mine:
                        v0 = self.get(st, r)
                        if v0[0] == 'ptr' and b[0] == 'ptr' and b[1] == v0[1]:
                            new.append((r, ('*',)))
                        else:
                            new.append((r, ()))
                        continue
                    # fields outside the known slots?
                    fs = self.changed_fields(a, b)
                    if fs is not None:
                        for path in fs:
                            if not any(sl[0] == r and sl[1] == path[:len(sl[1])] for sl in slots):
                                # remove slots below path
                                new.append((r, path))
                    for i in mine:
                        sl = slots[i]
                        vb = slotval(cont, sl)
                        whole = vb[0] == 'upd' and vb[1][0] == 'new' and \
                            t.CLASSFIELDS.get(frozenset(dict(vb[2]))) == vb[1][1] and not (sl[1] and sl[1][-1] == '*')
                        if vb[0] == 'upd' and vb[1] == temps[i] or whole:
                            drop.append(i)
                            for f, _ in vb[2]:
                                new.append((r, sl[1] + (f,)))
            if not new:
                break
            for n in new:
                for i, sl in enumerate(slots):
                    if sl[0] == n[0] and len(sl[1]) > len(n[1]) and sl[1][:len(n[1])] == n[1]:
                        drop.append(i)
            slots = [s for i, s in enumerate(slots) if i not in set(drop)]
            for n in new:
                if n not in slots:
                    slots.append(n)
        else:
            raise Unsupported('loop did not stabilise')
        fr.env = env0
        # variables first bound inside the loop keep their binding (python)
        self.pend = saved_pend
        inits = [slotval(st, s) for s in slots]
        if cont is None:
            nexts = list(temps)
        else:
            nexts = [slotval(cont, s) for s in slots]
            lits, _ = conj(cont.g)
            nexts = [restrict(x, lits) for x in nexts]
        closed = self.solve(temps, inits, nexts, K)
        cl = dict(zip(temps, closed))

        def close_k(x):
            return t.subst(x, cl)
        # trip count
        c = close_k(c)
        lits, rest = conj(c)
        bounds = []
        others = rest
        known = []
        for a, val in lits:
            b = bound(a, val, K)
            if b is not None:
                bounds.append(b)
                known.append((a, val))
            else:
                others = t.and_(others, a if val else t.not_(a))
        n = None
        if bounds:
            n = bounds[0]
            for b in bounds[1:]:
                n = n if n == b else t.min_(n, b)

        def rk(x):
            return restrict(x, known)
        gh = rk(t.not_(others))
        ex = {'h': (gh, hstate)}
        for k in ('b', 'r', 't'):
            if k in o and o[k] is not None:
                ex[k] = (rk(close_k(o[k].g)), o[k])
        e = FALSE
        for k, (g, s) in ex.items():
            e = t.or_(e, g)
        N_ = n if n is not None else T('call', 'inf', ())
        if e == FALSE:
            P = N_
            found = FALSE
        else:
            P = t.close('fst', N_, K, e)
            found = t.close('ex', N_, K, e) if n is not None else TRUE

        # at the exit position the exit condition holds
        elits, _ = conj(t.subst(e, {K: P})) if e != FALSE else ([], TRUE)
        live = [k for k in ('h', 'b', 'r', 't') if k in ex and ex[k][0] != FALSE]

        def at(x, k):
            r = t.subst(close_k(x), {K: k})
            if k is P and elits and found != FALSE:
                r = restrict(r, elits)
            return r

        def exit_guard(k):
            """exit k is the one taken, given that one is taken"""
            if live == [k]:
                return TRUE
            if k == live[-1]:
                g = FALSE
                for j in live[:-1]:
                    g = t.or_(g, restrict(t.subst(ex[j][0], {K: P}), elits))
                return t.not_(g)
            return restrict(t.subst(ex[k][0], {K: P}), elits)
        # --- state after normal completion
        res = st
        post = {}
        normal = [k for k in ('h', 'b') if k in ex and ex[k][0] != FALSE]
        exitv = {}
        roots = set(sl[0] for sl in slots)
        changed = {}
        for k in normal:
            g, s = ex[k]
            for r in st.m.keys() | {x for x in s.m if persistent(x)}:
                if r in ('$ret', '$exc'):
                    continue
                if self.get(s, r) != self.get(start, r):
                    changed.setdefault(r, {})[k] = s
        for r in roots | set(changed):
            startv = self.get(start, r)
            if r in changed and found != FALSE:
                v = None
                for k in normal:
                    g, s = ex[k]
                    x = at(self.get(s, r), P)
                    gk = exit_guard(k)
                    v = x if v is None else t.ite(gk, x, v)
                full = at(startv, N_) if n is not None else v
                nv = t.ite(found, v, full)
            else:
                nv = at(startv, P)
            post[r] = nv
            check_size(nv)
        out = {}
        rt = FALSE
        for k in ('r', 't'):
            if k in ex and ex[k][0] != FALSE:
                g, s = ex[k]
                gk = t.and_(found, exit_guard(k))
                rt = t.or_(rt, gk)
                s2 = State({}, t.and_(base_g, gk))
                for r in s.m:
                    v = s.m[r]
                    if r.startswith('v') and r not in st.m:
                        continue
                    s2.m[r] = v if v is st.m.get(r) else at(v, P)
                out[k] = s2
        done = st.copy()
        done.m.update(post)
        done.g = t.and_(base_g, t.not_(rt))
        # python: names bound in the loop body stay bound to the last value
        if fr.fn.lang != 'c++' and cont is not None:
            for name, l in list(getattr(self, '_loopenv', {}).items()):
                pass
        if els is not None:
            gb = FALSE
            if 'b' in ex and ex['b'][0] != FALSE:
                gb = t.and_(found, exit_guard('b'))
            a = done.copy()
            a.g = t.and_(done.g, gb)
            b = done
            b.g = t.and_(done.g, t.not_(gb))
            o2 = self.block([els], b, fr) if b.g != FALSE else {}
            res = self.join(gb, {'n': a} if a.g != FALSE else {}, o2)
            for k, v in res.items():
                out[k] = merge(out[k].g, out[k], v) if k in out else v
            return out
        if done.g != FALSE:
            out['n'] = done
        return out

    def changed_fields(self, a, b):
        """field paths in which record b differs from record a (None: not records)"""
        if b[0] == 'ite' or a[0] == 'ite':
            return None
        fa = dict(a[2]) if a[0] == 'upd' else {}
        ba = a[1] if a[0] == 'upd' else a
        fb = dict(b[2]) if b[0] == 'upd' else {}
        bb = b[1] if b[0] == 'upd' else b
        if ba != bb and bb[0] == 'new' and t.CLASSFIELDS.get(frozenset(fb)) == bb[1] and a[0] != 'ptr':
            # every field is given a value
            bb = ba
        if ba != bb:
            return [()] if not (a[0] == 'ptr') else None
        out = []
        for f in set(fa) | set(fb):
            x = fa.get(f, t.fld(ba, f))
            y = fb.get(f, t.fld(bb, f))
            if x != y:
                sub = self.changed_fields(x, y) if (x[0] == 'upd' or y[0] == 'upd') else None
                if sub and sub != [()]:
                    out += [(f,) + p for p in sub]
                else:
                    out.append((f,))
        return sorted(out)

    def solve(self, temps, inits, nexts, K):
        """closed forms (terms in K) of the loop carried values"""
        closed = {}
        cur = dict(zip(temps, nexts))
        ini = dict(zip(temps, inits))
        tset = list(temps)
        todo = [x for x in temps]
        for _ in range(len(temps) * 3 + 3):
            prog = False
            for a in list(todo):
                nx = t.subst(cur[a], closed) if closed else cur[a]
                cur[a] = nx
                check_size(nx)
                deps = [x for x in todo if t.uses(nx, x)]
                if deps == [] or deps == [a]:
                    r = self.pattern(a, ini[a], nx, K)
                    if r is not None:
                        closed[a] = r
                        todo.remove(a)
                        prog = True
            if not todo:
                break
            if not prog:
                # a strongly connected group without dependencies on other groups
                dep = {a: [x for x in todo if t.uses(cur[a], x)] for a in todo}
                best = None
                for a in todo:
                    comp = reach(a, dep)
                    if best is None or len(comp) < len(best):
                        best = comp
                group = best
                forms = {}
                for a in group:
                    order = [a] + [x for x in reach(a, dep) if x != a]
                    forms[a] = t.close('fold', K, K, tuple(cur[x] for x in order),
                                       before=tuple(ini[x] for x in order), accs=tuple(order)) \
                        if False else self.mkfold(order, ini, cur, K)
                closed.update(forms)
                for a in group:
                    todo.remove(a)
        return [closed[a] for a in temps]

    def mkfold(self, order, ini, cur, K):
        bodies = tuple(cur[x] for x in order)
        h = t.label(bodies)
        m = {K: T('it', h)}
        for i, a in enumerate(order):
            m[a] = T('acc', h, i)
            if a in t.ACCT:
                # types of bound accumulators are not tracked (labels are reused)
                pass
        bodies = tuple(t.subst(b, m) for b in bodies)
        return t.make('fold', K, h, tuple(ini[x] for x in order), bodies)

    def pattern(self, a, init, nx, K):
        if nx == a:
            return init
        if not t.uses(nx, a):
            # last value
            return t.ite(t.eq(K, ZERO), init, t.subst(nx, {K: t.sub(K, ONE)}))
        # boolean / constant flags
        k = nx[0]
        d = None
        if k not in ('push', 'store', 'upd', 'cat', 'list'):
            d = t.sub(nx, a) if numericish(nx, a) else None
            if d is not None and not t.uses(d, a):
                if d[0] == 'n' or not t.uses(d, K):
                    return t.add(init, t.mul(d, K))
                return t.add(init, t.close('sum', K, K, d))
        if nx[0] == 'ite':
            hi, lo = t.assume(nx, a, True), t.assume(nx, a, False)
            if not t.uses(hi, a) and not t.uses(lo, a) and isbool(hi) and isbool(lo):
                if hi == TRUE:
                    return t.or_(init, t.close('ex', K, K, lo))
                if lo == FALSE:
                    return t.and_(init, t.not_(t.close('ex', K, K, t.not_(hi))))
            g, v = absorb(nx, a)
            if g is not None and not t.uses(g, a) and not t.uses(v, a) and not t.uses(v, K):
                return t.ite(t.close('ex', K, K, g), v, init)
        if appends_only(nx, a):
            x = t.subst(nx, {a: EMPTY})
            if not t.uses(x, a):
                return t.cat(init, t.close('flat', K, K, x))
        if nx[0] == 'store' and nx[1] == a:
            i, f = nx[2], nx[3]
            off = t.sub(i, K)
            if not t.uses(off, K) and not t.uses(off, a):
                own = t.idx(a, i)
                f2 = t.subst(f, {own: t.idx(init, i)})
                if not t.uses(f2, a):
                    return t.close('blit', K, K, f2, before=(init, off))
        r = self.packing(a, init, nx, K)
        if r is not None:
            return r
        r = self.one_element(a, init, nx, K)
        if r is not None:
            return r
        r = self.each_element(a, init, nx, K)
        if r is not None:
            return r
        return self.mkfold([a], {a: init}, {a: nx}, K)

    def one_element(self, a, init, nx, K):
        """only the element at a position that does not depend on the iteration changes"""
        pos = set()

        def new(v):
            if v == a:
                return None
            if v[0] == 'store' and v[1] == a and not t.uses(v[2], a) and not t.uses(v[2], K):
                pos.add(v[2])
                return v[3]
            raise KeyError

        def build(v, own, e):
            if v[0] == 'ite':
                return t.ite(t.subst(v[1], {own: e}), build(v[2], own, e), build(v[3], own, e))
            x = new(v)
            return e if x is None else t.subst(x, {own: e})

        def scan(v):
            if v[0] == 'ite':
                scan(v[2])
                scan(v[3])
            else:
                new(v)
        try:
            scan(nx)
        except KeyError:
            return None
        if len(pos) != 1:
            return None
        i = pos.pop()
        own = t.idx(a, i)
        self.uid += 1
        e = T('acc', 'e%d' % self.uid, 0)
        ty = t.typeof(t.idx(init, i))
        if ty:
            t.ACCT[e] = ty
        b = build(nx, own, e)
        if t.uses(b, a) or any(x[0] in CONTAINERS for x in ends(b)) or \
                (ty and tkind(ty) not in ('int', 'float', 'bool', 'string')):
            return None
        return t.make('store', init, i, self.pattern(e, t.idx(init, i), b, K))

    def each_element(self, a, init, nx, K):
        """every element (or every element of a range) is changed on its own"""
        if nx[0] == 'map':
            n, h, f, off = nx[1], nx[2], nx[3], ZERO
            if n == t.size(a):
                n = t.size(init)
        elif nx[0] == 'blit' and nx[1] == a:
            n, h, f, off = nx[3], nx[2], nx[5], nx[4]
        else:
            return None
        if t.uses(n, a) or t.uses(n, K) or t.uses(off, a) or t.uses(off, K):
            return None
        self.uid += 1
        J = T('it', 'j%d' % self.uid)
        e = T('acc', 'e%d' % self.uid, 0)
        f = t.subst(f, {T('it', h): J})
        own = t.idx(a, t.add(off, J))
        ty = t.typeof(t.idx(init, ZERO))
        if ty:
            t.ACCT[e] = ty
        f = t.subst(f, {own: e})
        if t.uses(f, a):
            return None
        x = self.pattern(e, t.idx(init, t.add(off, J)), f, K)
        if nx[0] == 'map':
            if t.size(init) != n:
                return t.ite(t.eq(K, ZERO), init, t.close('map', n, J, x))
            return t.close('map', n, J, x)
        return t.close('blit', n, J, x, before=(init, off))

    def packing(self, a, init, nx, K):
        """an array filled piece by piece at a running position"""
        offs = set()

        def chunk(v):
            if v == a:
                return EMPTY
            if v[0] == 'ite' and not t.uses(v[1], a):
                x = chunk(v[2])
                y = chunk(v[3]) if x is not None else None
                return None if y is None else t.ite(v[1], x, y)
            if v[0] == 'store' and v[1] == a and not t.uses(v[3], a):
                offs.add(v[2])
                return T('list', (v[3],))
            if v[0] == 'blit' and v[1] == a and not t.uses(v[5], a):
                offs.add(v[4])
                return t.make('map', v[3], v[2], v[5])
            if v[0] == 'over' and v[1] == a and not t.uses(v[3], a):
                offs.add(v[2])
                return v[3]
            return None
        c = chunk(nx)
        if c is None or len(offs) != 1:
            return None
        o = offs.pop()
        if t.uses(o, a) or not t.uses(o, K):
            return None
        o0 = t.subst(o, {K: ZERO})
        if o != t.add(o0, t.close('sum', K, K, t.size(c))):
            return None
        return T('over', init, o0, t.close('flat', K, K, c))

    # ------------------------------------------------------------------ expressions
    def rv(self, e, st, fr):
        if st.g == FALSE:
            return UNDEF
        f = getattr(self, 'e_' + e.k, None)
        if f is None:
            raise Unsupported('expression ' + e.k)
        return f(e, st, fr)

    def lv(self, e, st, fr):
        """location denoted by e, or None"""
        k = e.k
        if k == 'var':
            l = fr.env.get(e.id)
            f = fr
            while l is None and f.outer is not None:
                f = f.outer
                l = f.env.get(e.id)
            if l is None:
                if fr.fn.lang == 'c++' or self.lang == 'c++':
                    l = loc('v?:%s' % e.name)
                else:
                    l = loc(self.newroot(fr, e.name))
                    st.m[l[1]] = UNDEF
                fr.env[e.id] = l
            return l
        if k == 'glob':
            if self.lang == 'c++':
                ROOTT.setdefault('g:' + e.name, strip_cv(e.get('ty') or ''))
                return loc('g:' + e.name)
            if self.cxx is not None and e.name in self.cxx.names()['globals']:
                ROOTT.setdefault('g:' + e.name, strip_cv(self.cxx.names()['globals'][e.name]))
                return loc('g:' + e.name)
            return None
        if k == 'this':
            return None
        if k == 'field':
            if e.o.k == 'glob' and self.lang == 'py':
                return None
            b = self.lv(e.o, st, fr)
            if b is None:
                if self.lang == 'py':
                    return None
                b = self.temp(st, self.rv(e.o, st, fr))
            r = self.buffer_field(e, b, st)
            if r is not None:
                return r
            fty = t.FIELDT.get(e.f, '') if self.lang == 'c++' else ''
            return self.ext(b, 'f', e.f)
        if k == 'index':
            if e.o.k == 'deref' and e.o.get('arr'):
                p = self.rv(e.o.e, st, fr)
                i = self.rv(e.i, st, fr)
                return self.deref(t.add(p, i) if p[0] in ('ptr', 'ite') else T('ptr', self.deref(p), i))
            b = self.lv(e.o, st, fr)
            if b is None:
                if self.lang == 'py':
                    return None
                b = self.temp(st, self.rv(e.o, st, fr))
            i = self.rv(e.i, st, fr)
            if e.get('py'):
                i = self.pyindex(self.read(st, b), i)
            return self.ext(b, 'i', i)
        if k == 'deref':
            if e.e.k == 'this':
                return fr.this
            return self.deref(self.rv(e.e, st, fr))
        if k == 'load' or k == 'copy':
            return self.lv(e.e, st, fr)
        if k == 'cond':
            c = t.truth(self.rv(e.c, st, fr))
            a, b = self.lv(e.a, st, fr), self.lv(e.b, st, fr)
            if a is None or b is None:
                return None
            return a if c == TRUE else b if c == FALSE else T('cloc', c, a, b)
        if k in ('assign', 'opassign'):
            self.rv(e, st, fr)
            return self.lv(e.l, st, fr)
        if k == 'incdec' and not e.post:
            self.rv(e, st, fr)
            return self.lv(e.e, st, fr)
        if k == 'comma':
            self.rv(e.a, st, fr)
            return self.lv(e.b, st, fr)
        if k == 'call':
            fn = self.prog.fns.get(e.key)
            if fn is not None and strip_cv(fn.ret).endswith('&') and self.inlinable(fn, e):
                p = self.call(e, st, fr, raw=True)
                return self.deref(p)
            return None
        if k == 'mcall' and e.m in ('back', 'front', 'at'):
            b = self.lv(e.o, st, fr)
            if b is None:
                b = self.temp(st, self.rv(e.o, st, fr))
            v = self.read(st, b)
            if e.m == 'back':
                return self.ext(b, 'i', t.sub(t.size(v), ONE))
            if e.m == 'front':
                return self.ext(b, 'i', ZERO)
            return self.ext(b, 'i', self.rv(e.args[0], st, fr))
        return None

    def buffer_field(self, e, b, st):
        """fields of the buffer class: the object is treated as the array it owns"""
        if e.get('cls') in BUFFERS:
            sz, raw = BUFFERS[e.cls]
            if e.f == raw:
                return b
            if e.f == sz:
                return self.temp(st, t.size(self.read(st, b)))
        return None

    def e_const(self, e, st, fr):
        v = e.v
        if v is None:
            return NONE
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return T('s', v)
        return T('s', repr(v))

    def e_load(self, e, st, fr):
        return self.rv(e.e, st, fr)

    def e_copy(self, e, st, fr):
        return self.rv(e.e, st, fr)

    def e_this(self, e, st, fr):
        return self.addr(fr.this)

    def e_var(self, e, st, fr):
        return self.read(st, self.lv(e, st, fr))

    def e_field(self, e, st, fr):
        if self.lang == 'py':
            if e.o.k == 'glob':
                g = e.o
                # module attribute or class attribute
                if g.name in self.prog.classes and e.f in self.prog.classes[g.name].consts:
                    return self.rv(self.prog.classes[g.name].consts[e.f], st, fr)
                return T('glob', g.name + '.' + e.f)
            l = self.lv(e, st, fr)
            if l is None:
                return t.fld(self.rv(e.o, st, fr), e.f)
            return self.read(st, l)
        if e.get('cls') in BUFFERS and e.f == BUFFERS[e.cls][1]:
            return T('ptr', self.lv(e.o, st, fr) or self.temp(st, self.rv(e.o, st, fr)), ZERO)
        l = self.lv(e.o, st, fr)
        if l is None:
            return t.fld(self.rv(e.o, st, fr), e.f)
        return self.read(st, self.lv(e, st, fr))

    def e_index(self, e, st, fr):
        l = self.lv(e, st, fr)
        if l is not None:
            return self.read(st, l)
        v = self.rv(e.o, st, fr)
        i = self.rv(e.i, st, fr)
        if e.get('py'):
            i = self.pyindex(v, i)
        return t.idx(v, i)

    def e_deref(self, e, st, fr):
        return self.read(st, self.lv(e, st, fr))

    def e_addr(self, e, st, fr):
        l = self.lv(e.e, st, fr)
        if l is None:
            l = self.temp(st, self.rv(e.e, st, fr))
        return self.addr(l)

    def e_decay(self, e, st, fr):
        l = self.lv(e.e, st, fr)
        if l is None:
            return self.rv(e.e, st, fr)
        return T('ptr', l, ZERO)

    def e_glob(self, e, st, fr):
        if self.lang == 'c++':
            c = self.prog.const_globals().get(e.name)
            if c is not None and 'g:' + e.name not in st.m:
                return self.rv(c, st, fr)
            return self.read(st, self.lv(e, st, fr))
        g = self.prog.globals.get((e.get('mod'), e.name))
        if g is not None:
            return self.rv(g, st, fr)
        if self.cxx is not None:
            if e.name in self.cxx.names()['enums']:
                return T('s', 'enum:' + e.name)
            l = self.lv(e, st, fr)
            if l is not None:
                c = self.cxx.const_globals().get(e.name)
                if c is not None and l[1] not in st.m:
                    return Ev(self.cxx, 'c++').rv(c, st, fr)
                return self.read(st, l)
        return T('glob', e.name)

    def e_fref(self, e, st, fr):
        return T('func', e.name)

    def e_default(self, e, st, fr):
        return self.default_value(e.ty, st, fr)

    def e_defarg(self, e, st, fr):
        return T('in', 'default', '')

    def e_cast(self, e, st, fr):
        v = self.rv(e.e, st, fr)
        if e.to == 'int':
            return t.trunc(v)
        if e.to == 'bool':
            return t.truth(v)
        if e.to == 'float' and v[0] == 'b':
            return ONE if v == TRUE else ZERO
        return v

    def e_not(self, e, st, fr):
        return t.not_(self.rv(e.e, st, fr))

    def shortcut(self, e, st, fr, isand):
        a = self.rv(e.a, st, fr)
        c = t.truth(a)
        if c == (FALSE if isand else TRUE):
            return a if e.get('py') else c
        sb = st.copy()
        sb.g = t.and_(st.g, c if isand else t.not_(c))
        saved, self.pend = self.pend, []
        b = self.rv(e.b, sb, fr)
        self.pend = saved + self.pend
        if c == (TRUE if isand else FALSE):
            st.m, st.g = sb.m, sb.g
            return b if e.get('py') else t.truth(b)
        sb.g = t.and_(st.g, c if isand else t.not_(c)) if sb.g != FALSE else FALSE
        m = merge(c if isand else t.not_(c), sb, State(st.m, t.and_(st.g, t.not_(c) if isand else c)))
        st.m, st.g = m.m, m.g
        if e.get('py'):
            bb = b
            if isbool(a) and isbool(b):
                return t.and_(a, b) if isand else t.or_(a, b)
            return t.ite(c, bb, a) if isand else t.ite(c, a, bb)
        return t.and_(c, t.truth(b)) if isand else t.or_(c, t.truth(b))

    def e_and(self, e, st, fr):
        return self.shortcut(e, st, fr, True)

    def e_or(self, e, st, fr):
        return self.shortcut(e, st, fr, False)

    def e_cond(self, e, st, fr):
        c = t.truth(self.rv(e.c, st, fr))
        if c == TRUE:
            return self.rv(e.a, st, fr)
        if c == FALSE:
            return self.rv(e.b, st, fr)
        a, b = st.copy(), st.copy()
        g = st.g
        a.g = t.and_(g, c)
        b.g = t.and_(g, t.not_(c))
        va = self.rv(e.a, a, fr)
        vb = self.rv(e.b, b, fr)
        m = merge(c, a, b)
        st.m, st.g = m.m, m.g
        return t.ite(c, va, vb)

    def e_comma(self, e, st, fr):
        self.rv(e.a, st, fr)
        return self.rv(e.b, st, fr)

    def e_assign(self, e, st, fr):
        if e.r.k == 'initlist':
            v = self.initlist(e.r, '', st, fr)
        else:
            v = self.rv(e.r, st, fr)
        l = self.lv(e.l, st, fr)
        if l is None:
            raise Unsupported('assignment')
        self.write(st, l, v)
        return v

    def e_opassign(self, e, st, fr):
        r = self.rv(e.r, st, fr)
        l = self.lv(e.l, st, fr)
        if l is None:
            raise Unsupported('assignment')
        old = self.read(st, l)
        v = self.binop(e.op, old, r, e.int, False)
        if e.trunc:
            v = t.trunc(v)
        self.write(st, l, v)
        return v

    def e_incdec(self, e, st, fr):
        l = self.lv(e.e, st, fr)
        old = self.read(st, l)
        new = t.add(old, ONE if e.op == '++' else num(-1))
        self.write(st, l, new)
        return old if e.post else new

    def e_bin(self, e, st, fr):
        a = self.rv(e.a, st, fr)
        b = self.rv(e.b, st, fr)
        return self.binop(e.op, a, b, e.get('int'), e.get('py'))

    def binop(self, op, a, b, isint, py):
        if op == '+':
            if py and (self.listlike(a) or self.listlike(b)) and a[0] != 's' and b[0] != 's':
                return self.listcat(a, b)
            return t.add(a, b)
        if op == '-':
            return t.sub(a, b)
        if op == '*':
            if py and a[0] in ('list', 'empty') and len(a) > 1 and len(a[1]) == 1:
                return T('fill', b, a[1][0])
            return t.mul(a, b)
        if op == '/':
            return t.idiv(a, b) if isint else t.div(a, b)
        if op == '//':
            return t.idiv(a, b)
        if op == '%':
            if a[0] in ('s', 'str', 'fmt'):
                return t.format_(a, b)
            return t.mod(a, b)
        if op == '**':
            if b[0] == 'n' and b[1].denominator == 1 and 0 <= b[1] <= 8:
                return t.power(a, int(b[1]))
            return t.call('pow', (a, b))
        if op == '<':
            return t.lt(a, b)
        if op == '>':
            return t.lt(b, a)
        if op == '<=':
            return t.le(a, b)
        if op == '>=':
            return t.le(b, a)
        if op in ('==', 'is'):
            return t.eq(a, b)
        if op in ('!=', 'isnot'):
            return t.ne(a, b)
        if op == 'in':
            return self.contains(b, a)
        if op == 'notin':
            return t.not_(self.contains(b, a))
        return t.call('op' + op, (a, b))

    def contains(self, v, x):
        if v[0] in ('list', 'tuple'):
            r = FALSE
            for y in v[1]:
                r = t.or_(r, t.eq(x, y))
            return r
        if v[0] == 'empty':
            return FALSE
        if v[0] == 'call' and v[1] == 'dir' and len(v[2]) == 1 and x[0] == 's' and \
                v[2][0][0] in ('list', 'tuple', 'empty', 'map', 'flat', 'fill') and hasattr(list, x[1]) == hasattr(tuple, x[1]):
            return TRUE if hasattr(list, x[1]) else FALSE
        if v[0] == 'call' and v[1] == 'keys' and len(v[2]) == 1:
            return self.contains(v[2][0], x)
        if v[0] == 'store' and v[2][0] == 's' and t.root_of(v)[0] == 'empty':
            return t.or_(t.eq(x, v[2]), self.contains(v[1], x))
        if v[0] == 'ite':
            return t.ite(v[1], self.contains(v[2], x), self.contains(v[3], x))
        if self.cxx is not None and (tkind(t.typeof(v) or '') == 'vec' or v[0] in ('map', 'fill', 'cat', 'push')):
            # reference models of C++: membership is a linear search
            self.uid += 1
            K = T('it', 't%d' % self.uid)
            return t.close('ex', t.size(v), K, t.eq(t.idx(v, K), x))
        return T('in?', x, v)

    def e_lambda(self, e, st, fr):
        return T('lamref', self.lamref(e, fr))

    def lamref(self, e, fr):
        self.lams = getattr(self, 'lams', [])
        self.lams.append((e, fr))
        return len(self.lams) - 1

    def e_throw(self, e, st, fr):
        s = st.copy()
        s.m['$exc'] = self.rv(e.e, s, fr) if e.e is not None else T('call', 'reraise', ())
        self.pend.append(s)
        st.g = FALSE
        return UNDEF

    def e_unknown(self, e, st, fr):
        self.unk.append((e.what, e.line))
        return t.call('unknown:' + str(e.what), tuple(self.rv(a, st, fr) for a in e.args))

    def e_initlist(self, e, st, fr):
        return self.initlist(e, e.ty, st, fr)

    def e_seq(self, e, st, fr):
        if any(x.k == 'star' for x in e.es):
            r = EMPTY
            for x in e.es:
                if x.k == 'star':
                    r = self.listcat(r, self.rv(x.e, st, fr))
                else:
                    r = self.listcat(r, T('list', (self.rv(x, st, fr),)))
            return r
        vs = tuple(self.rv(x, st, fr) for x in e.es)
        if e.tk == 'tuple':
            return T('tuple', vs)
        if e.tk == 'list':
            return T('list', vs) if vs else EMPTY
        if e.tk == 'sliceobj':
            return T('sliceobj', vs)
        return T('call', 'set', (T('list', vs) if vs else EMPTY,))

    def e_dict(self, e, st, fr):
        d = EMPTY
        for k, v in zip(e.ks, e.vs):
            if k is None:
                d = T('call', 'dictmerge', (d, self.rv(v, st, fr)))
                continue
            kk = self.rv(k, st, fr)
            d = t.store(d, kk, self.rv(v, st, fr))
        return d

    def e_fstr(self, e, st, fr):
        r = T('s', '')
        for x in e.es:
            v = self.rv(x, st, fr)
            r = t.strcat(r, v if v[0] in ('s', 'str', 'fmt') else t.tostr(v))
        return r

    def e_slice(self, e, st, fr):
        v = self.rv(e.o, st, fr)
        if e.step is not None:
            return t.call('slice3', (v, self.rv(e.lo, st, fr) if e.lo else NONE,
                                     self.rv(e.hi, st, fr) if e.hi else NONE, self.rv(e.step, st, fr)))
        lo = self.rv(e.lo, st, fr) if e.lo is not None else ZERO
        hi = self.rv(e.hi, st, fr) if e.hi is not None else t.size(v)
        lo = self.pyindex(v, lo)
        hi = self.pyindex(v, hi)
        return t.slice_(v, lo, hi)

    def e_comp(self, e, st, fr):
        """list comprehension as an append loop"""
        out = self.newroot(fr, '$comp')
        st.m[out] = EMPTY

        def gen(i, x):
            if i == len(e.gens):
                if e.tk == 'dict':
                    x.m[out] = t.store(x.m[out], self.rv(e.elt, x, fr), self.rv(e.val, x, fr))
                else:
                    x.m[out] = t.push(x.m[out], self.rv(e.elt, x, fr))
                return {'n': x}
            tg, it, conds = e.gens[i]
            n, el, b = self.iterview(it, x, fr)
            ctr = self.newroot(fr, '$k')
            x.m[ctr] = ZERO

            def head(y):
                return t.lt(y.m[ctr], n)

            def body(y):
                self.assign_target(tg, el(y.m[ctr]), y, fr)
                c = TRUE
                for q in conds:
                    c = t.and_(c, t.truth(self.rv(q, y, fr)))
                if c == FALSE:
                    return {'n': y}
                if c == TRUE:
                    return gen(i + 1, y)
                a = y.copy()
                g = y.g
                a.g = t.and_(g, c)
                y.g = t.and_(g, t.not_(c))
                return self.join(c, gen(i + 1, a), {'n': y})

            def step(y):
                y.m[ctr] = t.add(y.m[ctr], ONE)
            return self.loop(x, fr, head, body, step)
        saved_env = dict(fr.env)
        o = gen(0, st)
        fr.env = saved_env
        n = o.get('n')
        x = o.get('t')
        if x is not None:
            # an element that could not be computed
            x.m.pop(out, None)
            self.pend.append(x)
        if n is not None and n is not st:
            st.m, st.g = n.m, n.g
        v = st.m.pop(out)
        if e.tk == 'set':
            return t.call('set', (v,))
        return v

    def quantified(self, name, e, st, fr):
        """any() or all() over a generator whose elements change the state: a loop that
        stops at the element that decides.  None when the elements change nothing."""
        if e.k != 'comp' or e.tk != 'gen' or len(e.gens) != 1:
            return None
        try0, pend, env = st.copy(), list(self.pend), dict(fr.env)
        self.e_comp(e, try0, fr)
        changed = any(try0.m.get(r) != v for r, v in st.m.items()) or len(self.pend) != len(pend)
        self.pend, fr.env = pend, env
        if not changed:
            return None
        out = self.newroot(fr, '$found')
        st.m[out] = FALSE if name == 'any' else TRUE
        tg, it, conds = e.gens[0]
        n, el, b = self.iterview(it, st, fr)
        ctr = self.newroot(fr, '$k')
        st.m[ctr] = ZERO

        def branch(c, y, yes, no):
            if c == TRUE:
                return yes(y)
            if c == FALSE:
                return no(y)
            a, z = y.copy(), y.copy()
            a.g = t.and_(y.g, c)
            z.g = t.and_(y.g, t.not_(c))
            return self.join(c, yes(a), no(z))

        def hit(y):
            y.m[out] = TRUE if name == 'any' else FALSE
            return {'b': y}

        def go(y):
            return {'n': y}

        def element(y):
            q = t.truth(self.rv(e.elt, y, fr))
            return branch(q if name == 'any' else t.not_(q), y, hit, go)

        def body(y):
            self.assign_target(tg, el(y.m[ctr]), y, fr)
            c = TRUE
            for q in conds:
                c = t.and_(c, t.truth(self.rv(q, y, fr)))
            return branch(c, y, element, go)

        def step(y):
            y.m[ctr] = t.add(y.m[ctr], ONE)
        o = self.loop(st, fr, lambda y: t.lt(y.m[ctr], n), body, step)
        fr.env = env
        x = o.get('t')
        if x is not None:
            x.m.pop(out, None)
            self.pend.append(x)
        n = o.get('n')
        if n is not None and n is not st:
            st.m, st.g = n.m, n.g
        return st.m.pop(out)

    # ------------------------------------------------------------------ calls (C++)
    def inlinable(self, fn, e=None):
        if fn is None or not fn.body:
            return False
        if fn.qname in self.opaque or fn.name in self.opaque or '%s/%d' % (fn.qname, len(fn.params)) in self.opaque:
            return False
        if fn.cls in BUFFERS and fn.isctor:
            return False
        if fn.virtual and fn.qname not in self.inline_virtual:
            if e is not None and e.get('recv') is not None and self.exact(e):
                return True
            return False
        return self.depth < 14

    def exact(self, e):
        """receiver of a virtual call whose dynamic type is known (a by-value object)"""
        return False

    def target(self, fn, e):
        return fn

    def e_call(self, e, st, fr):
        fn = self.prog.fns.get(e.key)
        v = self.call(e, st, fr)
        if fn is not None and strip_cv(fn.ret).endswith('&') and self.inlinable(fn, e):
            return self.read(st, self.deref(v))
        return v

    def call(self, e, st, fr, raw=False):
        fn = self.prog.fns.get(e.key)
        recv = None
        if e.recv is not None and not fn.static:
            recv = self.lv(e.recv, st, fr)
            if recv is None:
                recv = self.temp(st, self.rv(e.recv, st, fr))
        if fn.cls in BUFFERS:
            r = self.buffer_call(fn, e, recv, st, fr)
            if r is not None:
                return r
        if not self.inlinable(fn, e):
            return self.opaque_call(fn, e, recv, st, fr)
        nf = Frame(fn, self, 0)
        nf.this = recv
        self.bind(fn, nf, e.args, st, fr)
        self.depth += 1
        self.inlined.add(fn.qname)
        out, thr = self.finish(fn, nf, st)
        self.depth -= 1
        return self.after_call(st, out, thr)

    def buffer_call(self, fn, e, recv, st, fr):
        if fn.name == 'operator=':
            v = self.rv(e.args[0], st, fr)
            self.write(st, recv, v)
            return v
        if fn.name == 'operator[]':
            l = self.ext(recv, 'i', self.rv(e.args[0], st, fr))
            if strip_cv(fn.ret).endswith('&'):
                return self.addr(l)
            return self.read(st, l)
        return None

    def argterm(self, v, st):
        """arguments that point to locals are replaced by what they point to"""
        if v[0] == 'ite':
            return t.ite(v[1], self.argterm(v[2], st), self.argterm(v[3], st))
        if v[0] == 'ptr':
            x = self.read(st, v[1])
            return x if v[2] == ZERO else T('tuple', (x, v[2]))
        if v[0] == 'addr':
            return self.read(st, v[1])
        return v

    def opaque_call(self, fn, e, recv, st, fr):
        args = []
        outs = []
        for i, p in enumerate(fn.params):
            a = e.args[i] if i < len(e.args) else None
            if a is None or a.k == 'defarg':
                d = self.prog.lower.default(p)
                args.append(self.rv(d, st, fr) if d is not None else T('in', 'default', ''))
                continue
            ty = p.type.rstrip()
            if ty.endswith('&'):
                l = self.lv(a, st, fr)
                if l is None:
                    l = self.temp(st, self.rv(a, st, fr))
                x = self.read(st, l)
                if not ty.startswith('const '):
                    outs.append((i, l))
                    if x[0] == 'fld' and x[1][0] == 'new':
                        x = UNDEF          # not initialised
                args.append(x)
            elif ty.endswith('*') and not ty.startswith('const '):
                v = self.rv(a, st, fr)
                if v[0] in ('ptr', 'addr', 'ite'):
                    outs.append((i, self.deref(v)))
                args.append(self.argterm(v, st))
            else:
                args.append(self.argterm(self.rv(a, st, fr), st))
        return self.emit(fn.name, recv, args, outs, not fn.const and recv is not None, st, e.line,
                         ret=fn.ret, fn=fn)

    def emit(self, name, recv, args, outs, mutates, st, line, ret='', fn=None):
        """an uninterpreted call: result and new values are functions of the
        receiver, the arguments and, for effectful globals, their state"""
        self.calls.append((name, line))
        if self.log is not None:
            self.log.append((name, None if recv is None else self.read(st, recv), tuple(args), st.g, line))
        S = None
        if fn is not None and fn.body:
            prog = self.cxx if self.lang == 'py' and self.cxx is not None else self.prog
            S = effects.summary(prog, fn, self.opaque, Ev)
        ts = []
        for i, a in enumerate(args):
            ts.append(view(S, 'p%d' % i, a, fn))
        old = None
        if recv is not None:
            old = self.read(st, recv)
            ts = [view(S, 'this', old, fn)] + ts
        ge = GLOBAL_EFFECT.get(name)
        glob = []
        if S is not None:
            for g in effects.GLOBALS:
                if g in S.reads or g in S.writes:
                    ts.append(self.get(st, g))
                    if g in S.writes:
                        glob.append(g)
        elif ge:
            ts.append(self.get(st, ge))
            glob.append(ge)
        ts = tuple(ts)
        for x in ts:
            check_size(x)
        if self.try_calls is not None:
            self.try_calls.append(t.call(name, ts))
        for g in glob:
            w = S.writes[g] if S is not None else effects.ALL
            new = t.call(name + '#' + g, ts)
            if w != effects.ALL and g == '$heap':
                new = T('hupd', self.get(st, g), tuple(sorted(w)), new)
            st.m[g] = new

        def change(root, l, before, label):
            w = S.writes.get(root, effects.NOFIELDS) if S is not None else effects.ALL
            if not w:
                return
            if w == effects.ALL:
                self.write(st, l, t.call(name + '#' + label, ts))
            else:
                self.write(st, l, t.upd_many(before, {f: t.call('%s#%s.%s' % (name, label, f), ts) for f in w}))
        if mutates:
            change('this', recv, old, 'this')
        for i, l in outs:
            change('p%d' % i, l, self.read(st, l), str(i))
        if ret and name not in t.CALLT:
            t.CALLT[name] = strip_cv(strip_cv(ret).rstrip('&').strip())
        return t.call(name, ts)

    def new_object(self, cls, ctor, args, st, fr):
        if cls in BUFFERS:
            vs = [self.rv(a, st, fr) for a in args]
            if not vs:
                return EMPTY
            ty = ctor or ''
            if '&' in ty:
                return vs[0]
            return T('fill', vs[0], ZERO)
        this = self.temp(st, T('new', cls))
        if ctor is None:
            c = [f for f in self.prog.fns.values() if f.cls == cls and f.isctor and not f.params and f.body
                 and not f.implicit]
            ctor = c[0].sig if c else 'void ()'
        ok = self.construct_into(N('new', cls=cls, ctor=ctor, args=args), this, st, fr)
        if not ok:
            # implicit constructor: members default initialised
            for f, ty, s in self.allfields(cls):
                if not s and tkind(ty) in ('vec', 'map', 'string', 'set', 'pair', 'class') \
                        and not ty.rstrip().endswith('&'):
                    self.write(st, self.ext(this, 'f', f), self.default_value(ty, st, fr))
        v = self.read(st, this)
        del st.m[this[1]]
        return v

    def e_new(self, e, st, fr):
        return self.new_object(e.cls, e.ctor, e.args, st, fr)

    def e_bnew(self, e, st, fr):
        return t.call('new:' + e.cls, tuple(self.rv(a, st, fr) for a in e.args))

    def e_bctor(self, e, st, fr):
        vs = [self.rv(a, st, fr) for a in e.args]
        if e.tk == 'vec':
            if not vs:
                return EMPTY
            if len(e.args) == 1 and e.args[0].k == 'initlist':
                return vs[0]
            if len(vs) == 1 or len(vs) == 2 and not (e.atk[0] in ('iter', 'ptr') and e.atk[1] in ('iter', 'ptr')):
                n = vs[0]
                x = vs[1] if len(vs) == 2 else self.default_value(e.targs[0] if e.targs else 'int', st, fr)
                if n == ZERO:
                    return EMPTY
                return T('fill', n, x)
            return self.range_value(vs[0], vs[1], st)
        if e.tk in ('map', 'set'):
            return EMPTY if not vs else t.call('ctor:' + e.tk, tuple(vs))
        if e.tk == 'pair':
            if len(vs) == 2:
                return t.upd_many(T('new', 'pair'), {'first': vs[0], 'second': vs[1]})
            return self.default_value(e.ty, st, fr)
        if e.tk == 'string':
            return vs[0] if vs else T('s', '')
        if len(vs) == 1:
            return vs[0]
        return t.call('ctor:' + e.ty, tuple(vs))

    def range_value(self, b, e_, st):
        if b[0] == 'ptr' and e_[0] == 'ptr' and b[1] == e_[1]:
            v = self.read(st, b[1])
            return t.slice_(v, b[2], e_[2])
        return t.call('range', (self.argterm(b, st), self.argterm(e_, st)))

    def e_dyncall(self, e, st, fr):
        f = self.rv(e.f, st, fr)
        args = []
        for a in e.args:
            l = self.lv(a, st, fr)
            args.append(l if l is not None else self.temp(st, self.rv(a, st, fr)))
        return self.apply(f, args, st, fr)

    def apply(self, f, args, st, fr):
        """apply a function value to argument locations"""
        if f[0] == 'lamref':
            le, lf = self.lams[f[1]]
            params = le.params if le.get('params') is not None else le.fn.params
            body = le.body if le.get('body') is not None else le.fn.body
            fn = Fn('<lambda>', None, params, body, lang='py' if le.get('fn') else 'lambda')
            fn.ret = ''
            nf = Frame(fn, self, 0)
            nf.this = lf.this
            nf.outer = lf
            nf.env = dict(lf.env)
            for p, a in zip(params, args):
                if getattr(p, 'ref', False):
                    nf.env[p.id] = a
                else:
                    nf.env[p.id] = self.temp(st, self.read(st, a))
            self.depth += 1
            saved, self.pend = self.pend, []
            base = st.g
            st.g = TRUE
            o = self.block([body], st, nf)
            r, n = o.get('r'), o.get('n')
            if n is not None:
                n.m['$ret'] = NONE
            out = merge(r.g, r, n) if r is not None else n
            thr = o.get('t')
            self.pend = saved
            self.depth -= 1
            if out is not None:
                out.g = t.and_(base, out.g)
            return self.after_call(st, out, thr)
        vals = tuple(self.read(st, a) for a in args)
        if f[0] == 'func':
            # comparison functions and the like
            c = [x for x in self.prog.fns.values() if x.name == f[1] and x.cls is None and x.body
                 and len(x.params) == len(args)] if self.lang == 'c++' else []
            if len(c) == 1 and c[0].qname not in self.opaque:
                nf = Frame(c[0], self, 0)
                for p, a in zip(c[0].params, args):
                    nf.env[p.id] = a
                out, thr = self.finish(c[0], nf, st)
                return self.after_call(st, out, thr)
            return t.call(f[1], vals)
        return t.call('apply', (f,) + vals)

    # --- standard containers
    def e_mcall(self, e, st, fr):
        m = e.m
        tk = tkind(e.oty)
        l = self.lv(e.o, st, fr)
        if l is None:
            l = self.temp(st, self.rv(e.o, st, fr))
        if tk == 'other' or tk == 'class':
            args = [self.argterm(self.rv(a, st, fr), st) for a in e.args]
            return self.emit(m, l, args, [], m not in EXT_CONST, st, e.line, ret=e.get('ty') or '')
        v = self.read(st, l)
        A = e.args
        if m in ('size', 'length'):
            return t.size(v)
        if m == 'empty':
            return t.eq(t.size(v), ZERO)
        if m in ('push_back', 'emplace_back'):
            if m == 'emplace_back' and len(A) != 1:
                x = t.call('emplace', tuple(self.rv(a, st, fr) for a in A))
                el = targ(e.oty)
                if tkind(el) == 'pair' and len(A) == 2:
                    x = t.upd_many(T('new', 'pair'), {'first': self.rv(A[0], st, fr),
                                                      'second': self.rv(A[1], st, fr)})
            else:
                x = self.rv(A[0], st, fr)
            self.write(st, l, t.push(self.read(st, l), x))
            return NONE
        if m == 'pop_back':
            self.write(st, l, t.pop(v))
            return NONE
        if m == 'back':
            return t.back(v)
        if m == 'front':
            return t.idx(v, ZERO)
        if m in ('begin', 'cbegin', 'data'):
            return T('ptr', l, ZERO)
        if m in ('end', 'cend'):
            return T('ptr', l, t.size(v))
        if m == 'at':
            return t.idx(v, self.rv(A[0], st, fr))
        if m == 'clear':
            self.write(st, l, EMPTY)
            return NONE
        if m in ('reserve', 'shrink_to_fit'):
            for a in A:
                self.rv(a, st, fr)
            return NONE
        if m == 'resize':
            n = self.rv(A[0], st, fr)
            v = self.read(st, l)
            if v[0] == 'dedup' and n == T('uniqn', v[1]):
                self.write(st, l, t.slice_(v, ZERO, n))
                return NONE
            if v[0] == 'over' and v[2] == ZERO and n == t.size(v[3]):
                self.write(st, l, v[3])
                return NONE
            if len(A) > 1:
                x = self.rv(A[1], st, fr)
                self.write(st, l, T('fill', n, x) if v == EMPTY else T('resize', v, n, x))
                return NONE
            if n == ZERO:
                self.write(st, l, EMPTY)
                return NONE
            if t.size(v) == n:
                return NONE
            d = self.default_value(targ(e.oty), st, fr)
            self.write(st, l, T('fill', n, d) if v == EMPTY else T('resize', v, n, d))
            return NONE
        if m == 'assign':
            vs = [self.rv(a, st, fr) for a in A]
            if len(vs) == 2 and vs[0][0] == 'ptr':
                self.write(st, l, self.range_value(vs[0], vs[1], st))
            else:
                self.write(st, l, T('fill', vs[0], vs[1]))
            return NONE
        if m == 'find':
            k = self.rv(A[0], st, fr)
            if tk in ('map', 'set'):
                return T('mapit', v, k, l)
        if m == 'count' and tk in ('map', 'set'):
            return t.ite(T('in?', self.rv(A[0], st, fr), v), ONE, ZERO)
        if m == 'insert':
            vs = [self.rv(a, st, fr) for a in A]
            v = self.read(st, l)
            if tk == 'vec' and len(vs) == 2 and vs[0][0] == 'ptr':
                i = vs[0][2]
                if i == t.size(v):
                    self.write(st, l, t.push(v, vs[1]))
                else:
                    self.write(st, l, T('insert', v, i, vs[1]))
                return T('ptr', l, i)
            if tk == 'vec' and len(vs) == 3 and vs[0][0] == 'ptr' and number(vs[1]):
                # so many copies of a value
                n = unclamp(vs[1])
                i = vs[0][2]
                new = t.cat(v, T('fill', n, vs[2])) if i == t.size(v) else \
                    t.cat(t.cat(t.slice_(v, ZERO, i), T('fill', n, vs[2])), t.slice_(v, i, t.size(v)))
                self.write(st, l, new)
                return T('ptr', l, i)
            if tk == 'vec' and len(vs) == 3 and vs[0][0] == 'ptr' and vs[0][2] == t.size(v):
                self.write(st, l, t.cat(v, self.range_value(vs[1], vs[2], st)))
                return NONE
            if tk == 'map' and len(vs) == 1:
                self.write(st, l, t.store(v, t.fld(vs[0], 'first'), t.fld(vs[0], 'second')))
                return NONE
            self.write(st, l, t.call('insert', (v,) + tuple(self.argterm(x, st) for x in vs)))
            return NONE
        if m == 'erase':
            vs = [self.rv(a, st, fr) for a in A]
            v = self.read(st, l)
            if len(vs) == 1 and vs[0][0] == 'ptr':
                self.write(st, l, T('erase', v, vs[0][2]))
                return vs[0]
            if len(vs) == 2 and vs[0][0] == 'ptr' and vs[1] == T('ptr', l, t.size(v)):
                self.write(st, l, t.slice_(v, ZERO, vs[0][2]))
                return NONE
            self.write(st, l, t.call('erase', (v,) + tuple(self.argterm(x, st) for x in vs)))
            return NONE
        if m == 'swap':
            l2 = self.lv(A[0], st, fr)
            if l2 is not None:
                w = self.read(st, l2)
                self.write(st, l, w)
                self.write(st, l2, v)
                return NONE
        if m == 'c_str':
            return v
        args = [self.argterm(self.rv(a, st, fr), st) for a in A]
        return self.emit(m, l, args, [], False, st, e.line, ret=e.get('ty') or '')

    def e_bcall(self, e, st, fr):
        fn = e.fn
        A = e.args
        if fn in ('printf', 'fprintf', 'operator<<', 'puts', 'fflush'):
            for a in A:
                self.rv(a, st, fr)
            return ZERO
        if fn == 'sizeof' and len(A) == 1 and A[0].k == 'const' and A[0].v in SIZEOF:
            return t.num(SIZEOF[A[0].v])
        if fn == 'sizeof':
            return t.call('sizeof', tuple(self.rv(a, st, fr) for a in A))
        if fn == 'swap' and len(A) == 2:
            l1, l2 = self.lv(A[0], st, fr), self.lv(A[1], st, fr)
            if l1 is not None and l2 is not None:
                a, b = self.read(st, l1), self.read(st, l2)
                self.write(st, l1, b)
                self.write(st, l2, a)
                return NONE
        vs = [self.rv(a, st, fr) for a in A]
        r = self.builtin(fn, vs, e, st, fr)
        if r is not None:
            return r
        args = [self.argterm(v, st) for v in vs]
        outs = []
        if e.get('targs'):
            args.append(T('s', e.targs))
        outs += self.ext_outs(e.get('pt') or (), A, vs, st, fr)
        return self.emit(fn, None, args, outs, False, st, e.line, ret=e.get('ty') or '')

    def ext_outs(self, pt, A, vs, st, fr):
        """arguments an external function may write"""
        outs = []
        for i, ty in enumerate(pt):
            if i >= len(A) or ty.startswith('const ') or ty == 'FILE *':
                continue
            ty = re.sub(r'\b(const|restrict|__restrict|volatile)\b', '', ty).rstrip()
            if ty.endswith('&') and not ty.endswith('&&'):
                l = self.lv(A[i], st, fr)
                if l is not None:
                    outs.append((i, l))
            elif ty.endswith('*'):
                v = vs[i]
                if v[0] in ('ptr', 'addr', 'ite'):
                    outs.append((i, v[1] if v[0] == 'ptr' and v[2] == ZERO else self.deref(v)))
        return outs

    def builtin(self, fn, vs, e, st, fr):
        n = len(vs)
        isint = e.get('int')
        if fn in ('fabs', 'abs') and n == 1:
            return t.abs_(vs[0])
        if fn == 'pow' and n == 2:
            return self.binop('**', vs[0], vs[1], False, False)
        if fn in ('sqrt', 'log', 'exp', 'floor', 'ceil', 'isinf', 'isnan', 'sin', 'cos', 'round') and n == 1:
            return t.call(fn, (vs[0],))
        if fn == 'max' and n == 2:
            return t.ite(t.lt(vs[0], vs[1]), vs[1], vs[0])
        if fn == 'min' and n == 2:
            return t.ite(t.lt(vs[1], vs[0]), vs[1], vs[0])
        if fn == 'time' and n == 1:
            now = t.call('time_now', ())
            if vs[0][0] in ('ptr', 'addr', 'ite'):
                self.write(st, self.deref(vs[0]), now)
            return now
        if fn in ('MPI_Comm_rank', 'MPI_Comm_size') and n == 2 and vs[1][0] in ('ptr', 'addr', 'ite'):
            self.write(st, self.deref(vs[1]), t.call('mpi_' + fn[9:], (vs[0],)))
            return ZERO
        if fn in ('move', 'forward', 'ref', 'cref') and n == 1:
            return vs[0]
        if fn == 'make_pair' and n == 2:
            return t.upd_many(T('new', 'pair'), {'first': vs[0], 'second': vs[1]})
        if fn in ('begin', 'cbegin') and n == 1:
            l = self.lv(e.args[0], st, fr)
            return T('ptr', l, ZERO) if l is not None else None
        if fn in ('end', 'cend') and n == 1:
            l = self.lv(e.args[0], st, fr)
            return T('ptr', l, t.size(self.read(st, l))) if l is not None else None
        if fn == 'distance' and n == 2:
            return t.sub(vs[1], vs[0])
        if fn in ('next', 'prev') and n >= 1 and vs[0][0] == 'ptr':
            d = vs[1] if n > 1 else ONE
            return t.add(vs[0], d) if fn == 'next' else t.sub(vs[0], d)
        if n >= 2 and vs[0][0] == 'ptr' and vs[1][0] == 'ptr' and vs[0][1] == vs[1][1]:
            l, lo, hi = vs[0][1], vs[0][2], vs[1][2]
            v = self.read(st, l)
            cnt = t.sub(hi, lo)
            self.uid += 1
            K = T('it', 't%d' % self.uid)
            el = t.idx(v, t.add(lo, K))

            def pred(f, *xs):
                ls = []
                for x in xs:
                    ls.append(self.temp(st, x))
                s2 = st.copy()
                return t.truth(self.apply(f, ls, s2, fr))
            if fn == 'find' and n == 3:
                return T('ptr', l, t.add(lo, t.close('fst', cnt, K, self.eqv(el, vs[2], st, fr))))
            if fn in ('find_if', 'find_if_not', 'any_of', 'none_of', 'all_of', 'count_if') and n == 3:
                c = pred(vs[2], el)
                if fn == 'find_if':
                    return T('ptr', l, t.add(lo, t.close('fst', cnt, K, c)))
                if fn == 'find_if_not':
                    return T('ptr', l, t.add(lo, t.close('fst', cnt, K, t.not_(c))))
                if fn == 'any_of':
                    return t.close('ex', cnt, K, c)
                if fn == 'none_of':
                    return t.not_(t.close('ex', cnt, K, c))
                if fn == 'all_of':
                    return t.not_(t.close('ex', cnt, K, t.not_(c)))
                return t.close('sum', cnt, K, t.ite(c, ONE, ZERO))
            if fn == 'count' and n == 3:
                return t.close('sum', cnt, K, t.ite(self.eqv(el, vs[2], st, fr), ONE, ZERO))
            if fn == 'accumulate' and n == 3:
                return t.add(vs[2], t.close('sum', cnt, K, el))
            if fn == 'lower_bound' and n in (3, 4):
                c = t.lt(el, vs[2]) if n == 3 else pred(vs[3], el, vs[2])
                return T('ptr', l, t.add(lo, t.close('fst', cnt, K, t.not_(c))))
            if fn == 'upper_bound' and n in (3, 4):
                c = t.lt(vs[2], el) if n == 3 else pred(vs[3], vs[2], el)
                return T('ptr', l, t.add(lo, t.close('fst', cnt, K, c)))
            if fn == 'fill' and n == 3:
                self.write(st, l, t.close('blit', cnt, K, vs[2], before=(v, lo)))
                return NONE
            if fn == 'iota' and n == 3:
                self.write(st, l, t.close('blit', cnt, K, t.add(vs[2], K), before=(v, lo)))
                return NONE
            if fn == 'copy' and n == 3 and vs[2][0] == 'ptr':
                d = self.read(st, vs[2][1])
                self.write(st, vs[2][1], t.close('blit', cnt, K, el, before=(d, vs[2][2])))
                return t.add(vs[2], cnt)
            if fn in ('sort', 'stable_sort') and lo == ZERO and hi == t.size(v):
                if n == 2:
                    self.write(st, l, T('sorted', v))
                else:
                    a, b = T('in', 'cmpa', ''), T('in', 'cmpb', '')
                    self.write(st, l, T('sorted', v, pred(vs[2], a, b)))
                return NONE
            if fn == 'unique' and lo == ZERO and hi == t.size(v):
                u = t.call('uniq', (v,))
                self.write(st, l, u if False else T('dedup', v))
                return T('ptr', l, T('uniqn', v))
            if fn == 'for_each' and n == 3:
                f = vs[2]
                ctr = self.newroot(fr, '$k')
                st.m[ctr] = lo

                def body(x):
                    self.apply(f, [self.ext(l, 'i', x.m[ctr])], x, fr)
                    return {'n': x}

                def step(x):
                    x.m[ctr] = t.add(x.m[ctr], ONE)
                o = self.loop(st, fr, lambda x: t.lt(x.m[ctr], hi), body, step)
                if 'n' in o:
                    st.m, st.g = o['n'].m, o['n'].g
                return NONE
            if fn in ('max_element', 'min_element') and n == 2:
                return T('ptr', l, t.call(fn, (t.slice_(v, lo, hi),)))
            if fn == 'transform' and n == 4 and vs[2][0] == 'ptr':
                ls = [self.temp(st, el)]
                x = self.apply(vs[3], ls, st.copy(), fr)
                d = self.read(st, vs[2][1])
                self.write(st, vs[2][1], t.close('blit', cnt, K, x, before=(d, vs[2][2])))
                return NONE
        if fn in ('memcpy', 'memmove') and n == 3 and vs[0][0] == 'ptr' and vs[1][0] == 'ptr':
            src = self.read(st, vs[1][1])
            w = [SIZEOF.get(strip_cv(targ(t.typeof(self.read(st, v[1])) or '') or '')) for v in vs[:2]]
            w = [x for x in w if x]
            if w and len(set(w)) == 1 and vs[0][1] != vs[1][1]:
                self.uid += 1
                K = T('it', 't%d' % self.uid)
                d = self.read(st, vs[0][1])
                cnt = t.mul(vs[2], T('n', Fraction(1, w[0])))
                self.write(st, vs[0][1], t.close('blit', cnt, K, t.idx(src, t.add(vs[1][2], K)),
                                                 before=(d, vs[0][2])))
                return vs[0]
            return self.emit('memcpy', None, [T('tuple', (src, vs[1][2])), vs[2]],
                             [(0, vs[0][1] if vs[0][2] == ZERO else self.deref(vs[0]))], False, st, e.line)
        return None

    def eqv(self, a, b, st, fr):
        return t.eq(a, b)

    # ------------------------------------------------------------------ calls (python)
    def e_pycall(self, e, st, fr):
        from pybuiltin import pycall
        return pycall(self, e, st, fr)

    def e_star(self, e, st, fr):
        return self.rv(e.e, st, fr)


BUFFERS = {}         # class -> (size field, raw pointer field)
GLOBAL_EFFECT = {}   # function name -> state root it reads and advances


EXT_CONST = ('entropy', 'what', 'c_str', 'str', 'min', 'max', 'count', 'data', 'good', 'is_open', 'get')


def reach(a, dep):
    out = []
    todo = [a]
    while todo:
        x = todo.pop(0)
        if x in out:
            continue
        out.append(x)
        todo += [y for y in dep[x] if y not in out]
    return out


def conj(c):
    """split a condition into forced literals and the rest"""
    lits = []
    while True:
        if c == TRUE:
            return lits, TRUE
        if c[0] == 'ite':
            if c[3] == FALSE:
                lits.append((c[1], True))
                c = c[2]
                continue
            if c[2] == FALSE:
                lits.append((c[1], False))
                c = c[3]
                continue
            return lits, c
        if c == FALSE:
            return lits, FALSE
        lits.append((c, True))
        return lits, TRUE


def restrict(x, lits):
    for a, v in lits:
        x = t.assume(x, a, v)
    return x


SIZEOF = {'int': 4, 'double': 8, 'float': 4, 'char': 1, 'bool': 1, 'unsigned int': 4, 'unsigned char': 1,
          'long': 8, 'unsigned long': 8, 'size_t': 8, 'uint32_t': 4, 'uint64_t': 8}


def bound(a, val, K):
    """upper bound on K implied by literal (a == val), None if it is not of that form"""
    if a[0] not in ('lt', 'le', 'eq') or not t.uses(a, K):
        return None
    q, c = a[1], a[2]
    if q[0] == 'tuple' or q[0] == 'ite':
        return None
    d = t._poly(q)
    al = d.pop(((K, 1),), None)
    if al is None:
        return None
    rest = t._unpoly(d)
    if t.uses(rest, K) or t.uses(c, K):
        return None
    lim = t.sub(c, rest)           # al*K  (op)  lim
    if a[0] == 'eq':
        if val:
            if lim == ZERO and al == 1:
                return ONE
            return None
        lim = t.mul(T('n', 1 / al), lim)
        return lim
    lt_ = a[0] == 'lt'
    if al > 0 and val:
        pass
    elif al < 0 and not val:
        # al*K >= lim  (not lt)  ->  K <= lim/al ;  not le -> K < lim/al
        lt_ = a[0] == 'le'
    else:
        return None
    lim = t.mul(T('n', 1 / al), lim)
    if abs(al) != 1 and not t.is_int(lim):
        # K < lim -> ceil(lim)
        den = abs(al)
        if den.denominator == 1 and lt_:
            return t.idiv(t.add(t.mul(T('n', den), lim), t.num(den - 1)), t.num(den))
        return None
    return lim if lt_ else t.add(lim, ONE)


CONTAINERS = ('store', 'push', 'pop', 'blit', 'map', 'cat', 'flat', 'fill', 'list', 'empty', 'slice', 'tuple', 'upd', 'new')


def ends(x):
    if x[0] == 'ite':
        return ends(x[2]) + ends(x[3])
    if x[0] == 'fold':
        return [y for z in x[3] + x[4] for y in ends(z)]
    return [x]



def isbool(x):
    k = x[0]
    if k == 'b' or k in t.BOOLTAGS:
        return True
    if k == 'ite':
        return isbool(x[2]) and isbool(x[3])
    if k in ('in', 'fld', 'idx', 'call', 'acc'):
        ty = t.typeof(x)
        return bool(ty) and tkind(ty) == 'bool'
    return False


def numericish(nx, a):
    """nx may be a + something"""
    if nx[0] == 'ite':
        return numericish(nx[2], a) and numericish(nx[3], a)
    if nx == a:
        return True
    if nx[0] == 'poly':
        return True
    return nx[0] == 'ptr'


def absorb(nx, a):
    """nx == ite(g, v, a) with v constant: (g, v)"""
    vals = set()

    def leaves(x):
        if x[0] == 'ite':
            leaves(x[2])
            leaves(x[3])
        else:
            vals.add(x)
    leaves(nx)
    vals.discard(a)
    if len(vals) != 1:
        return None, None
    v = next(iter(vals))

    def g(x):
        if x[0] == 'ite':
            return t.ite(x[1], g(x[2]), g(x[3]))
        return TRUE if x == v else FALSE
    return g(nx), v


def appends_only(x, a):
    if x == a:
        return True
    if x[0] == 'push':
        return appends_only(x[1], a) and not t.uses(x[2], a)
    if x[0] == 'cat':
        return appends_only(x[1], a) and not t.uses(x[2], a)
    if x[0] == 'ite':
        return not t.uses(x[1], a) and appends_only(x[2], a) and appends_only(x[3], a)
    return False
