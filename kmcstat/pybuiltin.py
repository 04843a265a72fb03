"""Calls in Python syntax (the python layer and the reference models)."""
import terms as t
from terms import T, TRUE, FALSE, NONE, ZERO, ONE, num
import evalr
from evalr import EMPTY, UNDEF, Frame, loc, State, Unsupported
from cxxlow import strip_cv, tkind
from ir import N

PURE = {'time_now', 'mpi_rank', 'mpi_size', 'str', 'repr', 'float', 'int', 'sqrt', 'exp', 'log', 'floor', 'ceil', 'isinf', 'isnan', 'type', 'id',
        'hash', 'list', 'tuple', 'dict', 'set', 'sorted', 'sum', 'round', 'numpy', 'divmod', 'getattr', 'hasattr',
        'callable', 'iter', 'next', 'frozenset', 'bool', 'complex', 'ord', 'chr', 'format', 'issubclass', 'vars',
        'map', 'filter', 'dir'}


def pycall(ev, e, st, fr):
    f = e.f
    # ---- plain names
    if f.k in ('glob', 'var'):
        name = f.name
        if f.k == 'var':
            v = ev.rv(f, st, fr)
            if v[0] == 'lamref':
                return ev.apply(v, [arg_loc(ev, a, st, fr) for a in e.args], st, fr)
            if v[0] == 'func':
                name = v[1]
            elif v[0] == 'glob':
                name = v[1]
            elif v[0] == 'ite' and functions(v):
                return either(ev, v, e, st, fr)
            else:
                args = [ev.rv(a, st, fr) for a in e.args] + [ev.rv(a, st, fr) for k, a in e.kw]
                return world_call(ev, 'apply', None, [v] + args, st, e.line)
        return name_call(ev, name, e, st, fr)
    if f.k == 'field':
        return method_call(ev, e, st, fr)
    v = ev.rv(f, st, fr)
    args = [ev.rv(a, st, fr) for a in e.args]
    if v[0] == 'lamref':
        return ev.apply(v, [ev.temp(st, a) for a in args], st, fr)
    return world_call(ev, 'apply', None, [v] + args, st, e.line)


def functions(v):
    if v[0] == 'ite':
        return functions(v[2]) and functions(v[3])
    return v[0] in ('func', 'glob')


def either(ev, v, e, st, fr):
    """call of one of several functions"""
    if v[0] != 'ite':
        return name_call(ev, v[1], e, st, fr)
    a, b = st.copy(), st.copy()
    g = st.g
    a.g = t.and_(g, v[1])
    b.g = t.and_(g, t.not_(v[1]))
    x = either(ev, v[2], e, a, fr)
    y = either(ev, v[3], e, b, fr)
    m = evalr.merge(v[1], a, b)
    st.m, st.g = m.m, m.g
    return t.ite(v[1], x, y)


def arg_loc(ev, a, st, fr):
    l = ev.lv(a, st, fr)
    return l if l is not None else ev.temp(st, ev.rv(a, st, fr))


def inline_py(ev, fn, this, args, kw, st, fr, line):
    """inline a python function; args: IR nodes"""
    nf = Frame(fn, ev, 0)
    nf.this = this
    params = list(fn.params)
    if fn.cls and not fn.static and this is not None:
        nf.env[params[0].id] = this
        params = params[1:]
    kw = dict(kw)
    rest = list(args)
    for p in params:
        if p.star == '*':
            nf.env[p.id] = ev.temp(st, T('list', tuple(ev.rv(a, st, fr) for a in rest)) if rest else EMPTY)
            rest = []
            continue
        if p.star == '**':
            nf.env[p.id] = ev.temp(st, T('call', 'kwargs', tuple(ev.rv(v, st, fr) for k, v in sorted(kw.items()))))
            continue
        if rest and p.star != 'kw':
            a = rest.pop(0)
        elif p.name in kw:
            a = kw.pop(p.name)
        else:
            a = None
        if a is None:
            v = ev.rv(p.default, st, nf) if p.default is not None else UNDEF
            nf.env[p.id] = ev.temp(st, v)
            continue
        if a.k in ('var', 'field', 'index'):
            l = ev.lv(a, st, fr)
            if l is not None:
                v = ev.rv(a, st, fr)
                nf.env[p.id] = ev.temp(st, v)
                nf.alias[p.id] = l
                continue
        nf.env[p.id] = ev.temp(st, ev.rv(a, st, fr))
    if ev.depth > 14:
        raise Unsupported('recursion')
    ev.depth += 1
    ev.inlined.add(fn.qname)
    out, thr = ev.finish(fn, nf, st)
    ev.depth -= 1
    return ev.after_call(st, out, thr)


def py_inlinable(ev, fn):
    if fn is not None and ev.cxx is not None and fn.cls and not fn.name.startswith('_'):
        q = '%s::%s' % (fn.cls, fn.name)
        if q in ev.opaque or '%s/%d' % (q, len(fn.params) - 1) in ev.opaque:
            return False
    return fn is not None and fn.body is not None and fn.qname not in ev.opaque and fn.name not in ev.opaque


def name_call(ev, name, e, st, fr):
    fn = ev.prog.fns.get(name)
    if fn is not None and fn.cls is None and py_inlinable(ev, fn):
        return inline_py(ev, fn, None, e.args, e.kw, st, fr, e.line)
    # fused iteration builtins over comprehensions and views
    if name in ('any', 'all', 'sum', 'min', 'max', 'len', 'list', 'tuple', 'sorted', 'set') and len(e.args) == 1 \
            and not e.kw:
        a = e.args[0]
        if name == 'len':
            return t.size(ev.rv(a, st, fr))
        if name in ('any', 'all'):
            r = ev.quantified(name, a, st, fr)
            if r is not None:
                return r
        if name in ('list', 'tuple') and a.k == 'pycall' and a.f.k == 'glob' and a.f.name in ('range', 'zip',
                                                                                             'enumerate', 'xrange'):
            n, el, b = ev.iterview(a, st, fr)
            return closed(ev, 'map', n, el)
        v = ev.rv(a, st, fr) if not (a.k == 'pycall' and a.f.k == 'glob' and a.f.name in ('range', 'zip')) else None
        if v is None:
            n, el, b = ev.iterview(a, st, fr)
            v = closed(ev, 'map', n, el)
        return reduce_(ev, name, v)
    if name in ('zip', 'enumerate') and e.args and not e.kw and name not in ev.prog.fns:
        n, el, b = ev.iterview(e, st, fr)
        return closed(ev, 'map', n, el)
    args = [ev.rv(a, st, fr) for a in e.args]
    kw = [(k, ev.rv(v, st, fr)) for k, v in e.kw]
    if name == 'isinstance' and len(args) == 2:
        return isinst(args[0], args[1])
    if name in ('abs', 'fabs') and len(args) == 1:
        return t.abs_(args[0])
    if name in ('max', 'min') and len(args) == 2:
        if name == 'max':
            return t.ite(t.lt(args[0], args[1]), args[1], args[0])
        return t.ite(t.lt(args[1], args[0]), args[1], args[0])
    if name in ('float',) and len(args) == 1 and args[0][0] == 'n':
        return args[0]
    if name == 'float' and len(args) == 1 and ev.cxx is not None:
        return args[0]
    if name == 'int' and len(args) == 1:
        return t.trunc(args[0])
    if name == 'trunc' and len(args) == 1:
        return t.trunc(args[0])
    if name == 'idiv':
        return t.idiv(*args)
    if name == 'bool' and len(args) == 1:
        return t.truth(args[0])
    if name == 'pair' and len(args) == 2:
        return t.upd_many(T('new', 'pair'), {'first': args[0], 'second': args[1]})
    if name == 'pow' and len(args) == 2:
        return ev.binop('**', args[0], args[1], False, True)
    if name in ('range', 'xrange'):
        n, el, b = ev.iterview(e, st, fr)
        return closed(ev, 'map', n, el)
    if name == 'filled' and len(args) == 2:
        return T('fill', args[0], args[1]) if args[0] != ZERO else EMPTY
    if name == 'first_index':
        # first_index(n, lambda k: cond): smallest k in [0,n) with cond, n if none
        ev.uid += 1
        K = T('it', 't%d' % ev.uid)
        c = t.truth(ev.apply(args[1], [ev.temp(st, K)], st.copy(), fr))
        return t.close('fst', args[0], K, c)
    if name in ('exists', 'forall', 'summed', 'table'):
        ev.uid += 1
        K = T('it', 't%d' % ev.uid)
        c = ev.apply(args[1], [ev.temp(st, K)], st.copy(), fr)
        if name == 'summed':
            return t.close('sum', args[0], K, c)
        if name == 'table':
            return t.close('map', args[0], K, c)
        c = t.truth(c)
        if name == 'exists':
            return t.close('ex', args[0], K, c)
        return t.not_(t.close('ex', args[0], K, t.not_(c)))
    if name == 'print' or name == 'prettyPrint':
        return world_call(ev, 'print', None, args, st, e.line, root='$out')
    if name in ('comm_rank', 'comm_size') and ev.cxx is not None:
        if not getattr(ev.cxx, 'mpi', False):
            return ZERO if name == 'comm_rank' else ONE
        return t.call('mpi_' + name[5:], tuple(args))
    if name == 'undefined':
        return UNDEF
    if name == 'address' and ev.cxx is not None and len(args) == 2:
        # pointer to an element of a container
        return T('ptr', ev.lv(e.args[0], st, fr), args[1])
    if name == 'base' and ev.cxx is not None:
        # the part of a base class, from its constructor
        x = construct(ev, args[0][1], args[1:], st)
        for n, v in x[2]:
            ev.write(st, ev.ext(fr.this, 'f', n), v)
        return NONE
    if name == 'copy' and len(args) == 1:
        return args[0]
    if name == 'record':
        return t.upd_many(T('new', args[0][1]), dict((k, v) for k, v in kw))
    if name == 'typed':
        return args[0]
    cls = None
    # reference model of C++: construct C++ objects with their own constructors
    if ev.cxx is not None and name in ev.cxx.classes:
        r = construct(ev, name, args, st)
        if r is not None:
            return r
    # opaque C++ function named by the model
    if ev.cxx is not None:
        r = cxx_opaque(ev, name, None, e, args, st, fr)
        if r is not None:
            return r
    if name in ev.prog.classes:
        init = ev.prog.method(name, '__init__')
        return world_call(ev, 'new:' + name, None, args + [v for k, v in kwsort(kw, init, len(args))], st, e.line,
                          root=None)
    if name[:1].isupper() and name.endswith(('Error', 'Exception')):
        return T('call', name, tuple(args))
    if fn is not None and ev.cxx is None:
        return world_call(ev, name, None, bound(ev, fn, fn.params, args, kw, st), st, e.line, fn=fn)
    if name == 'str' and len(args) == 1 and not kw and args[0][0] in ('s', 'str', 'fmt', 'n'):
        return t.tostr(args[0])
    if name in PURE or name in ev.pure:
        r = t.call(name, tuple(args) + tuple(v for k, v in kw))
        if ev.try_calls is not None:
            ev.try_calls.append(r)
        return r
    return world_call(ev, name, None, args + [v for k, v in kwsort(kw, fn, len(args))], st, e.line)


# parameters that only end up in the text of an error
TEXT = ('msg', 'varname', 'parameter_name', 'message')


def bound(ev, fn, params, args, kw, st):
    """the arguments in the order of the parameters, defaults filled in"""
    kw = dict(kw)
    args = list(args)
    out = []
    for p in params:
        if p.star:
            return args + [v for k, v in sorted(kw.items())]
        v = args.pop(0) if args else kw.pop(p.name) if p.name in kw else None
        if v is None:
            v = ev.rv(p.default, st, Frame(fn, ev, 0)) if p.default is not None else UNDEF
        if p.name not in TEXT:
            out.append(v)
    return out + args + [v for k, v in sorted(kw.items())]


def can_raise(fn):
    if '_raises' not in fn.__dict__:
        from ir import find
        fn._raises = bool(fn.body) and bool(find(fn.body, lambda n: n.k in ('raise', 'throw')))
    return fn._raises


def may_raise(ev, st, cond):
    """the path on which an opaque call fails"""
    c = t.and_(st.g, cond)
    if c == FALSE:
        return
    ev.pend.append(evalr.State(dict(st.m), c))
    st.g = t.and_(st.g, t.not_(cond))


def kwsort(kw, fn, npos):
    """keyword arguments in the order of the parameters of fn"""
    if fn is None:
        return sorted(kw)
    order = {p.name: i for i, p in enumerate(fn.params)}
    return sorted(kw, key=lambda kv: order.get(kv[0], 99))


def construct(ev, name, args, st):
    c = [f for f in ev.cxx.fns.values() if f.cls == name and f.isctor and f.body
         and len(f.params) == len(args) and not (len(args) == 1 and name in f.params[0].type)]
    if name in evalr.BUFFERS:
        return T('fill', args[0], ZERO) if args else EMPTY
    if len(c) == 1:
        return cxx_inline(ev, c[0], args, st)
    if not args:
        return T('new', name)
    return None


def cxx_inline(ev, ctor, args, st):
    """run a C++ constructor on already evaluated arguments"""
    e2 = evalr.Ev(ev.cxx, 'c++', opaque=ev.opaque)
    e2.tmp = ev.tmp + 100000
    e2.uid = ev.uid + 100000
    this = e2.temp(st, T('new', ctor.cls))
    nf = Frame(ctor, e2, 0)
    nf.this = this
    for p, a in zip(ctor.params, args):
        nf.env[p.id] = e2.temp(st, a)
    out, thr = e2.finish(ctor, nf, st)
    e2.after_call(st, out, thr)
    ev.tmp = e2.tmp
    v = e2.read(st, this)
    del st.m[this[1]]
    return v


def cxx_run(ev, e2, fn, recv, e, args, st, fr):
    """run a C++ function for the reference model"""
    e2.tmp = ev.tmp + 100000
    e2.uid = ev.uid + 100000
    e2.depth = ev.depth + 1
    nf = Frame(fn, e2, 0)
    nf.this = recv
    for i, (p, a) in enumerate(zip(fn.params, args)):
        ty = p.type.rstrip()
        l = None
        if ty.endswith('&') and not ty.startswith('const '):
            l = ev.lv(e.args[i], st, fr)
        nf.env[p.id] = l if l is not None else e2.temp(st, a)
    out, thr = e2.finish(fn, nf, st)
    r = e2.after_call(st, out, thr)
    if evalr.strip_cv(fn.ret or '').rstrip().endswith('&') and r[0] in ('addr', 'ptr', 'ite', 'in', 'fld'):
        r = e2.read(st, e2.deref(r))
    ev.tmp, ev.uid = e2.tmp, e2.uid
    ev.calls += e2.calls
    return r


def cxx_opaque(ev, name, recv, e, args, st, fr, cls=None):
    c = {}
    for f in ev.cxx.fns.values():
        if f.name == name and len(f.params) >= len(args) and (f.cls is not None and not f.static) == (recv is not None) \
                and not f.isctor:
            c[f.sig] = f
    fns = [f for f in c.values() if len(f.params) == len(args)] or list(c.values())
    if not fns:
        if recv is None and name in evalr.GLOBAL_EFFECT:
            return ev.emit(name, None, args, [], False, st, e.line)
        x = ev.cxx.names()['ext'].get(name) if recv is None else None
        if x is not None:
            outs = []
            for i, ty in enumerate(x[0]):
                if i < len(e.args) and ty.endswith(('&', '*')) and not ty.startswith('const '):
                    l = ev.lv(e.args[i], st, fr)
                    if l is not None:
                        outs.append((i, l))
            return ev.emit(name, None, args, outs, False, st, e.line, ret=x[1])
        return None
    if len(fns) > 1 and recv is not None:
        ty = evalr.strip_cv(t.typeof(ev.read(st, recv)) or '')
        here = [f for f in fns if f.cls == ty]
        fns = here or fns
    if len(fns) > 1:
        def fits(f):
            n = 0
            for p_, a in zip(f.params, args):
                ty = evalr.strip_cv(t.typeof(a) or '')
                if ty and ty == evalr.strip_cv(p_.type.rstrip().rstrip('&').strip()):
                    n += 1
            return n
        fns = sorted(fns, key=fits, reverse=True)
    fn = fns[0]
    if len(fns) == 1 and fn.body and len(args) == len(fn.params):
        e2 = evalr.Ev(ev.cxx, 'c++', opaque=ev.opaque)
        if e2.inlinable(fn) and ev.depth < 10:
            return cxx_run(ev, e2, fn, recv, e, args, st, fr)
    const = any(f.const for f in fns)
    a2 = list(args)
    for i in range(len(args), len(fn.params)):
        d = ev.cxx.lower.default(fn.params[i])
        e2 = evalr.Ev(ev.cxx, 'c++')
        a2.append(e2.rv(d, st, Frame(fn, e2, 0)) if d is not None else T('in', 'default', ''))
    outs = []
    for i, p in enumerate(fn.params):
        ty = p.type.rstrip()
        if ty.endswith('&') and not ty.startswith('const ') and i < len(e.args):
            l = ev.lv(e.args[i], st, fr)
            if l is not None:
                outs.append((i, l))
    return ev.emit(name, recv, a2, outs, recv is not None and not const, st, e.line, ret=fn.ret, fn=fn)


def isinst(x, ty):
    if x[0] == 'ite':
        return t.ite(x[1], isinst(x[2], ty), isinst(x[3], ty))
    if ty[0] == 'tuple':
        r = FALSE
        for y in ty[1]:
            r = t.or_(r, isinst(x, y))
        return r
    if ty[0] == 'glob':
        nm = ty[1]
        if x[0] == 'in' and len(x) > 2 and x[2] == nm and nm[:1].isupper():
            return TRUE
        if x[0] in ('n', 'none', 's', 'list') and nm[:3] == 'KMC':
            return FALSE
        return t.isinst(x, nm)
    return T('isinst', x, t.show(ty))


def closed(ev, tag, n, el):
    ev.uid += 1
    K = T('it', 't%d' % ev.uid)
    return t.close(tag, n, K, el(K))


def reduce_(ev, name, v):
    if v[0] == 'ite':
        return t.ite(v[1], reduce_(ev, name, v[2]), reduce_(ev, name, v[3]))
    if name in ('list', 'tuple'):
        if v[0] == 'tuple' and name == 'list':
            return T('list', v[1]) if v[1] else EMPTY
        if v[0] == 'list' and name == 'tuple':
            return T('tuple', v[1])
        if v[0] in ('map', 'flat', 'cat', 'empty', 'list', 'tuple', 'fill', 'slice'):
            return v
        return t.call(name, (v,))
    if name in ('any', 'all'):
        if v[0] in ('list', 'tuple', 'empty'):
            r = FALSE if name == 'any' else TRUE
            for x in (v[1] if len(v) > 1 else ()):
                r = t.or_(r, x) if name == 'any' else t.and_(r, x)
            return r
        if v[0] == 'flat':
            # filtered generator
            return t.call(name, (v,))
        n, el = ev.termview(v)
        if name == 'any':
            return closed(ev, 'ex', n, lambda k: t.truth(el(k)))
        return t.not_(closed(ev, 'ex', n, lambda k: t.not_(t.truth(el(k)))))
    if name == 'sum':
        if v[0] in ('list', 'tuple', 'empty'):
            r = ZERO
            for x in (v[1] if len(v) > 1 else ()):
                r = t.add(r, x)
            return r
        if v[0] in ('map', 'idx', 'fld', 'in', 'blit', 'slice', 'fill', 'store'):
            n, el = ev.termview(v)
            return closed(ev, 'sum', n, el)
        return t.call('sum', (v,))
    if name == 'sorted':
        return T('sorted', v)
    return t.call(name, (v,))


def world_call(ev, name, recv, args, st, line, root='$world', recvterm=None, fn=None):
    """a call with unknown effects: ordered with all the others"""
    ev.calls.append((name, line))
    if ev.log is not None:
        ev.log.append((name, recv, tuple(args), st.g, line))
    ts = tuple(args)
    if recv is not None:
        ts = (recv,) + ts
    if fn is not None and ev.try_calls is None and can_raise(fn) and ev.cxx is None and fn.name in ev.pure:
        may_raise(ev, st, t.truth(t.call('fails:' + name, ts)))
    if name in ev.pure or root is None:
        r = t.call(name, ts)
        if ev.try_calls is not None:
            ev.try_calls.append(r)
        return r
    if root == '$out':
        return NONE
    if ev.cxx is None:
        t.STATEFUL.add(name)
        t.STATEFUL.add(name + '#w')
    w = ev.get(st, root)
    ts2 = ts + (w,)
    if name in ev.query:
        # looks at the state of the world without changing it
        r = t.call(name, ts2)
        if ev.try_calls is not None:
            ev.try_calls.append(r)
        return r
    for x in ts2:
        evalr.check_size(x)
    if ev.try_calls is not None:
        ev.try_calls.append(t.call(name, ts2))
    st.m[root] = t.call(name + '#w', ts2)
    return t.call(name, ts2)


def backend_new(m, args):
    """the wrapped containers of the backend behave like lists and maps"""
    if m.startswith('StdVector'):
        if not args:
            return EMPTY
        if len(args) == 2:
            return T('fill', args[0], args[1])
        if args[0][0] in ('list', 'map', 'flat', 'cat', 'empty', 'fill', 'push', 'fold'):
            return args[0]
        return t.call('StdVector', tuple(args))
    return None


LISTM = {'append', 'extend', 'pop', 'insert', 'remove', 'sort', 'clear', 'reverse'}


# methods of arrays that are also functions of numpy
NUMPYM = ('sum', 'mean', 'min', 'max', 'any', 'all', 'cumsum', 'reshape', 'ravel', 'round', 'argsort', 'prod', 'std',
          'nonzero', 'argmin', 'argmax')


def format_call(s, args):
    """'..{}..'.format(args)"""
    import re
    import pylow
    out = T('s', '')
    n = pos = 0
    for m in re.finditer(r'\{\{|\}\}|\{(\d*)(?::([^{}]*))?\}|[{}]', s):
        out = t.strcat(out, T('s', s[pos:m.start()]))
        pos = m.end()
        g = m.group(0)
        if g in ('{{', '}}'):
            out = t.strcat(out, T('s', g[0]))
            continue
        if g in ('{', '}'):
            return None
        i = int(m.group(1)) if m.group(1) else n
        n += 1
        if i >= len(args):
            return None
        x = args[i]
        if m.group(2):
            p = pylow.percent(m.group(2))
            if p is None:
                return None
            out = t.strcat(out, t.convert(p[1:], x))
        else:
            out = t.strcat(out, t.tostr(x))
    return t.strcat(out, T('s', s[pos:]))


def method_call(ev, e, st, fr):
    f = e.f
    m = f.f
    # module functions: math.sqrt, numpy.xyz, Class.method(self, ...)
    if f.o.k == 'glob':
        g = f.o.name
        if g in ev.prog.classes:
            fn = ev.prog.method(g, m)
            if py_inlinable(ev, fn):
                if fn.static:
                    return inline_py(ev, fn, None, e.args, e.kw, st, fr, e.line)
                l = ev.lv(e.args[0], st, fr)
                return inline_py(ev, fn, l, e.args[1:], e.kw, st, fr, e.line)
        if ev.prog.globals.get((f.o.get('mod'), g)) is None and not (
                ev.cxx is not None and g in ev.cxx.names()['globals']):
            args = [ev.rv(a, st, fr) for a in e.args]
            kw = [v for k, v in sorted((k or '', ev.rv(x, st, fr)) for k, x in e.kw)]
            if g in ('math', 'numpy', 'np', 'copy', 'os', 'time', 'sys', 'string'):
                if g == 'math' or m in ('sqrt', 'exp', 'log', 'floor', 'ceil'):
                    if m in ('fabs',):
                        return t.abs_(args[0])
                    r = t.call(m, tuple(args + kw))
                elif g == 'copy':
                    return args[0]
                elif g in ('time', 'os', 'sys'):
                    return world_call(ev, g + '.' + m, None, args + kw, st, e.line)
                else:
                    if m in ('array',) and len(args) >= 1:
                        r = t.call('numpy.array', tuple(args + kw))
                    else:
                        r = t.call('numpy.' + m, tuple(args + kw))
                if ev.try_calls is not None:
                    ev.try_calls.append(r)
                return r
            if g in ('Backend', 'Custom') and m[:1].isupper():
                r = backend_new(m, args)
                if r is not None:
                    return r
                return world_call(ev, 'new:' + m, None, args + kw, st, e.line, root=None)
            return world_call(ev, g + '.' + m, None, args + kw, st, e.line)
    # self.method() / super().method()
    if f.o.k == 'pycall' and f.o.f.k == 'glob' and f.o.f.name == 'super':
        c = fr.fn.cls
        for b in ev.prog.classes[c].bases if c in ev.prog.classes else []:
            fn = ev.prog.method(b, m)
            if py_inlinable(ev, fn):
                return inline_py(ev, fn, fr.this, e.args, e.kw, st, fr, e.line)
    l = ev.lv(f.o, st, fr)
    if l is not None and fr.this is not None and l == fr.this and fr.fn.cls:
        fn = ev.prog.method(ev.pytypes.get('self', fr.fn.cls), m) or ev.prog.method(fr.fn.cls, m)
        if py_inlinable(ev, fn):
            return inline_py(ev, fn, fr.this, e.args, e.kw, st, fr, e.line)
        if fn is not None and ev.cxx is None:
            args = bound(ev, fn, fn.params if fn.static else fn.params[1:], [ev.rv(a, st, fr) for a in e.args],
                         [(k, ev.rv(v, st, fr)) for k, v in e.kw], st)
            return world_call(ev, '.' + m, ev.read(st, l), args, st, e.line, fn=fn)
    v = ev.read(st, l) if l is not None else ev.rv(f.o, st, fr)
    # methods of known project classes on tracked types
    tyname = ev.pytypes.get(t.show(v))
    if tyname:
        fn = ev.prog.method(tyname, m)
        if py_inlinable(ev, fn) and l is not None:
            return inline_py(ev, fn, l, e.args, e.kw, st, fr, e.line)
    if l is None:
        l = ev.temp(st, v)
    # containers
    if m in ('append', 'push_back') and len(e.args) == 1:
        x = ev.rv(e.args[0], st, fr)
        ev.mutate(l, t.push(ev.read(st, l), x), f.o, st, fr)
        return NONE
    if m == 'extend' and len(e.args) == 1:
        x = ev.rv(e.args[0], st, fr)
        ev.mutate(l, ev.listcat(v, x), f.o, st, fr)
        return NONE
    if m == 'clear' and not e.args:
        ev.mutate(l, EMPTY, f.o, st, fr)
        return NONE
    if m in ('pop', 'pop_back') and not e.args:
        ev.mutate(l, t.pop(v), f.o, st, fr)
        return t.back(v)
    if m == 'insert' and len(e.args) == 2 and ev.cxx is not None:
        i, x = [ev.rv(a, st, fr) for a in e.args]
        v = ev.read(st, l)
        ev.mutate(l, t.push(v, x) if i == t.size(v) else T('insert', v, i, x), f.o, st, fr)
        return NONE
    if m == 'swap' and len(e.args) == 2:
        i, j = [ev.rv(a, st, fr) for a in e.args]
        a, b = t.idx(v, i), t.idx(v, j)
        ev.mutate(l, t.store(t.store(v, i, b), j, a), f.o, st, fr)
        return NONE
    if m == 'resize' and ev.cxx is not None:
        args = [ev.rv(a, st, fr) for a in e.args]
        n = args[0]
        if len(args) < 2:
            args.append(ZERO)
        if t.size(v) == n:
            return NONE
        if v[0] == 'over' and v[2] == ZERO and n == t.size(v[3]):
            ev.mutate(l, v[3], f.o, st, fr)
            return NONE
        ev.mutate(l, EMPTY if n == ZERO else T('fill', n, args[1]) if v == EMPTY else
                  T('resize', v, n, args[1]), f.o, st, fr)
        return NONE
    if m == 'sort' and not e.kw and not e.args:
        ev.mutate(l, T('sorted', v), f.o, st, fr)
        return NONE
    if m == 'unique' and ev.cxx is not None:
        ev.mutate(l, t.slice_(T('dedup', v), ZERO, T('uniqn', v)), f.o, st, fr)
        return NONE
    if ev.cxx is not None and evalr.strip_cv(t.typeof(v) or '') in ev.cxx.classes:
        args = [ev.rv(a, st, fr) for a in e.args]
        r = cxx_opaque(ev, m, l, e, args, st, fr)
        if r is not None:
            return r
    if m in ('items', 'keys', 'values') and not e.args:
        n, el, b = ev.iterview(e, st, fr)
        return closed(ev, 'map', n, el)
    args = [ev.rv(a, st, fr) for a in e.args]
    kw = [v2 for k, v2 in sorted((k or '', ev.rv(x, st, fr)) for k, x in e.kw)]
    if m == 'index' and len(args) == 1:
        r = t.call('index', (v, args[0]))
        if ev.cxx is not None:
            ev.uid += 1
            K = T('it', 't%d' % ev.uid)
            return t.close('fst', t.size(v), K, t.eq(t.idx(v, K), args[0]))
        return r
    if m == 'join' and len(args) == 1:
        if v[0] == 's' and args[0][0] in ('list', 'tuple', 'empty'):
            r = T('s', '')
            for i, x in enumerate(args[0][1] if len(args[0]) > 1 else ()):
                r = t.strcat(t.strcat(r, v) if i else r, x)
            return r
        if v == T('s', ''):
            n, el = ev.termview(args[0])
            return closed(ev, 'sum', n, el)
        return t.call('join', (v, args[0]))
    if m == 'format' and v[0] == 's' and not kw:
        r = format_call(v[1], args)
        if r is not None:
            return r
    if m in ('format', 'ljust', 'rjust', 'strip', 'split', 'lower', 'upper', 'startswith', 'endswith', 'replace',
             'get', 'count', 'copy', 'tolist', 'flatten', 'has_key', 'values', 'dot', 'transpose'):
        r = t.call('.' + m, (v,) + tuple(args + kw))
        if m == 'count' and ev.cxx is not None:
            ev.uid += 1
            K = T('it', 't%d' % ev.uid)
            return t.close('sum', t.size(v), K, t.ite(t.eq(t.idx(v, K), args[0]), ONE, ZERO))
        if m == 'copy':
            return v
        return r
    if ev.cxx is None and m in NUMPYM and not any(f.name == m for f in ev.prog.fns.values() if f.cls):
        return t.call('numpy.' + m, (v,) + tuple(args + kw))
    if m in LISTM:
        ev.mutate(l, t.call('.' + m + '#', (v,) + tuple(args + kw)), f.o, st, fr)
        return t.call('.' + m, (v,) + tuple(args + kw))
    if ev.cxx is not None:
        r = cxx_opaque(ev, m, l, e, args, st, fr)
        if r is not None:
            return r
        if l[1].startswith('g:'):
            return ev.emit(m, l, args, [], m not in evalr.EXT_CONST, st, e.line)
    # unknown python object
    return world_call(ev, '.' + m, v, args + kw, st, e.line)
