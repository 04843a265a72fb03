"""Obligations: the code of one function against its reference model.

The code side and the model side are both turned into value terms (evalr.py) and
compared output by output (compare.py)."""
import glob
import os
import signal
import time
import cxxast
import cxxlow
import pylow
import terms as t
import evalr
import compare
import anchors
from evalr import Ev, TooBig, Unsupported
from terms import T, TRUE, FALSE, NONE
import anchors

for _g in anchors.SAMESIZE:
    for _f in _g[1:]:
        t.SAMESIZE[_f] = _g[0]
from cxxlow import strip_cv

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('KMCSTAT_REPO', '/repo')
LIMIT = 60          # processor seconds for one evaluation
STARTED = time.time()


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


signal.signal(signal.SIGPROF, _alarm)


def alarm(seconds):
    """processor time, so that the answer does not depend on what else runs; once a
    check has taken long, little is left for what remains"""
    if seconds and (time.process_time() > 180 or time.time() - STARTED > 300):
        seconds = min(seconds, 8)
    signal.setitimer(signal.ITIMER_PROF, seconds)


class World(object):
    """The programs under analysis and the reference models."""

    def __init__(self, mpi=False, cxx=True, py=True):
        self.mpi = mpi
        self.cxx = cxxlow.lower(cxxast.load(REPO, mpi=mpi)) if cxx else None
        self.py = pylow.load(REPO) if py else None
        if self.cxx:
            self.cxx.mpi = mpi
        self.models = {}
        if self.cxx:
            self.setup_types()
        if self.py:
            anchors.set_queries(self)

    def setup_types(self):
        P = self.cxx
        t.FIELDT.clear()
        t.CLASSFIELDS.clear()
        t.CLASSFIELDS[frozenset(('first', 'second'))] = 'pair'
        amb = set()
        for c in P.classes.values():
            fs = set()
            for f, ty, s in c.fields:
                ty = strip_cv(strip_cv(ty).rstrip('&').strip())
                if f in t.FIELDT and t.FIELDT[f] != ty:
                    amb.add(f)
                t.FIELDT[f] = ty
            fs = [f for f, ty, s in allfields(P, c.name) if not s]
            if len(fs) > 1:
                t.CLASSFIELDS[frozenset(fs)] = c.name
        for f in amb:
            t.FIELDT[f] = ''
        ct = {}
        for fn in P.fns.values():
            r = strip_cv(strip_cv(fn.ret or '').rstrip('&').strip())
            if fn.name in ct and ct[fn.name] != r:
                r = ''
            ct[fn.name] = r
        t.CALLT.clear()
        t.CALLT.update(ct)
        # classes that own one raw array together with its length
        evalr.BUFFERS.clear()
        for c in P.classes.values():
            ptrs = [f for f, ty, s in c.fields if ty.rstrip().endswith('*') and not s and
                    ty.split()[0] in ('int', 'double')]
            ints = [f for f, ty, s in c.fields if ty.strip() in ('int', 'size_t', 'unsigned int') and not s]
            if len(ptrs) == 1 and len(ints) == 1 and len([1 for f in c.fields if not f[2]]) == 2:
                evalr.BUFFERS[c.name] = (ints[0], ptrs[0])
        evalr.GLOBAL_EFFECT.clear()
        for f in ('randomDouble01', 'seedRandom', 'setRngType'):
            evalr.GLOBAL_EFFECT[f] = '$rng'

    def model(self, name):
        if name not in self.models:
            self.models[name] = pylow.load_model([os.path.join(HERE, 'model', name + '.py')])
            m = self.models[name]
            for f in m.fns.values():
                f.target = 'py' if name.startswith('py_') else 'c++'
            m.own = dict(m.fns)
            if name.startswith('py_'):
                # what the model does not describe itself
                for k, f in self.py.fns.items():
                    m.fns.setdefault(k, f)
                for k, c in self.py.classes.items():
                    m.classes.setdefault(k, c)
        return self.models[name]

    def find_cxx(self, cls, name, nparams=None, sig=None):
        r = [f for f in self.cxx.fns.values() if f.cls == cls and f.name == name and f.body]
        r = {f.sig: f for f in r}
        r = list(r.values())
        if nparams is not None and len(r) > 1:
            r = [f for f in r if len(f.params) == nparams]
        if sig and len(r) > 1:
            r = [f for f in r if sig in f.sig]
        return r[0] if len(r) == 1 else None

    def py_find(self, cls, name):
        r = [f for f in self.py.fns.values() if f.cls == cls and f.name == name]
        return r[0] if len(r) == 1 else None

    def find_all(self, cls, name, nparams, sig=None):
        """the function, or all instantiations of a template"""
        r = {f.sig: f for f in self.cxx.fns.values() if f.cls == cls and f.name == name and f.body}
        r = [f for f in r.values() if sig is None or sig in f.sig]
        if sig is None and len(r) > 1:
            r2 = [f for f in r if len(f.params) == nparams]
            r = r2 or r
        return r


def allfields(P, cname):
    out = []
    c = P.classes.get(cname)
    if c is None:
        return out
    for b in c.bases:
        out += allfields(P, b)
    return out + c.fields


IGNORED_ROOTS = ('static:', 'g:', '$out', '$exc')


def reset():
    evalr.ROOTT.clear()
    t.reset_types()
    t.ACCT.clear()


def outputs(out, thr, keep=(), fn=None, init=None):
    """observable results of an evaluation: name -> term"""
    res = {}
    g = thr.g if thr is not None else FALSE
    res['raises'] = g
    if out is None or out.g == FALSE:
        return res
    byval = set()
    if fn is not None and fn.lang == 'c++':
        for i, p in enumerate(fn.params):
            if not p.type.rstrip().endswith(('&', '*', ']')):
                byval.add('p%d' % i)
    for r, v in out.m.items():
        if r in byval or init and r in init and r[0] == 'p' and v == init[r]:
            continue
        if r == '$ret':
            res['result'] = v
        elif not evalr.persistent(r):
            continue
        elif r.startswith(IGNORED_ROOTS) and not r.startswith(tuple(keep) or ('\0',)):
            continue
        elif v != evalr.default_root(r):
            res[r] = v
    return res


class Result(object):
    def __init__(self, status, parts=(), why='', fn=None, info=None):
        self.status = status          # eq / unk / diff / skip
        self.parts = parts
        self.why = why
        self.fn = fn
        self.info = info or {}


def evaluate(prog, lang, fn, opaque, cxx=None, inline_virtual=(), limit=LIMIT, names=None, pure=(), query=(), init=None):
    ev = Ev(prog, lang, opaque=opaque, cxx=cxx, inline_virtual=inline_virtual, pure=pure, query=query)
    alarm(limit)
    try:
        out, thr = ev.run_fn(fn, init=init)
        if out is not None and lang == 'c++' and strip_cv(fn.ret or '').rstrip().endswith('&') and '$ret' in out.m:
            # a returned reference stands for what it refers to
            r = out.m['$ret']
            if r[0] in ('addr', 'ptr', 'ite', 'in', 'fld'):
                out.m['$ret'] = ev.read(out, ev.deref(r))
    finally:
        alarm(0)
    return ev, out, thr


def bindings(world, model):
    """reference functions of a model and the code they describe"""
    out = []
    for key, f in model.own.items():
        code = getattr(f, 'code', None)
        if code is None and f.name.startswith('_') and f.name != '__init__':
            continue
        cls, name, sig = f.cls, f.name, None
        if code is not None:
            args, kw = code
            name = args[0] if args else name
            sig = kw.get('sig')
            cls = kw.get('cls', cls)
            if '::' in name:
                cls, name = name.split('::')
            if 'mpi' in kw and kw['mpi'] != world.mpi:
                continue
        npar = len(f.params) - (1 if f.cls and not f.static else 0)
        out.append((key, f, cls, name, npar, sig))
    return out


RANK = {'eq': 0, 'unk': 1, 'diff': 2}


def targets(world, b):
    key, f, cls, nm, npar, sig = b
    if world_lang(f) == 'py':
        fn = world.py_find(cls, nm)
        return [fn] if fn is not None else []
    return world.find_all(cls, nm, npar, sig)


def world_lang(f):
    return f.target


_known = []


def known_fields():
    """the fields the reference models mention"""
    if not _known:
        import ast
        import glob
        import os
        names = set()
        for f in glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'model', '*.py')):
            with open(f) as fh:
                tree = ast.parse(fh.read())

            def go(n, cls):
                for c in ast.iter_child_nodes(n):
                    k = c.name if isinstance(c, ast.ClassDef) else cls
                    if isinstance(c, ast.Attribute):
                        names.add(c.attr)
                        if c.attr.startswith('__') and not c.attr.endswith('__') and cls:
                            names.add('_' + cls.lstrip('_') + c.attr)
                    go(c, k)
            go(tree, '')
        _known.append(names)
    return _known[0]


def strip(x, y):
    """state x without the fields which no reference knows: what is stored
    there has an effect only where it is read"""
    known = known_fields()
    if x[0] != 'upd':
        return x, y
    d = {}
    b = x
    while b[0] == 'upd':
        for n, v in b[2]:
            d.setdefault(n, v)
        b = b[1]
    if all(n in known for n in d):
        return x, y
    e = {}
    c = y
    while c[0] == 'upd':
        for n, v in c[2]:
            e.setdefault(n, v)
        c = c[1]
    d = {n: v for n, v in d.items() if n in known}
    if b[0] == 'new' and b != c:
        b = c
    return t.upd_many(b, d), y


def compare_outputs(a, b, only=None):
    rs = []
    ga, gb = a.get('raises', FALSE), b.get('raises', FALSE)
    gab = t.or_(ga, gb)
    for k in sorted(set(a) | set(b)):
        if only and k not in only:
            continue
        if k == 'raises':
            x, y = a.get(k, FALSE), b.get(k, FALSE)
        elif k == 'result':
            x, y = a.get(k, NONE), b.get(k, NONE)
        else:
            x = a.get(k, evalr.default_root(k))
            y = b.get(k, evalr.default_root(k))
        # the forms of increasing cost; only the last one is pursued in depth
        forms = [(x, y)]
        if k not in ('raises', 'result'):
            forms.append(strip(x, y))
        deep = not any(r.v == compare.DIFF and not r.look for _, r in rs)
        try:
            alarm(LIMIT)
            for i, (x, y) in enumerate(forms):
                last = (k == 'raises' or gab == FALSE) and i == len(forms) - 1
                r = compare.compare(x, y, k != 'raises', deep=deep and last)
                if r.v == compare.EQ:
                    break
            if r.v != compare.EQ and k != 'raises' and gab != FALSE:
                # values on the raising paths are not results
                r = compare.compare(t.ite(gab, NONE, x), t.ite(gab, NONE, y), deep=deep)
        except Timeout:
            r = compare.R(compare.UNK, 'Timeout')
        finally:
            alarm(0)
        rs.append((k, r))
    return rs


def verdict(rs):
    vs = [r.v for k, r in rs]
    if all(v == compare.EQ for v in vs):
        return 'eq'
    if any(v == compare.DIFF for v in vs):
        return 'diff'
    return 'unk'


def constant(v):
    if isinstance(v, str):
        return T('s', 'enum:' + v)
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, list):
        return T('list', tuple(constant(x) for x in v))
    return t.num(v)


def given(root, v):
    """an input known to be None, a string, or something else than None"""
    if v is None:
        return NONE
    if v == 'str':
        return T('s', '<' + root + '>')
    if v == 'bad':
        return t.num(7)
    if v.startswith('a '):
        return T('in', root, v[2:])
    if v.startswith('='):
        return T('s', v[1:])
    return T('list', (T('in', root + '.first'), T('in', root + '.second')))


def check(world, fn, spec, model, opaque, **kw):
    """compare function fn of the tree with reference function spec; when the
    reference asks for it, separately for every value of an enumeration"""
    code = getattr(spec, 'code', None)
    if code and code[1].get('keep'):
        kw['keep'] = ('g:',)
    cases = code[1].get('cases') if code else None
    if not cases:
        return check1(world, fn, spec, model, opaque, **kw)
    if isinstance(cases, list):
        worst = None
        for c in cases:
            r = check1(world, fn, spec, model, opaque, init={k: given(k, v) for k, v in c.items()}, **kw)
            if worst is None or RANK[r.status] > RANK[worst.status]:
                worst = r
                if r.why:
                    r.why += ' (for %s)' % ', '.join('%s: %s' % kv for kv in c.items())
            if worst.status == 'diff':
                break
        worst.info['cases'] = len(cases)
        return worst
    (var, vals), = cases.items()
    rank = {'eq': 0, 'unk': 1, 'diff': 2}
    worst = None
    for v in vals:
        x = constant(v)
        if var.startswith('this.'):
            init = {'this': t.upd_many(T('in', 'this', fn.cls or ''), {var[5:]: x})}
            r = check1(world, fn, spec, model, opaque, init=init, **kw)
            if worst is None or rank[r.status] > rank[worst.status]:
                worst = r
                if r.why:
                    r.why += ' (for %s = %s)' % (var, v)
            if worst.status == 'diff':
                break
            continue
        root = var if var in ('this',) or var.startswith('p') and var[1:].isdigit() else 'g:' + var
        r = check1(world, fn, spec, model, opaque, init={root: x}, **kw)
        if worst is None or rank[r.status] > rank[worst.status]:
            worst = r
            if r.why:
                r.why += ' (for %s = %s)' % (var, v)
        if worst.status == 'diff':
            break
    worst.info['cases'] = len(vals)
    return worst


def mangled(o):
    """name under which a private method is called"""
    c, _, m = o.rpartition('.')
    if c and m.startswith('__') and not m.endswith('__'):
        return '_%s%s' % (c.split('.')[-1].lstrip('_'), m)
    return None


def constant_calls(world):
    """helpers of the library applied to constants"""
    t.CONSTFN.clear()
    if not world.py:
        return
    memo = world.__dict__.setdefault('constcalls', {})

    def of(fn):
        def value(args):
            k = (fn.qname, args)
            if k not in memo:
                memo[k] = None
                rt = dict(evalr.ROOTT)
                try:
                    ev = Ev(world.py, 'py', opaque=())
                    out, thr = ev.run_fn(fn, init={'p%d' % i: a for i, a in enumerate(args)})
                    g = thr.g if thr is not None else FALSE
                    if g == TRUE:
                        memo[k] = (NONE, TRUE)
                    elif g == FALSE and out is not None and t.fixed(out.m.get('$ret', NONE)):
                        memo[k] = (out.m.get('$ret', NONE), FALSE)
                except (TooBig, Unsupported, RecursionError):
                    pass
                evalr.ROOTT.clear()
                evalr.ROOTT.update(rt)
            return memo[k]
        return value
    for fn in world.py.fns.values():
        if fn.cls is None and fn.name in anchors.PY_UTIL and not any(p.star for p in fn.params):
            t.CONSTFN[fn.name] = of(fn)


def check1(world, fn, spec, model, opaque, cxx_spec=True, inline_virtual=(), only=None, pure=(), query=(), keep=(), init=None):
    lang = fn.lang
    prog = world.cxx if lang == 'c++' else world.py
    tries = []
    info = {}
    if lang == 'py':
        opaque, pure, query = anchors.PY_OPAQUE, anchors.PY_PURE, anchors.PY_QUERY
        # private helpers that have a reference model of their own
        opaque = list(opaque) + sorted(f.qname for f in model.fns.values() if f.cls and f.name.startswith('__')
                                       and not f.name.endswith('__'))
    op = set(opaque) - {fn.qname, '%s/%d' % (fn.qname, len(fn.params))}
    t0 = time.time()
    tried = set()
    best = None
    if lang == 'py':
        constant_calls(world)
    else:
        t.CONSTFN.clear()
    for rnd in range(4):
        reset()
        try:
            alarm(LIMIT * 2)
            eva, oa, ta = evaluate(prog, lang, fn, op, inline_virtual=inline_virtual, pure=pure, query=query,
                                   init=init)
            a = outputs(oa, ta, keep, fn, init)
            evb, ob, tb = evaluate(model, 'py', spec, op, cxx=world.cxx if lang == 'c++' else None, pure=pure,
                                  query=query, init=init)
            b = outputs(ob, tb, keep, fn, init)
            rs = compare_outputs(a, b, only)
        except Exception as e:      # limits, and constructs nobody thought of: undecided
            alarm(0)
            if best is None:
                best = Result('unk', [], '%s %s' % (type(e).__name__, e), fn)
            break
        finally:
            alarm(0)
        v = verdict(rs)
        r = Result(v, rs, '', fn, {'calls': len(eva.calls), 'inlined': sorted(eva.inlined),
                                   'loops': eva.loops, 'terms': sum(evalr.nodes(x) for x in a.values()),
                                   'outputs': len(rs)})
        bad = [(k, x) for k, x in rs if x.v == compare.DIFF] or [(k, x) for k, x in rs if x.v == compare.UNK]
        if bad:
            r.why = "%s: %s" % (bad[0][0], bad[0][1].why)
        if best is None or v == 'eq':
            best = r
        elif best.status == 'diff' and v == 'unk':
            # looking through the calls did not settle it
            best.status = 'unk' if info.get('calls_moved') else best.status
        if v == 'eq':
            break
        # look through calls that only one side makes
        from collections import Counter
        ca, cb = Counter(n for n, l in eva.calls), Counter(n for n, l in evb.calls)
        d = {n for n in set(ca) | set(cb) if ca[n] != cb[n]}
        if not d:
            # the result of a call against something else
            for k, x in rs:
                if x.v == compare.DIFF and x.pair:
                    h = [compare.head(y) for y in x.pair]
                    if h[0] != h[1]:
                        d |= {y.split('.')[-1].split('::')[-1] for y in h if y}
        for k, x in rs:
            if x.v == compare.DIFF:
                d |= {y.split('::')[-1] for y in x.look}
        d = {n.split('.')[-1] for n in d}
        d = {o for o in op if (o.split('::')[-1].split('.')[-1].split('/')[0] in d or mangled(o) in d) and o not in tried}
        info['calls_moved'] = bool(d)
        if not d:
            break
        tried |= d
        op = op - d
    best.info['wall'] = round(time.time() - t0, 2)
    return best
