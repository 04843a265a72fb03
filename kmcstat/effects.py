"""What a C++ function reads and writes, found by evaluating its body.

The summary of a function says for every root (the receiver, the reference
parameters, the heap behind pointers, the state of the random generator) which
fields are read and which are written.  A call that is kept opaque depends on
exactly the values read and changes exactly what is written."""
import terms as t
import evalr
from terms import T

ALL = 'all'
NOFIELDS = frozenset()
GLOBALS = ('$heap', '$rng')


def _union(a, b):
    return ALL if a == ALL or b == ALL else a | b


class Summary(object):
    def __init__(self):
        self.reads = {}
        self.writes = {}

    def merge(self, o):
        for r, x in o.reads.items():
            self.reads[r] = _union(self.reads.get(r, NOFIELDS), x)
        for r, x in o.writes.items():
            self.writes[r] = _union(self.writes.get(r, NOFIELDS), x)


def collect_reads(terms_, out):
    seen = set()
    todo = list(terms_)
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple) or x in seen:
            continue
        seen.add(x)
        if x and x[0] == 'fld' and x[1][0] == 'in':
            r = x[1][1]
            out[r] = _union(out.get(r, NOFIELDS), frozenset((x[2],)))
            continue
        if x and x[0] == 'in':
            out[x[1]] = ALL
            continue
        todo.extend(y for y in x if isinstance(y, tuple))


def written(v, root):
    """(fields, values) written to the object `root`, or ALL"""
    if v == root:
        return NOFIELDS, []
    if v[0] == 'ite':
        f1, v1 = written(v[2], root)
        f2, v2 = written(v[3], root)
        return _union(f1, f2), [v[1]] + v1 + v2
    if v[0] == 'upd' and v[1] == root:
        return frozenset(n for n, x in v[2]), [x for n, x in v[2]]
    return ALL, [v]


def heap_fields(v, base):
    """fields of heap objects changed between `base` and v"""
    if v == base:
        return NOFIELDS
    k = v[0]
    if k == 'ite':
        return _union(heap_fields(v[2], base), heap_fields(v[3], base))
    if k == 'store':
        f, _ = written(v[3], t.idx(v[1], v[2]))
        return _union(heap_fields(v[1], base), f)
    if k == 'hupd':
        return _union(heap_fields(v[1], base), frozenset(v[2]))
    if k == 'fold':
        return _union(heap_fields(v[3][0], base), heap_fields(v[4][0], T('acc', v[2], 0)))
    return ALL


def summary(prog, fn, opaque, evcls):
    """of fn and, when it is virtual, of everything that overrides it"""
    memo = prog.__dict__.setdefault('effects', {})
    key = (fn.cls if not fn.virtual else '*', fn.name, fn.sig)
    if key in memo:
        return memo[key]
    memo[key] = None           # recursion: unknown
    fns = [fn]
    if fn.virtual:
        fns = list({f.qname: f for f in prog.fns.values()
                    if f.name == fn.name and len(f.params) == len(fn.params) and f.cls}.values())
    s = Summary()
    for f in fns:
        r = _summary1(prog, f, opaque, evcls)
        if r is None:
            s = None
            break
        s.merge(r)
    memo[key] = s
    return s


def _summary1(prog, fn, opaque, evcls):
    if not fn.body:
        return None
    saved = dict(evalr.ROOTT)
    evalr.ROOTT.clear()
    try:
        ev = evcls(prog, 'c++', opaque=set(opaque) - {fn.qname, fn.name, '%s/%d' % (fn.qname, len(fn.params))})
        out, thr = ev.run_fn(fn)
        s = Summary()
        vals = []
        st = [x for x in (out, thr) if x is not None and x.g != t.FALSE]
        for o in st:
            vals.append(o.g)
            for r, v in o.m.items():
                if r == '$ret' or r == '$exc':
                    vals.append(v)
                    continue
                if not evalr.persistent(r) or r.startswith(('static:', 'g:', '$out')):
                    continue
                root = evalr.default_root(r)
                if v == root:
                    continue
                if r == '$heap':
                    s.writes[r] = _union(s.writes.get(r, NOFIELDS), heap_fields(v, root))
                    vals.append(v)
                else:
                    f, vs = written(v, root)
                    s.writes[r] = _union(s.writes.get(r, NOFIELDS), f)
                    vals += vs
        collect_reads(vals, s.reads)
        return s
    except (evalr.TooBig, evalr.Unsupported):
        return None
    finally:
        evalr.ROOTT.clear()
        evalr.ROOTT.update(saved)
