"""Canonical value terms.

A term is an immutable, interned tuple.  Arithmetic is kept in polynomial normal
form, conditions as ordered decision diagrams over canonical atoms, so that two
ways of writing the same computation give the same term.

  ('n', Fraction)  ('s', str)  ('b', bool)  ('none',)
  ('poly', ((mono, coef), ...))      mono = ((atom, power), ...)
  ('ite', cond_atom, a, b)           ordered, reduced
  ('lt', q, c) ('le', q, c) ('eq', q, c)     q: term without constant part
  ('eq2', a, b)                      equality of non numeric values
  ('in', name) ('fld', b, f) ('idx', b, i) ('size', v) ('call', f, args...) ...
  ('upd', base, ((f, v), ...)) ('store', v, i, x) ('push', v, x) ...
  ('it', h) ('acc', h, n)            variables bound by an enclosing fold of height h
"""
import re
import hashlib
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)

_TABLE = {}


class Term(tuple):
    """an interned term (a tuple that remembers its hash)"""

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            h = self._h = tuple.__hash__(self)
            return h


def T(*a):
    r = _TABLE.get(a)
    if r is None:
        r = Term(a)
        h = r._h = hash(a)
        m = 1 << (h & 1023)
        for x in a:
            if isinstance(x, tuple):
                m |= mask(x)
        r._m = m
        _TABLE[a] = r           # only now: a time limit may interrupt anywhere
    return r


def mask(x):
    """bloom filter of the sub terms of x"""
    if isinstance(x, Term):
        return x._m
    m = 0
    for y in x:
        if isinstance(y, tuple):
            m |= mask(y)
    return m


def bit(x):
    return 1 << (hash(x) & 1023)


TRUE = T('b', True)
FALSE = T('b', False)
NONE = T('none')
_keys = {}


def key(t):
    """A deterministic total order on terms (independent of evaluation order)."""
    k = _keys.get(t)
    if k is None:
        k = _key(t)
        _keys[t] = k
    return k


def _key(t):
    if isinstance(t, tuple):
        s = "(" + " ".join(key(x) if isinstance(x, tuple) else str(x) for x in t) + ")"
        if len(s) > 400:
            s = s[:80] + "#" + hashlib.md5(s.encode()).hexdigest()
        return s
    return str(t)


def num(x):
    if isinstance(x, float):
        x = Fraction(repr(x)) if x == x and abs(x) != float('inf') else x
        if isinstance(x, float):
            return T('s', repr(x))
    return T('n', Fraction(x))


ZERO = num(0)
ONE = num(1)

# atoms known to hold integers
INT = set()
FIELDT = {}        # field name -> declared type ('' when ambiguous)
CALLT = {}         # function name -> return type
TKIND = None       # set by the C++ front end (cxxlow.tkind)
TARG = None
_typeof = {}


def reset_types():
    _typeof.clear()
    _isint.clear()


def mark_int(t):
    if t[0] not in ('n', 'poly', 'ite', 'b', 's', 'none'):
        INT.add(t)


def typeof(t):
    """declared C++ type of the object a term denotes, '' if unknown"""
    r = _typeof.get(t)
    if r is None:
        r = _typeof_(t)
        _typeof[t] = r
    return r


def _typeof_(t):
    k = t[0]
    if k == 'in':
        return t[2] if len(t) > 2 else ''
    if k == 'fld':
        r = FIELDT.get(t[2], '')
        if t[2] in ('first', 'second'):
            b = typeof(t[1])
            if 'pair<' in b:
                a = TARGS(b)
                if len(a) == 2:
                    return a[0] if t[2] == 'first' else a[1]
        return r
    if k == 'idx':
        b = typeof(t[1])
        if not b:
            return ''
        tk = TKIND(b)
        if tk == 'vec':
            return TARG(b)
        if tk == 'map':
            a = TARGS(b)
            return a[1] if len(a) > 1 else ''
        if tk == 'class' and b.split()[-1].rstrip('&').strip().endswith('TypeBucket'):
            return 'int'
        if tk == 'string':
            return 'char'
        if tk == 'ptr':
            return b.rstrip().rstrip('*').strip()
        return ''
    if k in ('store', 'push', 'pop', 'resize', 'blit', 'upd', 'sorted', 'erase'):
        return typeof(t[1])
    if k == 'call':
        return CALLT.get(t[1], '')
    if k == 'over':
        return typeof(t[1])
    if k == 'ite':
        a = typeof(t[2])
        return a if a and (a == typeof(t[3])) else ''
    if k == 'fill' and len(t) > 2 and is_int(t[2]):
        return 'std::vector<int>'
    if k == 'acc':
        return ACCT.get(t, '')
    return ''


ACCT = {}
TARGS = None
_isint = {}


def is_int(t):
    r = _isint.get(t)
    if r is None:
        r = _is_int(t)
        _isint[t] = r
    return r


def _is_int(t):
    k = t[0]
    if k == 'n':
        return t[1].denominator == 1
    if k in ('size', 'it', 'fst', 'idiv', 'trunc', 'mod', 'lb', 'uniqn', 'b', 'len'):
        return True
    if k == 'poly':
        for m, c in t[1]:
            if c.denominator != 1:
                return False
            for a, p in m:
                if p < 0 or not is_int(a):
                    return False
        return True
    if k == 'ite':
        return is_int(t[2]) and is_int(t[3])
    if k in ('max', 'min'):
        return all(is_int(x) for x in t[1])
    if k == 'sum':
        return is_int(t[3])
    if k == 'abs':
        return is_int(t[1])
    if k in ('in', 'fld', 'idx', 'call', 'acc') and TKIND is not None:
        ty = typeof(t)
        if ty and TKIND(ty) == 'int':
            return True
    return t in INT


NONNEG = ('size', 'it', 'fst', 'lb', 'uniqn', 'len', 'abs')

# ---------------------------------------------------------------- decision diagrams

BOOLTAGS = ('lt', 'le', 'eq', 'eq2', 'ex', 'isinst', 'in?')


def is_ite(t):
    return t[0] == 'ite'


def top(t):
    return t[1] if t[0] == 'ite' else None


_assume_memo = {}


def decide(atom, c, val):
    """Value of boolean atom `atom` when atom c has value val; None if unknown."""
    if atom == c:
        return val
    if atom[0] in ('lt', 'le', 'eq') and c[0] in ('lt', 'le', 'eq') and atom[1] == c[1] \
            and atom[2][0] == 'n' and c[2][0] == 'n':
        x, y = atom[2][1], c[2][1]
        a, k = atom[0], c[0]
        if k == 'eq':
            if val:
                return {'lt': y < x, 'le': y <= x, 'eq': y == x}[a]
            return None
        # knowledge as interval
        if k == 'lt' and val:        # q < y
            if a == 'lt':
                return True if y <= x else None
            if a == 'le':
                return True if y <= x else None
            return False if x >= y else None
        if k == 'le' and val:        # q <= y
            if a == 'lt':
                return True if y < x else None
            if a == 'le':
                return True if y <= x else None
            return False if x > y else None
        if k == 'lt' and not val:    # q >= y
            if a == 'lt':
                return False if x <= y else None
            if a == 'le':
                return False if x < y else None
            return False if x < y else None
        if k == 'le' and not val:    # q > y
            if a == 'lt':
                return False if x <= y else None
            if a == 'le':
                return False if x <= y else None
            return False if x <= y else None
    if atom[0] == 'eq2' and c[0] == 'eq2' and val:
        # x == "A" excludes x == "B"
        if atom[1] == c[1] and isconst(atom[2]) and isconst(c[2]) and atom[2] != c[2]:
            return False
        if atom[2] == c[2] and isconst(atom[1]) and isconst(c[1]) and atom[1] != c[1]:
            return False
    return None


def isconst(t):
    return t[0] in ('n', 's', 'b', 'none', 'enum', 'type')


def assume(t, c, val):
    """Rewrite t knowing that boolean atom c has value val."""
    if not isinstance(t, tuple) or not t:
        return t
    tm = t._m if isinstance(t, Term) else mask(t)
    if c[0] in ('lt', 'le', 'eq'):
        if not tm & bit(c[1]):
            return t
    elif c[0] == 'eq2':
        if not (tm & bit(c[1]) or tm & bit(c[2])):
            return t
    elif not tm & bit(c):
        return t
    k = (t, c, val)
    r = _assume_memo.get(k)
    if r is None:
        r = _assume(t, c, val)
        _assume_memo[k] = r
    return r


def _mentions(t, c):
    return True


def _assume(t, c, val):
    tag = t[0]
    if tag in ('n', 's', 'b', 'none', 'in', 'it', 'acc', 'enum', 'type'):
        return t
    if tag in BOOLTAGS or tag == c[0]:
        d = decide(t, c, val)
        if d is not None:
            return TRUE if d else FALSE
    if tag == 'lt' and c[0] == 'eq' and not val and t[1][0] == 'size' and c[1] == t[1] and c[2] == ZERO and \
            t[2] == num(2):
        # one element or more, and less than two
        return eq(t[1], ONE)
    if tag == 'ite':
        d = decide(t[1], c, val)
        if d is not None:
            return assume(t[2] if d else t[3], c, val)
        cond = assume(t[1], c, val)
        return ite(cond, assume(t[2], c, val), assume(t[3], c, val))
    if t == c:
        return TRUE if val else FALSE
    if tag == 'size' and c[0] == 'eq' and val and t == c[1]:
        # the length is known here
        return num(c[2][1])
    return rebuild(t, lambda x: assume(x, c, val))


def rebuild(t, f):
    """Reconstruct t with f applied to the sub terms."""
    tag = t[0]
    if tag in ('n', 's', 'b', 'none', 'in', 'it', 'acc', 'enum', 'type'):
        return t
    if tag == 'poly':
        r = ZERO
        changed = False
        parts = []
        for m, co in t[1]:
            fs = []
            for a, p in m:
                b = f(a)
                if b is not a:
                    changed = True
                fs.append((b, p))
            parts.append((fs, co))
        if not changed:
            return t
        for fs, co in parts:
            x = T('n', co)
            for b, p in fs:
                x = mul(x, power(b, p))
            r = add(r, x)
        return r
    if tag == 'ite':
        return ite(f(t[1]), f(t[2]), f(t[3]))
    if tag == 'lt' or tag == 'le' or tag == 'eq':
        q = f(t[1])
        c = f(t[2])
        if q is t[1] and c is t[2]:
            return t
        return {'lt': lt, 'le': le, 'eq': eq}[tag](q, c)
    new = []
    changed = False
    for x in t[1:]:
        if isinstance(x, tuple):
            y = _rebuild_any(x, f)
            if y is not x:
                changed = True
            new.append(y)
        else:
            new.append(x)
    if not changed:
        return t
    return make(tag, *new)


def _is_term(x):
    return isinstance(x, tuple) and len(x) > 0 and isinstance(x[0], str)


def _rebuild_any(x, f):
    if _is_term(x):
        if len(x) == 2 and not isinstance(x, Term) and x[0] not in TAGS and _is_term(x[1]):
            # (fieldname, term) pair
            y = f(x[1])
            return x if y is x[1] else (x[0], y)
        return f(x)
    if isinstance(x, tuple):
        ys = tuple(_rebuild_any(y, f) if isinstance(y, tuple) else y for y in x)
        if all(a is b for a, b in zip(xs_iter(x), ys)):
            return x
        return ys
    return x


def xs_iter(x):
    return x


TAGS = {'hupd', 'mapit', 'over', 'n', 's', 'b', 'none', 'poly', 'ite', 'lt', 'le', 'eq', 'eq2', 'in', 'fld', 'idx', 'size', 'call',
        'upd', 'store', 'push', 'it', 'acc', 'fold', 'ex', 'fst', 'map', 'sum', 'cat', 'flat', 'sortby', 'deref', 'cloc', 'loc', 'acc', 'mapent', 'fill', 'empty', 'pop',
        'ptr', 'lb', 'sorted', 'dedup', 'idiv', 'mod', 'trunc', 'inv', 'max', 'min', 'abs', 'ev', 'tuple',
        'list', 'dict', 'fmt', 'resize', 'blit', 'new', 'lam', 'enum', 'type', 'last', 'slice', 'unk', 'undef',
        'uniqn', 'uniq', 'isinst', 'in?', 'at', 'exit', 'glob', 'func', 'setof', 'attr', 'bound', 'erase',
        'insert', 'pow', 'str', 'def', 'len', 'out', 'keyview', 'len', 'not-used', 'loop', 'addr', 'cls', 'mod', 'flt'}


def make(tag, *args):
    """Generic smart constructor."""
    m = _MAKERS.get(tag)
    if m:
        return m(*args)
    return T(tag, *args)


def two_equal(l):
    """a - b == 0 makes a and b the same"""
    items = l[1][1]
    if l[2] == ZERO and len(items) == 2 and sorted(c for m, c in items) == [-1, 1] and \
            all(len(m) == 1 and m[0][1] == 1 for m, c in items):
        p, q = (m[0][0] for m, c in items)
        if not uses(q, p):
            return p, q
        if not uses(p, q):
            return q, p
    return None


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a is b or a == b:
        return a
    if c[0] == 'ite':
        # condition is itself a diagram
        return ite(c[1], ite(c[2], a, b), ite(c[3], a, b))
    if c[0] == 'n':
        return a if c[1] != 0 else b
    if c[0] == 's':
        return a if c[1] else b
    if c[0] == 'none':
        return b
    if c[0] == 'poly' or (c[0] not in BOOLTAGS and c in INT):
        return ite(ne(c, ZERO), a, b)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a == b:
        return a
    r = _merge(c, a, b)
    if r is not None:
        return r
    if c[0] == 'eq' and c[1][0] == 'poly' and a[0] == b[0] == 'idx' and a[1] == b[1]:
        # if i == j then v[j] else v[i]
        p = two_equal(c)
        if p and subst(a[2], {p[0]: p[1]}) == subst(b[2], {p[0]: p[1]}):
            return b
    # boolean collapse
    if a == TRUE and b == FALSE:
        return c
    # ordering
    ta, tb = top_bool(a), top_bool(b)
    m = None
    for x in (ta, tb):
        if x is not None and (m is None or key(x) < key(m)):
            m = x
    if m is not None and key(m) < key(c):
        hi = ite(c, assume(a, m, True), assume(b, m, True))
        lo = ite(c, assume(a, m, False), assume(b, m, False))
        return _mk(m, hi, lo)
    return _mk(c, a, b)


def top_bool(t):
    if t[0] == 'ite':
        return t[1]
    if t[0] in BOOLTAGS:
        return t
    return None


def _mk(c, a, b):
    if a == b:
        return a
    r = _merge(c, a, b)
    if r is not None:
        return r
    if a == TRUE and b == FALSE:
        return c
    # an equality selecting between x and the constant it is compared with
    if c[0] == 'eq':
        pass
    # empty domain guard: ite(0 < n, fold over n, init) == fold over n
    r = _domain_guard(c, a, b)
    if r is not None:
        return r
    return T('ite', c, a, b)


def _domain_guard(c, a, b):
    """ite(n <= 0, init, fold over n from init) is the fold itself."""
    if c[0] not in ('lt', 'le', 'eq'):
        return None
    for big, small, val in ((a, b, False), (b, a, True)):
        n = _domain_of(big)
        if n is None:
            continue
        # which value of c means an empty domain?
        z = le(n, ZERO)
        if z == c and val or (z[0] == 'ite' and z == not_(c) and not val):
            if empty_domain(big) == small:
                return big
    return None


def _domain_of(t):
    if t[0] in ('fold', 'sum', 'map', 'ex', 'flat'):
        return t[1]
    if t[0] == 'blit':
        return t[3]
    if t[0] == 'cat' and t[2][0] in ('map', 'flat'):
        return t[2][1]
    if t[0] == 'poly':
        ns = {a[1] for m, co in t[1] for a, p in m if a[0] == 'sum'}
        if len(ns) == 1:
            return next(iter(ns))
    return None


def empty_domain(t):
    if t[0] == 'fold':
        return t[3][0]
    if t[0] == 'blit':
        return t[1]
    if t[0] == 'sum':
        return ZERO
    if t[0] in ('map', 'flat'):
        return T('empty')
    if t[0] == 'cat':
        return t[1]
    if t[0] == 'ex':
        return FALSE
    if t[0] == 'poly':
        return rebuild(t, lambda a: ZERO if a[0] == 'sum' else a)
    return None


def _merge(c, a, b):
    """Push the choice into matching state constructors."""
    ka, kb = a[0], b[0]
    if ka == 'upd' or kb == 'upd':
        ba = a[1] if ka == 'upd' else a
        bb = b[1] if kb == 'upd' else b
        if ba == bb and ba[0] != 'ite':
            fa = dict(a[2]) if ka == 'upd' else {}
            fb = dict(b[2]) if kb == 'upd' else {}
            d = {}
            for f in set(fa) | set(fb):
                d[f] = ite(c, fa.get(f) if f in fa else fld(ba, f), fb.get(f) if f in fb else fld(ba, f))
            return upd_many(ba, d)
    if ka == 'push' and kb == 'push' and a[1] == b[1]:
        return T('push', a[1], ite(c, a[2], b[2]))
    if ka == 'store' and kb == 'store' and a[1] == b[1] and a[2] == b[2]:
        return store(a[1], a[2], ite(c, a[3], b[3]))
    if ka == 'store' and a[1] == b:
        return store(b, a[2], ite(c, a[3], idx(b, a[2])))
    if kb == 'store' and b[1] == a:
        return store(a, b[2], ite(c, idx(a, b[2]), b[3]))
    if ka == kb and ka in ('map', 'flat') and a[1] == b[1]:
        K = T('it', '$mg')
        return close(ka, a[1], K, ite(c, subst(a[3], {T('it', a[2]): K}), subst(b[3], {T('it', b[2]): K})))
    if ka == kb == 'blit' and a[1] == b[1] and a[3] == b[3] and a[4] == b[4]:
        K = T('it', '$mg')
        return close('blit', a[3], K, ite(c, subst(a[5], {T('it', a[2]): K}), subst(b[5], {T('it', b[2]): K})),
                     before=(a[1], a[4]))
    if ka == kb == 'cat' and a[1] == b[1]:
        return cat(a[1], ite(c, a[2], b[2]))
    if ka == 'ptr' and kb == 'ptr' and a[1] == b[1]:
        return T('ptr', a[1], ite(c, a[2], b[2]))
    if ka == 'tuple' and kb == 'tuple' and len(a[1]) == len(b[1]):
        return T('tuple', tuple(ite(c, x, y) for x, y in zip(a[1], b[1])))
    return None


def not_(t):
    t = truth(t)
    return ite(t, FALSE, TRUE)


def and_(a, b):
    return ite(truth(a), truth(b), FALSE)


def or_(a, b):
    return ite(truth(a), TRUE, truth(b))


def truth(t):
    """Boolean interpretation of a term."""
    k = t[0]
    if k == 'b' or k in BOOLTAGS:
        return t
    if k == 'n':
        return TRUE if t[1] != 0 else FALSE
    if k == 's':
        return TRUE if t[1] else FALSE
    if k == 'none':
        return FALSE
    if k == 'ite':
        return ite(t[1], truth(t[2]), truth(t[3]))
    if k == 'poly' or is_int(t):
        return ne(t, ZERO)
    if k in ('list', 'tuple'):
        return TRUE if len(t[1]) else FALSE
    return ite(t, TRUE, FALSE)


def lift1(f, t):
    if t[0] == 'ite':
        return ite(t[1], lift1(f, t[2]), lift1(f, t[3]))
    return f(t)


def lift2(f, a, b):
    if a[0] == 'ite':
        return ite(a[1], lift2(f, a[2], assume(b, a[1], True)), lift2(f, a[3], assume(b, a[1], False)))
    if b[0] == 'ite':
        return ite(b[1], lift2(f, assume(a, b[1], True), b[2]), lift2(f, assume(a, b[1], False), b[3]))
    return f(a, b)


# ---------------------------------------------------------------- arithmetic

def _poly(t):
    k = t[0]
    if k == 'poly':
        return dict(t[1])
    if k == 'n':
        return {(): t[1]} if t[1] != 0 else {}
    if k == 'b':
        return {(): Fraction(1)} if t[1] else {}
    return {((t, 1),): Fraction(1)}


def _unpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return T('n', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
    return T('poly', tuple(items))


_mkeys = {}


def _mkey(m):
    k = _mkeys.get(m)
    if k is None:
        k = "*".join("%s^%d" % (key(a), p) for a, p in m)
        _mkeys[m] = k
    return k


def add(a, b):
    if is_ite(a) or is_ite(b):
        return lift2(add, a, b)
    if a[0] == 'ptr':
        return T('ptr', a[1], add(a[2], b))
    if b[0] == 'ptr':
        return T('ptr', b[1], add(b[2], a))
    if a[0] == 's' and b[0] == 's':
        return T('s', a[1] + b[1])
    if a[0] in ('s', 'str', 'fmt') or b[0] in ('s', 'str', 'fmt'):
        return strcat(a, b)
    if a[0] in ('list', 'map', 'cat', 'fill') and b[0] in ('list', 'map', 'cat', 'fill', 'empty') \
            or a[0] == 'empty' and b[0] in ('list', 'map', 'cat', 'fill', 'empty'):
        return T('call', 'concat', (a, b))
    p = _poly(a)
    for m, c in _poly(b).items():
        p[m] = p.get(m, 0) + c
    return _unpoly(p)


def strcat(a, b):
    pa = a[1] if a[0] == 'str' else (a,)
    pb = b[1] if b[0] == 'str' else (b,)
    out = list(pa)
    for x in pb:
        if out and out[-1][0] == 's' and x[0] == 's':
            out[-1] = T('s', out[-1][1] + x[1])
        else:
            out.append(x)
    out = [x for x in out if x != ('s', '')]
    if not out:
        return T('s', '')
    if len(out) == 1 and (out[0][0] in ('s', 'fmt') or out[0][0] == 'call' and out[0][1] == 'str'):
        return out[0]
    return T('str', tuple(out))


SPEC = re.compile(r'%([-+ #0]*)(\d*)(\.\d+)?([diouxXeEfFgGcrs%])')


def tostr(x):
    if x[0] in ('s', 'str'):
        return x
    if x[0] == 'n' and x[1].denominator == 1:
        return T('s', str(int(x[1])))
    if x[0] == 'fmt' or x[0] == 'call' and x[1] in ('str', 'repeat', 'join') or x[0] == 'ite' and text(x[2]) and text(x[3]):
        return x if x[0] != 'ite' else T('call', 'str', (x,))
    return T('call', 'str', (x,))


def text(x):
    return x[0] in ('s', 'str', 'fmt') or x[0] == 'ite' and text(x[2]) and text(x[3])


def format_(f, arg):
    """f % arg, as the sequence of its literal parts and converted values"""
    if f[0] != 's' or '%(' in f[1] or '*' in f[1]:
        return T('fmt', f, arg)
    s = f[1]
    ms = list(SPEC.finditer(s))
    n = sum(1 for m in ms if m.group(4) != '%')
    if arg[0] == 'tuple':
        args = list(arg[1])
    elif n == 1:
        args = [arg]
    else:
        return T('fmt', f, arg)
    if len(args) != n or s.replace('%%', '').count('%') != n:
        return T('fmt', f, arg)
    out = T('s', '')
    pos = 0
    for m in ms:
        out = strcat(out, T('s', s[pos:m.start()]))
        pos = m.end()
        c = m.group(4)
        if c == '%':
            out = strcat(out, T('s', '%'))
            continue
        x = args.pop(0)
        out = strcat(out, convert(m.group(1) + m.group(2) + (m.group(3) or '') + c, x))
    return strcat(out, T('s', s[pos:]))


def convert(spec, x):
    if spec == 's':
        return tostr(x)
    if spec in ('d', 'i'):
        if x[0] == 'n' and x[1].denominator == 1:
            return tostr(x)
        return T('fmt', T('s', '%d'), x)
    if spec[-1] == 'i':
        spec = spec[:-1] + 'd'
    return T('fmt', T('s', '%' + spec), x)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    if is_ite(a) or is_ite(b):
        return lift2(sub, a, b)
    if a[0] == 'ptr' and b[0] == 'ptr':
        if a[1] == b[1]:
            return sub(a[2], b[2])
        return T('call', 'ptrdiff', (a, b))
    if a[0] == 'ptr':
        return T('ptr', a[1], sub(a[2], b))
    return add(a, neg(b))


def mul(a, b):
    if is_ite(a) or is_ite(b):
        return lift2(mul, a, b)
    if a[0] in ('list', 's', 'str') or b[0] in ('list', 's', 'str'):
        return T('call', 'repeat', (a, b))
    pa, pb = _poly(a), _poly(b)
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            d = dict(m1)
            for x, p in m2:
                d[x] = d.get(x, 0) + p
            m = tuple(sorted(((x, p) for x, p in d.items() if p), key=lambda xp: key(xp[0])))
            r[m] = r.get(m, 0) + c1 * c2
    # cancel x * inv(x) where inv is stored as negative power
    return _unpoly(r)


def power(a, p):
    if p < 0:
        return power(inv(a), -p)
    r = ONE
    for _ in range(p):
        r = mul(r, a)
    return r


def inv(a):
    if is_ite(a):
        return lift1(inv, a)
    if a[0] == 'n':
        return T('n', 1 / a[1]) if a[1] != 0 else T('call', 'inv0', ())
    if a[0] == 'poly':
        if len(a[1]) == 1:
            (m, c), = a[1]
            return _unpoly({tuple((x, -p) for x, p in m): 1 / c})
        # normalise leading coefficient
        c = a[1][0][1]
        q = mul(T('n', 1 / c), a)
        return _unpoly({((q, -1),): 1 / c})
    return _unpoly({((a, -1),): Fraction(1)})


def div(a, b):
    if is_ite(a) or is_ite(b):
        return lift2(div, a, b)
    return mul(a, inv(b))


def idiv(a, b):
    if is_ite(a) or is_ite(b):
        return lift2(idiv, a, b)
    if a[0] == 'n' and b[0] == 'n' and b[1] != 0 and a[1] >= 0 and b[1] > 0:
        return num(a[1] // b[1])
    if b == ONE:
        return a
    return T('idiv', a, b)


def mod(a, b):
    if is_ite(a) or is_ite(b):
        return lift2(mod, a, b)
    if a[0] == 'n' and b[0] == 'n' and b[1] != 0 and a[1] >= 0 and b[1] > 0:
        return num(a[1] % b[1])
    return T('mod', a, b)


def trunc(a):
    if is_ite(a):
        return lift1(trunc, a)
    if is_int(a):
        return a
    if a[0] == 'n':
        return num(int(a[1]))
    return T('trunc', a)


def abs_(a):
    if is_ite(a):
        return lift1(abs_, a)
    if a[0] == 'n':
        return num(abs(a[1]))
    if a[0] in NONNEG:
        return a
    # |x| == |-x|
    if a[0] == 'poly' and a[1][0][1] < 0:
        a = neg(a)
    return T('abs', a)


def max_(*xs):
    return _minmax('max', xs)


def min_(*xs):
    return _minmax('min', xs)


def _minmax(tag, xs):
    for i, x in enumerate(xs):
        if is_ite(x):
            return ite(x[1], _minmax(tag, xs[:i] + (x[2],) + xs[i + 1:]),
                       _minmax(tag, xs[:i] + (x[3],) + xs[i + 1:]))
    flat = []
    for x in xs:
        if x[0] == tag:
            flat += x[1]
        else:
            flat.append(x)
    ns = [x[1] for x in flat if x[0] == 'n']
    out = [x for x in flat if x[0] != 'n']
    if ns:
        out.append(num(max(ns) if tag == 'max' else min(ns)))
    out = sorted(set(out), key=key)
    if len(out) == 1:
        return out[0]
    return T(tag, tuple(out))


# ---------------------------------------------------------------- comparisons

def _split(p):
    """poly p -> (q, c, sign) with p = sign*(q - c), q without constant and with a
    positive leading coefficient of one."""
    d = _poly(p)
    c0 = d.pop((), Fraction(0))
    if not d:
        return None, c0, 1
    q = _unpoly(d)
    lead = sorted(d.items(), key=lambda mc: _mkey(mc[0]))[0][1]
    if lead != 1:
        q = mul(T('n', 1 / lead), q)
        c0 = c0 / lead
    return q, -c0, (1 if lead > 0 else -1)


def lt(a, b):
    """a < b"""
    if is_ite(a) or is_ite(b):
        return lift2(lt, a, b)
    if not _numeric(a) or not _numeric(b):
        if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]:
            return lt(a[2], b[2])
        if a == b:
            return FALSE
        return T('lt', T('tuple', (a, b)), ZERO)
    q, c, s = _split(sub(a, b))          # a-b = s*k*(q-c), k>0
    if q is None:
        return TRUE if -c * 1 > 0 or (c0_of(sub(a, b)) < 0) else FALSE
    if s > 0:
        return _ltq(q, c)
    return not_(_leq(q, c))


def c0_of(t):
    return _poly(t).get((), Fraction(0))


def le(a, b):
    return not_(lt(b, a))


def _ltq(q, c):
    """q < c"""
    if is_int(q):
        # integers: q < c  <=>  q < ceil(c)
        c = Fraction(-((-c.numerator) // c.denominator))
        # a search over [0,n) returns n exactly when it finds nothing
        if q[0] == 'poly' and len(q[1]) == 2 and c in (0, 1):
            for i in (0, 1):
                (m1, c1), (m2, c2) = q[1][i], q[1][1 - i]
                if len(m1) == 1 and m1[0][1] == 1 and m1[0][0][0] == 'fst' and _unpoly({m2: Fraction(1)}) == m1[0][0][1]:
                    f = m1[0][0]
                    if c1 == 1 and c2 == -1 and c == 0:
                        return ex(f[1], f[2], f[3])
                    if c1 == -1 and c2 == 1 and c == 1:
                        return not_(ex(f[1], f[2], f[3]))
        # nonneg quantities
        if nonneg(q) and c <= 0:
            return FALSE
        if nonneg(q) and c == 1:
            r = _no_part(q) if q[0] in ('abs', 'sum', 'poly') else None
            return T('eq', q, ZERO) if r is None else r
    elif nonneg(q) and c <= 0:
        return FALSE
    return T('lt', q, T('n', c))


def _leq(q, c):
    """q <= c"""
    if is_int(q):
        return _ltq(q, Fraction(c.numerator // c.denominator) + 1)
    if nonneg(q) and c < 0:
        return FALSE
    return T('le', q, T('n', c))


def nonneg(q):
    if q[0] == 'n':
        return q[1] >= 0
    if q[0] in NONNEG:
        return True
    if q[0] == 'sum':
        return nonneg(q[3])
    if q[0] == 'poly':
        return all(c > 0 and all(a[0] in NONNEG or p % 2 == 0 or a[0] == 'sum' and nonneg(a[3]) for a, p in m)
                   for m, c in q[1])
    return False


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def _numeric(t):
    return t[0] not in ('s', 'none', 'ptr', 'tuple', 'list', 'str', 'enum', 'type', 'upd', 'push', 'store',
                        'map', 'cat', 'empty', 'fill', 'sorted', 'dedup', 'new', 'fmt', 'dict', 'func', 'cls')


def eq(a, b):
    if is_ite(a) or is_ite(b):
        return lift2(eq, a, b)
    if a == b:
        return TRUE
    if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]:
        return eq(a[2], b[2])
    if a[0] == 'mapit' or b[0] == 'mapit':
        # map.find(key) against map.end()
        m, p = (a, b) if a[0] == 'mapit' else (b, a)
        if p[0] == 'ptr' and p[1] == m[3]:
            return not_(T('in?', m[2], m[1]))
    if a[0] == 'b' or b[0] == 'b':
        if a[0] == 'b':
            a, b = b, a
        if a[0] in BOOLTAGS or a[0] == 'b':
            return a if b[1] else not_(a)
    if not _numeric(a) or not _numeric(b):
        if isconst(a) and isconst(b):
            return FALSE
        if a == NONE and b[0] in SEQUENCES or b == NONE and a[0] in SEQUENCES:
            return FALSE
        x, y = sorted((a, b), key=key)
        if isconst(x):
            x, y = y, x
        return T('eq2', x, y)
    if isboolatom(a) and isboolatom(b):
        return ite(a, b, not_(b))
    q, c, s = _split(sub(a, b))
    if q is None:
        return TRUE if c0_of(sub(a, b)) == 0 else FALSE
    if is_int(q) and c.denominator != 1:
        return FALSE
    if nonneg(q) and c < 0:
        return FALSE
    # first-position-or-end compared with the end
    r = _fst_end(q, c)
    if r is not None:
        return r
    if c == 0 and (q[0] in ('abs', 'sum') or q[0] == 'poly'):
        r = _no_part(q)
        if r is not None:
            return r
    return T('eq', q, T('n', c))


def _no_part(q):
    """a sum of absolute values is zero when each of them is"""
    parts = []
    for m, co in _poly(q).items():
        if len(m) != 1 or m[0][1] != 1 or co < 0:
            return None
        a = m[0][0]
        if a[0] == 'abs':
            parts.append(eq(a[1], ZERO))
        elif a[0] == 'sum' and a[3][0] == 'abs':
            parts.append(not_(ex(a[1], a[2], ne(a[3][1], ZERO))))
        else:
            return None
    r = TRUE
    for p in parts:
        r = ite(p, r, FALSE)
    return r


SEQUENCES = ('list', 'tuple', 'map', 'cat', 'flat', 'empty', 'fill', 'slice', 'sorted')


def isboolatom(a):
    return a[0] in BOOLTAGS


def _fst_end(q, c):
    """fst(n,cond) == n  <=>  not ex(n,cond)"""
    d = _poly(q)
    for m in d:
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'fst':
            f = m[0][0]
            rest = dict(d)
            co = rest.pop(m)
            # q - c == co*(f - n)?
            other = _unpoly({k: v for k, v in rest.items()})
            other = sub(other, T('n', c))
            if add(other, mul(T('n', co), f[1])) == ZERO:
                return not_(ex(f[1], f[2], f[3]))
    return None


def ne(a, b):
    return not_(eq(a, b))


# ---------------------------------------------------------------- records and containers

def fld(b, f):
    k = b[0]
    if k == 'ite':
        return ite(b[1], fld(b[2], f), fld(b[3], f))
    if k == 'upd':
        for n, v in b[2]:
            if n == f:
                return v
        return fld(b[1], f)
    if k == 'idx':
        v = unchanged(b[1], f, fld)
        if v is not b[1]:
            return fld(idx(v, b[2]), f)
    return T('fld', b, f)


def _fieldsize(x, f):
    return size(fld(x, f))


def unchanged(v, f, proj):
    """an earlier state of container v whose elements have the same proj(element, f)"""
    while True:
        if v[0] == 'store' and proj(v[3], f) == proj(idx(v[1], v[2]), f):
            v = v[1]
        elif v[0] == 'hupd' and f not in v[2]:
            v = v[1]
        elif v[0] == 'fold' and _keeps_proj(v, f, proj):
            v = v[3][0]
        else:
            return v


def _keeps_proj(v, f, proj):
    """the fold leaves proj(element, f) of all elements of its accumulator alone"""
    k = (v, f, proj)
    r = _keeps.get(k)
    if r is None:
        a = T('acc', v[2], 0)

        def ok(x):
            if x == a:
                return True
            if x[0] == 'ite':
                return ok(x[2]) and ok(x[3])
            if x[0] == 'store':
                return ok(x[1]) and proj(x[3], f) == proj(idx(x[1], x[2]), f)
            if x[0] == 'hupd':
                return f not in x[2] and ok(x[1])
            if x[0] == 'fold':
                return ok(x[3][0]) and _keeps_proj(x, f, proj)
            return False
        r = _keeps[k] = ok(v[4][0])
    return r


_keeps = {}


CLASSFIELDS = {frozenset(('first', 'second')): 'pair'}


def upd(b, f, v):
    return upd_many(b, {f: v})


def upd_many(b, d):
    d = dict(d)
    while b[0] == 'upd':
        for n, v in b[2]:
            d.setdefault(n, v)
        b = b[1]
    if True:
        cls = CLASSFIELDS.get(frozenset(d))
        if cls is not None:
            # every field is given: the base is irrelevant, unless it all comes
            # from one object
            b0 = d[next(iter(d))]
            src = b0[1] if b0[0] == 'fld' else None
            if src is not None and all(v == fld(src, n) for n, v in d.items()):
                return src
            b = T('new', cls)
    d = {n: v for n, v in d.items() if v != fld(b, n)}
    if not d:
        return b
    return T('upd', b, tuple(sorted(d.items())))


def distinct(i, j):
    d = sub(i, j)
    if d[0] == 'n':
        return d[1] != 0
    if i[0] == 's' and j[0] == 's':
        return i != j
    return False


def idx(v, i):
    k = v[0]
    if k == 'ite':
        return ite(v[1], idx(v[2], i), idx(v[3], i))
    if i[0] == 'ite':
        return ite(i[1], idx(v, i[2]), idx(v, i[3]))
    if k == 'store':
        if v[2] == i:
            return v[3]
        if distinct(v[2], i):
            return idx(v[1], i)
    elif k == 'map':
        return subst(v[3], {T('it', v[2]): i})
    elif k == 'fill' and len(v) > 2:
        return v[2]
    elif k == 'blit':
        rel = sub(i, v[4])
        return ite(and_(le(ZERO, rel), lt(rel, v[3])), subst(v[5], {T('it', v[2]): rel}), idx(v[1], i))
    elif k == 'over':
        rel = sub(i, v[2])
        return ite(and_(le(ZERO, rel), lt(rel, size(v[3]))), idx(v[3], rel), idx(v[1], i))
    elif k == 'slice' and v[2][0] != 'none':
        return idx(v[1], add(v[2], i))
    elif k == 'cat':
        n1 = size(v[1])
        d = sub(i, n1)
        if d[0] == 'n' and d[1] >= 0:
            return idx(v[2], d)
    elif k == 'push':
        if i == size(v[1]):
            return v[2]
        if i[0] == 'it':
            pass
    elif k == 'pop':
        # the remaining elements are unchanged
        return idx(v[1], i) if i[0] != 'n' or True else None
    elif k in ('list', 'tuple') and i[0] == 'n' and i[1].denominator == 1:
        n = int(i[1])
        if -len(v[1]) <= n < len(v[1]):
            return v[1][n]
    elif k == 'resize':
        return idx(v[1], i) if v[1] != T('empty') else T('idx', v, i)
    if k == 'call' and v[1] == 'divmod_':
        pass
    return T('idx', v, i)


def store(v, i, x):
    if x == idx(v, i):
        return v
    if v[0] == 'fill' and v[1][0] == 'n' and v[1][1] <= 8 and i[0] == 'n' and 0 <= i[1] < v[1][1]:
        v = T('list', (v[2],) * int(v[1][1]))
    if v[0] == 'list' and i[0] == 'n' and i[1].denominator == 1 and 0 <= i[1] < len(v[1]):
        k = int(i[1])
        return T('list', v[1][:k] + (x,) + v[1][k + 1:])
    if v[0] == 'store':
        if v[2] == i:
            return store(v[1], i, x)
        if x[0] == 'ite' and _stored(v, i, x):
            return v
        if distinct(v[2], i) and key(i) < key(v[2]):
            return T('store', store(v[1], i, x), v[2], v[3])
    return T('store', v, i, x)


def _stored(v, i, x):
    """x is v[i], written out by cases"""
    if x == idx(v, i):
        return True
    if v[0] != 'store':
        return False
    if x[0] == 'ite' and x[1] == eq(v[2], i):
        return x[2] == v[3] and _stored(v[1], i, x[3])
    return False


def root_of(v):
    while v[0] == 'store':
        v = v[1]
    return v


def size(v):
    k = v[0]
    if k == 'ite':
        return ite(v[1], size(v[2]), size(v[3]))
    if k == 'store' and (v[2][0] == 's' or root_of(v)[0] == 'empty'):
        # an entry of a dictionary
        ks = set()
        while v[0] == 'store' and v[2][0] == 's':
            ks.add(v[2])
            v = v[1]
        return num(len(ks)) if v[0] == 'empty' else T('call', 'entries', (v,) + tuple(sorted(ks, key=key)))
    if k in ('store', 'sorted', 'dedup'):
        return size(v[1])
    if k == 'push':
        return add(size(v[1]), ONE)
    if k == 'pop':
        return sub(size(v[1]), ONE)
    if k == 'empty':
        return ZERO
    if k in ('list', 'tuple'):
        return num(len(v[1]))
    if k == 's':
        return num(len(v[1]))
    if k in ('map', 'fill'):
        return v[1]
    if k == 'call' and v[1] == 'keys':
        return size(v[2][0])
    if k == 'cat':
        return add(size(v[1]), size(v[2]))
    if k == 'resize':
        return v[2]
    if k == 'slice':
        return sub(v[3], v[2])
    if k == 'insert':
        return add(size(v[1]), ONE)
    if k in ('blit', 'over'):
        return size(v[1])
    if k == 'flat':
        return make('sum', v[1], v[2], size(v[3]))
    if k == 'fold' and size_preserving(v):
        return size(v[3][0])
    if k == 'fld' and v[1][0] == 'idx':
        b = unchanged(v[1][1], v[2], _fieldsize)
        if b is not v[1][1]:
            return size(fld(idx(b, v[1][2]), v[2]))
    if k == 'idx':
        b = same_element_sizes(v[1])
        if b is not v[1]:
            return size(idx(b, v[2]))
    if k == 'fld' and v[2] in SAMESIZE:
        # arrays that a class keeps at the same length
        return T('size', make('fld', v[1], SAMESIZE[v[2]]))
    return T('size', v)


# field -> field of the same object whose length it always has between two calls
SAMESIZE = {}


def same_element_sizes(v):
    """a simpler container whose elements have the sizes of the elements of v"""
    while True:
        if v[0] == 'store' and size(v[3]) == size(idx(v[1], v[2])):
            v = v[1]
        elif v[0] == 'fold' and element_sizes_preserving(v):
            v = v[3][0]
        else:
            return v


def element_sizes_preserving(f):
    """fold whose body only replaces elements of its accumulator by elements of the same size"""
    a = T('acc', f[2], 0)

    def ok(t):
        if t == a:
            return True
        if t[0] == 'store':
            return ok(t[1]) and size(t[3]) == size(idx(a, t[2]))
        if t[0] == 'ite':
            return ok(t[2]) and ok(t[3])
        if t[0] == 'fold':
            return ok(t[3][0]) and element_sizes_preserving(t)
        return False
    return ok(f[4][0])


def size_preserving(f):
    """fold whose body only stores into its own accumulator"""
    h = f[2]
    b = f[4][0]

    def ok(t):
        if t == T('acc', h, 0):
            return True
        if t[0] == 'store':
            return ok(t[1])
        if t[0] == 'ite':
            return ok(t[2]) and ok(t[3])
        if t[0] == 'fold':
            return ok(t[3][0]) and size_preserving(t)
        return False
    return ok(b)


def slice_(v, lo, hi):
    """v[lo:hi] with 0 <= lo <= hi <= size"""
    if v[0] == 'ite':
        return ite(v[1], slice_(v[2], lo, hi), slice_(v[3], lo, hi))
    if lo == ZERO and hi == size(v):
        return v
    if lo == hi:
        return T('empty')
    if v[0] == 'slice':
        return slice_(v[1], add(v[2], lo), add(v[2], hi))
    if v[0] in ('list', 'tuple') and lo[0] == 'n' and hi[0] == 'n':
        e = v[1][int(lo[1]):int(hi[1])]
        return T(v[0], e) if e or v[0] == 'tuple' else T('empty')
    return T('slice', v, lo, hi)


def push(v, x):
    if v[0] == 'ite':
        return ite(v[1], push(v[2], assume(x, v[1], True)), push(v[3], assume(x, v[1], False)))
    if v[0] == 'list':
        return T('list', v[1] + (x,))
    if v[0] == 'empty':
        return T('list', (x,))
    return T('push', v, x)


def pop(v):
    if v[0] == 'ite':
        return ite(v[1], pop(v[2]), pop(v[3]))
    if v[0] == 'push':
        return v[1]
    if v[0] == 'list' and v[1]:
        return T('list', v[1][:-1]) if len(v[1]) > 1 else T('empty')
    if v[0] == 'store' and sub(v[2], sub(size(v[1]), ONE)) == ZERO:
        return pop(v[1])
    if v[0] == 'store' and v[1][0] == 'store' and sub(v[1][2], sub(size(v[1][1]), ONE)) == ZERO:
        # inner store hits the element that is dropped
        return pop(T('store', v[1][1], v[2], v[3]))
    return T('pop', v)


def back(v):
    if v[0] == 'ite':
        return ite(v[1], back(v[2]), back(v[3]))
    if v[0] == 'push':
        return v[2]
    return idx(v, sub(size(v), ONE))


def ptr(loc, off):
    return T('ptr', loc, off)


# ---------------------------------------------------------------- binders

HEIGHT = {}


def height(t):
    """1 + height of the highest binder inside t, 0 if there is none"""
    if not isinstance(t, tuple):
        return 0
    h = HEIGHT.get(t)
    if h is None:
        h = 0
        if t and t[0] in BINDERS and len(t) > 2 and isinstance(t[2], int):
            h = t[2] + 1
        for x in t:
            if isinstance(x, tuple):
                h = max(h, height(x))
        HEIGHT[t] = h
    return h


BINDERS = ('fold', 'ex', 'fst', 'map', 'sum', 'lam', 'flat', 'blit', 'sortby')


def ex(n, h, c):
    """exists k in [0,n) with c"""
    if c == FALSE:
        return FALSE
    if c == TRUE:
        return lt(ZERO, n)
    if n == ZERO:
        return FALSE
    if not uses(c, T('it', h)):
        return and_(c, lt(ZERO, n))
    k = few(n)
    if k is not None:
        r = FALSE
        for i in range(k):
            r = or_(r, subst(c, {T('it', h): num(i)}))
        return r
    return T('ex', n, h, c)


def few(n):
    """a small constant number of iterations"""
    if n[0] == 'n' and n[1].denominator == 1 and 0 <= n[1] <= 4:
        return int(n[1])
    return None


def sum_(n, h, f):
    if f == ZERO or n == ZERO:
        return ZERO
    if f[0] == 'n':
        return mul(f, n)
    K = T('it', h)
    if not uses(f, K):
        return mul(f, n)
    # constant number of extra terms: sum(n+c) = sum(n) + f(n) + ... + f(n+c-1)
    d = _poly(n)
    c = d.get((), Fraction(0))
    if c.denominator == 1 and 0 < c <= 4:
        base = sub(n, T('n', c))
        r = sum_(base, h, f)
        for i in range(int(c)):
            r = add(r, subst(f, {K: add(base, num(i))}))
        return r
    if f[0] == 'poly':
        r = ZERO
        for m, co in f[1]:
            outer = [(a, p) for a, p in m if not uses(a, K)]
            inner = [(a, p) for a, p in m if uses(a, K)]
            k = _unpoly({tuple(outer): co})
            if not inner:
                r = add(r, mul(k, n))
                continue
            b = _unpoly({tuple(inner): Fraction(1)})
            r = add(r, mul(k, _sum1(n, h, b)))
        return r
    return _sum1(n, h, f)


def _sum1(n, h, f):
    hh = label((f,), h)
    if hh != h:
        f = subst(f, {T('it', h): T('it', hh)})
        h = hh
    return T('sum', n, h, f)


def map_(n, h, f):
    if f[0] == 'idx' and f[2] == T('it', h) and not uses(f[1], T('it', h)) and size(f[1]) == n:
        return f[1]
    if f[0] == 'idx' and f[2][0] == 'poly' and not uses(f[1], T('it', h)):
        # the tail of a list
        lo = sub(f[2], T('it', h))
        if lo[0] == 'n' and lo[1] > 0 and sub(size(f[1]), lo) == n:
            return slice_(f[1], lo, size(f[1]))
    if not uses(f, T('it', h)):
        return T('fill', n, f)
    return T('map', n, h, f)


def cat(a, b):
    if b[0] == 'empty':
        return a
    if a[0] == 'empty':
        return b
    if a[0] == 'list' and not a[1]:
        return b
    if a[0] == b[0] == 'list':
        return T('list', a[1] + b[1])
    return T('cat', a, b)


_uses_memo = {}


def uses(t, v):
    if t == v:
        return True
    if not isinstance(t, tuple) or len(t) < 1:
        return False
    if not (t._m if isinstance(t, Term) else mask(t)) & bit(v):
        return False
    k = (t, v)
    r = _uses_memo.get(k)
    if r is None:
        r = any(isinstance(x, tuple) and uses(x, v) for x in t)
        _uses_memo[k] = r
    return r


_acc = {}


def uses_acc(x):
    """mentions the running value of a loop"""
    if not isinstance(x, tuple) or not x:
        return False
    r = _acc.get(x)
    if r is None:
        r = x[0] == 'acc' or any(uses_acc(y) for y in x if isinstance(y, tuple))
        _acc[x] = r
    return r


_fresh = [0]


def free_labels(x):
    """labels of the bound variables that occur free in x"""
    if not isinstance(x, tuple):
        return frozenset()
    r = _FREE.get(x)
    if r is None:
        r = frozenset()
        tag = x[0] if x else None
        if tag in ('it', 'acc'):
            if len(x) > 1 and isinstance(x[1], int):
                r = frozenset((x[1],))
        elif tag in BODYPOS and len(x) > 3 and isinstance(x[2], int):
            b = BODYPOS[tag][0]
            inner = free_labels(x[b]) - {x[2]}
            for i, y in enumerate(x):
                if i != b and isinstance(y, tuple):
                    inner |= free_labels(y)
            r = inner
        else:
            for y in x:
                if isinstance(y, tuple):
                    f = free_labels(y)
                    if f:
                        r |= f
        _FREE[x] = r
    return r


_FREE = {}


def label(bodies, own=None):
    """binder label for these bodies: their height, unless that is taken by a variable
    of an enclosing binder"""
    hh = max(height(b) for b in bodies)
    free = set()
    for b in bodies:
        free |= free_labels(b)
    free.discard(own)
    while hh in free:
        hh += 1
    return hh


def subst(t, m):
    """Replace variables (keys are terms) in t.  Variables bound inside t are not
    touched and do not capture variables of the replacement."""
    memo = {}
    tall = max([0] + [height(v) for v in m.values()])
    lab = {k[1] for k in m if k[0] in ('it', 'acc') and isinstance(k[1], int)}
    free = set()
    for v in m.values():
        free |= free_labels(v)

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif not any(uses(x, v) for v in m):
            r = x
        elif x[0] in BODYPOS and len(x) > 3 and isinstance(x[2], int):
            r = binder(x)
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r

    def binder(x):
        h = x[2]
        bp = BODYPOS[x[0]][0]
        inner = m
        if h in lab:
            # the variable is bound again here
            inner = {k: v for k, v in m.items() if not (k[0] in ('it', 'acc') and k[1] == h)}
        body = x[bp]
        many = x[0] == 'fold'
        bodies = body if many else (body,)
        new = [_rebuild_any(y, go) if isinstance(y, tuple) and i not in (0, bp) else y for i, y in enumerate(x)]
        if not any(uses(body, k) for k in inner):
            out = bodies
        elif tall > h or h in free:
            _fresh[0] += 1
            u = 'u%d' % _fresh[0]
            op = {T('it', h): T('it', u)}
            cl = {}
            for i in range(len(bodies) if many else 0):
                op[T('acc', h, i)] = T('acc', u, i)
            out = tuple(subst(subst(b, op), inner) for b in bodies)
            h = label(out)
            for k, v in op.items():
                cl[v] = T(k[0], h, *k[2:])
            out = tuple(subst(b, cl) for b in out)
        elif inner is m:
            out = tuple(go(b) for b in bodies)
        else:
            out = tuple(subst(b, inner) for b in bodies)
        new[2] = h
        new[bp] = out if many else out[0]
        return make(*new)
    return go(t)


BODYPOS = {'ex': (3,), 'fst': (3,), 'map': (3,), 'sum': (3,), 'flat': (3,), 'blit': (5,), 'fold': (4,), 'lam': (3,),
           'sortby': (3,)}


def close(tag, n, K, body, before=(), accs=()):
    """Bind temporary K (and accs) in body (a term or a tuple of terms)."""
    bodies = body if tag == 'fold' else (body,)
    h = label(bodies)
    m = {K: T('it', h)}
    for i, a in enumerate(accs):
        b = T('acc', h, i)
        m[a] = b
    out = tuple(subst(b, m) for b in bodies)
    if tag == 'fold':
        return make('fold', n, h, before, out)
    if tag == 'blit':
        return make('blit', before[0], h, n, before[1], out[0])
    return make(tag, n, h, out[0])


def fold(n, h, inits, bodies):
    if n == ZERO:
        return inits[0]
    if len(bodies) == 1 and bodies[0] == T('acc', h, 0):
        return inits[0]
    k = few(n)
    if k is not None:
        vals = inits
        for i in range(k):
            m = {T('it', h): num(i)}
            for j, v in enumerate(vals):
                m[T('acc', h, j)] = v
            vals = tuple(subst(b, m) for b in bodies)
        return vals[0]
    return T('fold', n, h, inits, bodies)


def flat(n, h, x):
    """concatenation of the lists x(k), k in [0,n)"""
    if x[0] == 'list' and len(x[1]) == 1:
        return map_(n, h, x[1][0])
    if x[0] == 'empty':
        return x
    if n == ZERO:
        return T('empty')
    return T('flat', n, h, x)


def blit(init, h, n, c, f):
    """init with the elements c+k replaced by f(k) for k in [0,n)"""
    if n == ZERO:
        return init
    if c == ZERO and size(init) == n:
        return map_(n, h, f)
    if c == ZERO and init[0] == 'resize' and init[2] == n:
        return map_(n, h, f)
    return T('blit', init, h, n, c, f)


def _mk_fst(n, h, c):
    if c == TRUE:
        return ite(lt(ZERO, n), ZERO, n)
    if c == FALSE:
        return n
    if n == ZERO:
        return ZERO
    if not uses(c, T('it', h)):
        return ite(c, ite(lt(ZERO, n), ZERO, n), n)
    if n[0] == 'call' and n[1] == 'inf':
        r = _bounded_search(h, c)
        if r is not None:
            return r
    k = few(n)
    if k is not None:
        r = n
        for i in reversed(range(k)):
            r = ite(subst(c, {T('it', h): num(i)}), num(i), r)
        return r
    return T('fst', n, h, c)


KINDS = {'list': 'list', 'map': 'list', 'flat': 'list', 'tuple': 'tuple', 's': 'str', 'str': 'str', 'fill': 'list',
         'b': 'bool'}


def isinst(x, nm):
    if x[0] == 'ite':
        return ite(x[1], isinst(x[2], nm), isinst(x[3], nm))
    if nm in ('list', 'tuple', 'str', 'int', 'float', 'dict', 'bool') and x[0] in KINDS:
        return TRUE if KINDS[x[0]] == nm or (x[0] == 'b' and nm == 'int') else FALSE
    if x[0] == 'none':
        return FALSE
    if x[0] == 'n':
        if nm in ('list', 'tuple', 'str', 'dict'):
            return FALSE
        if nm == 'int':
            return TRUE if x[1].denominator == 1 else FALSE
    return T('isinst', x, nm)


def _atoms_of_dd(c, out):
    if c[0] == 'ite':
        if c[1] not in out:
            out.append(c[1])
        _atoms_of_dd(c[2], out)
        _atoms_of_dd(c[3], out)
    elif c[0] in BOOLTAGS and c not in out:
        out.append(c)


def _bounded_search(h, c):
    """an open ended search that certainly ends at k == n is a search over [0,n)"""
    it = T('it', h)
    out = []
    _atoms_of_dd(c, out)
    for a in out:
        if a[0] not in ('lt', 'eq') or len(a) != 3 or a[2][0] != 'n':
            continue
        d = dict(_poly(a[1]))
        al = d.pop(((it, 1),), None)
        if al not in (1, -1):
            continue
        rest = _unpoly(d)
        if uses(rest, it):
            continue
        # al*k + rest < cst
        lim = mul(num(al), sub(a[2], rest))
        if a[0] == 'eq':
            val = True
            n = lim
        elif al == 1:
            val = False
            n = lim
        else:
            # k > lim
            val = True
            n = add(lim, ONE)
        if nonneg(n) and assume(c, a, val) == TRUE:
            K = T('it', '$bs')
            return close('fst', n, K, subst(assume(c, a, not val), {it: K}))
    return None


def _mk_call(f, args, *rest):
    return call(f, args, *rest)


def call(f, args, *rest):
    """pure call, distributes over conditional arguments"""
    if f in STATEFUL:
        return T('call', f, tuple(box(a) if _is_term(a) and a[0] == 'ite' else a for a in args), *rest)
    for i, a in enumerate(args):
        if _is_term(a) and a[0] == 'ite':
            return ite(a[1], call(f, tuple(args[:i]) + (a[2],) + tuple(args[i + 1:]), *rest),
                       call(f, tuple(args[:i]) + (a[3],) + tuple(args[i + 1:]), *rest))
    if CONSTFN and (f in CONSTFN or f[:6] == 'fails:' and f[6:] in CONSTFN) and args and all(fixed(a) for a in args):
        r = CONSTFN[f[6:] if f[:6] == 'fails:' else f](tuple(args))
        if r is not None:
            return r[1] if f[:6] == 'fails:' else r[0]
    return T('call', f, tuple(args), *rest)


# functions whose value for constant arguments is worked out: name -> function of the arguments
CONSTFN = {}


def fixed(x):
    return isconst(x) and x[0] != 'type' or x[0] in ('tuple', 'list') and all(fixed(y) for y in x[1])


def eq2(a, b):
    return eq(a, b)


def _rl(f, n, h, c):
    """keep the binder label equal to the height of the body"""
    hh = label((c,), h)
    if hh != h:
        c = subst(c, {T('it', h): T('it', hh)})
    return f(n, hh, c)


def _rlfold(n, h, inits, bodies):
    hh = label(bodies, h)
    if hh != h:
        m = {T('it', h): T('it', hh)}
        for i in range(len(bodies)):
            m[T('acc', h, i)] = T('acc', hh, i)
        bodies = tuple(subst(b, m) for b in bodies)
    return fold(n, hh, inits, bodies)


def _rlblit(init, h, n, c, f):
    hh = label((f,), h)
    if hh != h:
        f = subst(f, {T('it', h): T('it', hh)})
    return blit(init, hh, n, c, f)


def _hoisted(tag, f):
    """quantifiers: choices in the domain and choices that do not depend on the bound
    variable are made outside"""
    def go(n, h, c):
        if n[0] == 'ite':
            return ite(n[1], go(n[2], h, assume(c, n[1], True)), go(n[3], h, assume(c, n[1], False)))
        it = T('it', h)
        if c[0] == 'ite':
            out = []
            _atoms_of_dd(c, out)
            for a in out:
                if not uses(a, it):
                    return ite(a, go(n, h, assume(c, a, True)), go(n, h, assume(c, a, False)))
        return _rl(f, n, h, c)
    return go


def _domain_choice(f, pos):
    def go(*a):
        n = a[pos]
        if n[0] == 'ite':
            return ite(n[1], go(*(a[:pos] + (n[2],) + a[pos + 1:])), go(*(a[:pos] + (n[3],) + a[pos + 1:])))
        return f(*a)
    return go


STATEFUL = set()     # calls that see or change the state of the world (Python layer)


def box(x):
    """a conditional value that is not distributed over the calls that use it"""
    return T('box', x) if x[0] == 'ite' else x


_MAKERS = {
    'box': box,
    'fld': fld, 'idx': idx, 'size': size, 'store': store, 'push': push, 'pop': pop,
    'idiv': idiv, 'mod': mod, 'trunc': trunc, 'abs': abs_, 'eq2': eq2,
    'ex': _hoisted('ex', ex), 'sum': _hoisted('sum', sum_),
    'isinst': isinst, 'map': _domain_choice(lambda n, h, c: _rl(map_, n, h, c), 0), 'cat': cat, 'fst': _hoisted('fst', _mk_fst),
    'flat': _domain_choice(lambda n, h, c: _rl(flat, n, h, c), 0), 'fold': _domain_choice(_rlfold, 0),
    'blit': _domain_choice(_rlblit, 2),
    'call': _mk_call, 'ptr': lambda l, o: T('ptr', l, o),
    'max': lambda xs: max_(*xs), 'min': lambda xs: min_(*xs),
    'upd': lambda b, fs: upd_many(b, dict(fs)),
}


# ---------------------------------------------------------------- printing

def show(t, depth=0):
    """Readable rendering for reports."""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    s = show
    if not isinstance(k, str):
        return "(" + ", ".join(s(x) for x in t) + ")"
    if k == 'n':
        return str(t[1]) if t[1].denominator == 1 else str(float(t[1]))
    if k == 's':
        return repr(t[1])
    if k == 'b':
        return "true" if t[1] else "false"
    if k == 'none':
        return "None"
    if k == 'poly':
        out = []
        for m, c in t[1]:
            f = "*".join(s(a) + ("" if p == 1 else "^%d" % p) for a, p in m)
            if not f:
                f = s(T('n', c))
            elif c == -1:
                f = "-" + f
            elif c != 1:
                f = s(T('n', c)) + "*" + f
            out.append(f)
        return "(" + " + ".join(out) + ")"
    if k == 'ite':
        return "if(%s, %s, %s)" % (s(t[1]), s(t[2]), s(t[3]))
    if k in ('lt', 'le', 'eq') and len(t) == 3:
        return "(%s %s %s)" % (s(t[1]), {'lt': '<', 'le': '<=', 'eq': '=='}[k], s(t[2]))
    if k == 'eq2':
        return "(%s == %s)" % (s(t[1]), s(t[2]))
    if k == 'in':
        return str(t[1])
    if k == 'fld':
        return "%s.%s" % (s(t[1]), t[2])
    if k == 'idx':
        return "%s[%s]" % (s(t[1]), s(t[2]))
    if k == 'it':
        return "k%s" % (t[1],)
    if k == 'acc':
        return "acc%s_%s" % (t[1], t[2])
    if k == 'upd':
        return "%s{%s}" % (s(t[1]), ", ".join("%s:=%s" % (f, s(v)) for f, v in t[2]))
    if k in ('call', 'ev'):
        return "%s(%s)%s" % (t[1], ", ".join(s(x) for x in t[2]),
                             "".join("@" + s(x) for x in t[3:]))
    if k in ('list', 'tuple'):
        return ("[%s]" if k == 'list' else "(%s)") % ", ".join(s(x) for x in t[1])
    return "%s(%s)" % (k, ", ".join(s(x) for x in t[1:]))
