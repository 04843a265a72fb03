"""Comparison of two value terms (code against reference model).

EQ    the normal forms coincide
DIFF  they differ in a way no further rewriting can remove: another constant,
      another coefficient, another relation between the same operands, another
      input or field, a missing or an extra update, ...
UNK   they are built differently and may or may not mean the same
"""
import os
import time

import linear as lin
import depend
import special
import terms as t
from terms import T, TRUE, FALSE, ZERO

EQ, UNK, DIFF = 'eq', 'unk', 'diff'
PRIM = ('in', 'n', 's', 'b', 'none')
BINDERS = t.BINDERS


class R(object):
    __slots__ = ('v', 'why', 'pair', 'look')

    def __init__(self, v, why=None, pair=None, look=()):
        self.v = v
        self.why = why
        self.pair = pair
        self.look = look       # helpers to look through before this difference counts

    def __repr__(self):
        return "%s %s" % (self.v, self.why)


OK = R(EQ)


def sh(x, n=160):
    s = t.show(x)
    return s if len(s) <= n else s[:n] + "..."


def diff(a, b, what=''):
    return R(DIFF, "%scode computes %s, reference %s" % (what and what + ': ', sh(a), sh(b)), (a, b))


def head(x):
    """the function whose result a term is (part of)"""
    while x[0] in ('fld', 'idx', 'size', 'box', 'not'):
        x = x[1]
    if x[0] == 'call':
        return x[1].split('#')[0]
    return None


def unk(a, b):
    return R(UNK, "code %s / reference %s" % (sh(a), sh(b)))


_memo = {}
SPECIAL = []
SPENT = [0]       # seconds spent on specialisation in this process


def rels(x, ords, eqs, seen):
    if not isinstance(x, tuple) or x in seen:
        return
    seen.add(x)
    if x and x[0] in ('lt', 'le') and len(x) == 3:
        ords.add(x[1])
    elif x and x[0] == 'eq' and len(x) == 3 and x[2][0] == 'n':
        eqs.add(x[1])
    for y in x:
        if isinstance(y, tuple):
            rels(y, ords, eqs, seen)


def expand_eq(x, qs, memo):
    """q == c as not (q < c) and q <= c, for the operands that are also ordered"""
    r = memo.get(x)
    if r is None:
        if x[0] == 'eq' and len(x) == 3 and x[1] in qs and x[2][0] == 'n':
            r = t.and_(t.not_(t._ltq(x[1], x[2][1])), t._leq(x[1], x[2][1]))
        elif x[0] == 'ite':
            r = t.ite(expand_eq(x[1], qs, memo), expand_eq(x[2], qs, memo), expand_eq(x[3], qs, memo))
        else:
            r = t.rebuild(x, lambda y: expand_eq(y, qs, memo))
        memo[x] = r
    return r


def normal(a, b):
    """bring two terms to a common normal form"""
    for _ in range(3):
        ords, eqs = set(), set()
        seen = set()
        rels(a, ords, eqs, seen)
        rels(b, ords, eqs, seen)
        qs = {q for q in ords & eqs if not (t.nonneg(q))}
        if not qs:
            break
        memo = {}
        a2, b2 = expand_eq(a, qs, memo), expand_eq(b, qs, memo)
        if (a2, b2) == (a, b):
            break
        a, b = a2, b2
    return a, b


def compare(a, b, value=True, deep=True):
    if a == b:
        return OK
    a, b = normal(a, b)
    if a == b:
        return OK
    r = judge(a, b, value, deep)
    if r.v == DIFF and (a, b) != (decopy(a), decopy(b)):
        # which objects are shared is another question
        if judge(decopy(a), decopy(b), value, deep).v != DIFF:
            return R(UNK, r.why)
    return r


def judge(a, b, value, deep=True):
    del CTX[:]
    x, y = search_facts(a, b)
    r = cmp(x, y)
    if r.v == UNK:
        r = single_difference(a, b) or r
    if r.v == UNK and value:
        r = independent(x, y) or r
    if r.v == UNK and deep:
        shapes = [(1, 1, 1), (2, 2, 1), (1, 1, 2), (2, 2, 2), (1, 3, 1), (3, 3, 3)]
        asked = set()
        special.asked_sizes(a, asked, set())
        special.asked_sizes(b, asked, set())
        for k in sorted(asked)[:3]:
            shapes += [(1, k, 1), (2, k, 1)] if k > 3 else [(2, k, 1)] if k == 3 else []
        for n, k, m in shapes:
            s = with_lists_of(n, k, m, a, b)
            if s is not None:
                return s
        if value:
            # a list that only the code looks at may have any other length
            own = special.own_lists(a, b)
            for n, e in ((1, 2), (2, 1), (2, 3), (1, 0)) if own else ():
                s = with_lists_of(n, n, n, a, b, {v: e for v in own})
                if s is not None:
                    return s
    return r


def independent(x, y, given=()):
    """a value that does not depend on something the reference value depends on"""
    if x[0] == 'upd' and y[0] == 'upd' and x[1] == y[1]:
        fa, fb = dict(x[2]), dict(y[2])
        for f in sorted(set(fa) | set(fb)):
            r = independent(fa.get(f) or t.fld(x[1], f), fb.get(f) or t.fld(y[1], f), given)
            if r is not None:
                return R(DIFF, ".%s %s" % (f, r.why), r.pair)
        return None
    m = depend.independent(x, y, given)
    if m is None or SPECIAL and putback(y):
        return None
    return R(DIFF, "does not depend on %s, as in the reference: code %s, reference %s" % (m, sh(x), sh(y)), (x, y))


def putback(x):
    """a store by cases: it may put back what was there when two positions agree"""
    return isinstance(x, tuple) and (bool(x) and x[0] == 'store' and (
        x[3][0] == 'ite' or x[3][0] == 'idx' and x[3][1] == updates(x)[0]) or any(putback(y) for y in x))


def with_lists_of(n, k, m, a, b, extra=()):
    """a certain difference when every list has n elements (k if it is an element of
    a list itself) and every counted loop runs m times"""
    if SPENT[0] > 150:
        return None
    start = time.process_time()
    try:
        return with_lists_of_(n, k, m, a, b, extra)
    finally:
        SPENT[0] += time.process_time() - start


def with_lists_of_(n, k, m, a, b, extra=()):
    try:
        fixed = set()
        special.bounds(a, fixed, set())
        special.bounds(b, fixed, set())
        if n != m and n == k and not fixed:
            return None
        x = special.specialise(a, n, fixed=fixed, m=m, inner=k, extra=extra)
        y = special.specialise(b, n, fixed=fixed, m=m, inner=k, extra=extra)
    except (special.TooLarge, RecursionError):
        return None
    if x == y or (x, y) == (a, b):
        return None
    x, y = normal(x, y)
    if t.uses(x, t.call('inf', ())) or t.uses(y, t.call('inf', ())):
        return None         # a loop without a bound is left
    del CTX[:]
    SPECIAL.append((n, time.process_time() + 12))
    try:
        r = cmp(x, y)
    except special.TooLarge:
        return None
    finally:
        SPECIAL.pop()
    if r.v == UNK:
        s = single_difference(x, y)
        r = s or r
    if r.v == DIFF:
        return R(DIFF, "with lists of %d element%s %s" % (n, n > 1 and 's' or '', r.why), r.pair)
    return None


COPIES = ('numpy.array', 'list', 'tuple', 'dict', 'numpy.copy', 'float')
_decopied = {}


def decopy(x):
    """the term without copies of whole values"""
    r = _decopied.get(x)
    if r is None:
        if x[0] == 'idx' and x[2][0] in ('tuple', 'call'):
            r = x
        else:
            r = t.rebuild(x, decopy)
        if r[0] == 'call' and r[1] in COPIES and len(r[2]) == 1:
            r = r[2][0]
        _decopied[x] = r
    return r


def single_difference(a, b):
    """the terms coincide except for one subterm, which is certainly different"""
    import align
    hs = align.holes(a, b)
    if not hs or len(hs) != 1:
        return None
    (x, y), = hs
    if x == a and y == b:
        return None
    if not certain(x, y) or related_by_context(a, x, y):
        return None
    return diff(x, y)


def certain(x, y):
    if conditional(x) or conditional(y):
        # a choice that the surroundings may already have made
        return False
    if cmp(x, y).v == DIFF:
        return True
    return accumulated(x, y) or accumulated(y, x)


def conditional(x):
    return x[0] == 'ite' and not isboolean(x) or (x[0] in ('box', 'call') and boxcond(x) is not None)


def accumulated(x, y):
    """a value gathered from all elements of a collection against a value that depends
    on fixed places only"""
    if x[0] not in ('fold', 'sum') or t.isconst(x[1]) or not simple(y) or mentions(place(y), ('call', 'it', 'acc')):
        return False
    if t.isconst(y):
        return False
    it = T('it', x[2])
    body = x[4] if x[0] == 'fold' else (x[3],)
    return any(reads_element(z, it) for z in body)


def place(y):
    """the term without the positions it selects"""
    if y[0] == 'idx':
        return T('idx', place(y[1]), t.ZERO)
    if y[0] == 'fld':
        return T('fld', place(y[1]), y[2])
    return y


def reads_element(x, it):
    if not isinstance(x, tuple) or not x:
        return False
    if x[0] == 'idx' and t.uses(x[2], it):
        return True
    return any(reads_element(y, it) for y in x if isinstance(y, tuple))


def related_by_context(a, x, y):
    """some condition equates the two values"""
    d = t.sub(x, y) if x[0] in ('n', 'poly') or y[0] in ('n', 'poly') or t.is_int(x) else None
    seen = set()
    todo = [a]
    while todo:
        z = todo.pop()
        if z in seen:
            continue
        seen.add(z)
        if z and z[0] == 'eq2' and {z[1], z[2]} == {x, y}:
            return True
        if z and z[0] == 'eq' and len(z) == 3 and d is not None:
            q = t.sub(z[1], z[2])
            if q == d or q == t.neg(d):
                return True
        todo.extend(w for w in z if isinstance(w, tuple))
    return False


CTX = []           # the loops a pair of terms is enclosed in: (label, count)


def without_shared_calls(a, b):
    """a and b with the results of calls that both contain as unknowns"""
    def calls(x, out, seen):
        if x in seen or not isinstance(x, tuple):
            return
        seen.add(x)
        if x and x[0] == 'call':
            out.append(x)
        for y in x:
            if isinstance(y, tuple):
                calls(y, out, seen)
    ca, cb = [], []
    calls(a, ca, set())
    calls(b, cb, set())
    cb = set(cb)
    m = {}
    for c in ca:
        if c in cb and c not in (a, b) and not simple(c) and not t.free_labels(c):
            m[c] = T('in', 'call%d' % len(m))
    # the outermost ones
    m = {c: v for c, v in m.items() if not any(c is not o and t.uses(o, c) for o in m)}
    return (t.subst(a, m), t.subst(b, m)) if m else (a, b)


def search_facts(a, b):
    """where a search succeeded, its predicate holds at the position it returned"""
    out = []
    t_seen = set()
    exs = []

    def go(x):
        if not isinstance(x, tuple) or x in t_seen:
            return
        t_seen.add(x)
        if x and x[0] == 'fst' and len(x) == 4:
            exs.append(x)
        for y in x:
            go(y)
    go(a)
    go(b)
    for f in sorted(exs, key=t.key):
        e = T('ex', f[1], f[2], f[3])
        fact = t.subst(f[3], {T('it', f[2]): f})
        if not isboolean(fact):
            continue
        r = []
        for x in (a, b):
            r.append(t.ite(e, t.ite(fact, t.assume(x, e, True), t.NONE), t.assume(x, e, False)))
        if (r[0] == r[1]) or (isboolean(a) and isboolean(b)):
            a, b = r
    return a, b


def cmp(a, b, depth=0):
    if a == b:
        return OK
    if SPECIAL and time.process_time() > SPECIAL[-1][1]:
        raise special.TooLarge()
    k = (a, b, tuple(CTX), len(SPECIAL))
    r = _memo.get(k)
    if r is None:
        r = _cmp(a, b, depth)
        _memo[k] = r
    return r


_simple = {}


def simple(x):
    """built from inputs, fields, elements and uninterpreted calls only: the normal
    form of such a term is canonical"""
    r = _simple.get(x)
    if r is None:
        r = _simple_(x)
        _simple[x] = r
    return r


def _simple_(x):
    k = x[0]
    if k in ('n', 's', 'b', 'none', 'in', 'enum', 'type', 'glob', 'func', 'it', 'new', 'empty', 'acc'):
        return True
    if k == 'fld':
        return simple(x[1])
    if k in ('idx',):
        return simple(x[1]) and simple(x[2])
    if k in ('size', 'trunc', 'abs', 'push', 'pop'):
        return all(simple(y) for y in x[1:])
    if k == 'poly':
        return all(simple(a) for m, c in x[1] for a, p in m)
    if k == 'call':
        return all(simple(y) for y in x[2] if isinstance(y, tuple) and y)
    if k in ('list', 'tuple'):
        return all(simple(y) for y in x[1])
    if k in ('lt', 'le', 'eq', 'eq2', 'isinst', 'in?'):
        return all(simple(y) for y in x[1:] if isinstance(y, tuple))
    if k == 'ite':
        return all(simple(y) for y in x[1:])
    if k == 'upd':
        return simple(x[1]) and all(simple(v) for f, v in x[2])
    if k == 'store':
        return all(simple(y) for y in x[1:])
    return False


def allof(rs, record=False):
    """verdict of a composite from the verdicts of its parts"""
    d = [r for r in rs if r.v == DIFF]
    u = [r for r in rs if r.v == UNK]
    if d and (record or not u):
        return d[0]
    if u:
        return u[0]
    if d:
        return d[0]
    return OK


def _cmp(a, b, depth):
    ka, kb = a[0], b[0]
    if depth > 400:
        return unk(a, b)
    d = depth + 1
    for x, y in ((a, b), (b, a)):
        if x[0] == 'call' and x[1] == 'str' and len(x[2]) == 1 and head(y) != 'str' and y[0] not in ('s', 'n', 'str'):
            # str() of a text is that text
            return unk(a, b) if cmp(x[2][0], y, d).v == EQ else cmp(x[2][0], y, d)
    # --- a state of the world that depends on a condition
    if ka in ('call', 'box') and kb in ('call', 'box', 'in'):
        c = boxcond(a) or boxcond(b)
        if c is not None:
            rs = [cmp(t.assume(a, c, True), t.assume(b, c, True), d),
                  cmp(t.assume(a, c, False), t.assume(b, c, False), d)]
            return allof(rs, record=True)
    # --- constants
    if t.isconst(a) and t.isconst(b):
        return diff(a, b)
    # --- choices
    if ka == 'ite' or kb == 'ite' or (isboolean(a) and isboolean(b)):
        return cmp_dd(a, b, d)
    # --- records
    if ka == 'upd' or kb == 'upd':
        ba = a[1] if ka == 'upd' else a
        bb = b[1] if kb == 'upd' else b
        fa = dict(a[2]) if ka == 'upd' else {}
        fb = dict(b[2]) if kb == 'upd' else {}
        if ba == bb:
            rs = []
            fs = sorted(set(fa) | set(fb))
            if SPECIAL:
                # one difference is enough: the small ones first
                fs.sort(key=lambda f: (weight(fa.get(f, ZERO)) + weight(fb.get(f, ZERO)), f))
            for f in fs:
                x = fa.get(f) if f in fa else t.fld(ba, f)
                y = fb.get(f) if f in fb else t.fld(bb, f)
                r = cmp(x, y, d)
                if r.v != EQ and r.why and not r.why.startswith('.'):
                    r = R(r.v, ".%s %s" % (f, r.why), r.pair)
                rs.append(r)
                if SPECIAL and r.v == DIFF and not r.look:
                    break
            return allof(rs, record=True)
        if ka == kb == 'upd' and set(fa) == set(fb):
            return allof([cmp(ba, bb, d)] + [cmp(fa[f], fb[f], d) for f in fa], record=True)
        if simple(a) and simple(b):
            return diff(a, b)
        return unk(a, b)
    # --- a position found by searching against a position that is not searched for
    for x, y in ((a, b), (b, a)):
        if x[0] == 'fst' and searched(x) and simple(y) and not mentions(y, ('fst', 'fold')):
            return diff(a, b)
    # --- text
    if ka in ('str', 'fmt') and kb in ('s', 'str', 'fmt') or ka == 's' and kb in ('str', 'fmt'):
        return cmp_text(a, b, d)
    # --- arithmetic
    if ka == 'poly' or kb == 'poly':
        return cmp_poly(a, b, d)
    if ka in ('n',) or kb in ('n',):
        if simple(a) and simple(b):
            return diff(a, b)
        if remainder(a, b) or remainder(b, a):
            return diff(a, b)
        x = a if kb == 'n' else b
        if x[0] in ('sum', 'fst', 'fold') and (b if kb == 'n' else a) == ZERO:
            return diff(a, b)
        return unk(a, b)
    if ka == kb:
        r = cmp_same(a, b, d)
        if r is not None:
            return r
    for x, y in ((a, b), (b, a)):
        if x[0] in ('map', 'fill') and y[0] == 'empty' and not t.isconst(x[1]) and simple(x[1]):
            return diff(a, b)
    # --- missing or extra updates of a location
    for x, y in ((a, b), (b, a)):
        if x[0] in ('store', 'push', 'pop', 'blit', 'fold', 'cat', 'erase', 'insert', 'sorted', 'resize', 'slice'):
            base = updbase(x)
            if base == y:
                return unk(a, b) if SPECIAL and putback(x) else diff(a, b)
    if ka == 'call' and kb == 'call' and a[1] == b[1] and len(a[2]) == len(b[2]):
        return allof([cmp(x, y, d) for x, y in zip(a[2], b[2])], record=a[1] == 'setslice' and a[2][0] == b[2][0])
    if remainder(a, b) or remainder(b, a):
        return diff(a, b)
    r = cmp_chain(a, b, d)
    if r is not None:
        return r
    if simple(a) and simple(b):
        return diff(a, b)
    x, y = without_shared_calls(a, b)
    if (x, y) != (a, b) and simple(x) and simple(y) and x != y:
        return diff(a, b)
    return unk(a, b)


_weight = {}


def weight(x):
    """number of different sub terms"""
    r = _weight.get(x)
    if r is None:
        seen = set()
        todo = [x]
        while todo:
            y = todo.pop()
            if isinstance(y, tuple) and y not in seen:
                seen.add(y)
                todo.extend(y)
        r = _weight[x] = len(seen)
    return r


def cmp_text(a, b, d):
    """sequences of literal and converted parts"""
    if a[0] == b[0] == 'fmt':
        if a[1] == b[1]:
            return cmp(a[2], b[2], d)
        if a[1][0] == b[1][0] == 's' and a[2] == b[2] and simple(a[2]):
            return diff(a, b)
        return unk(a, b)
    x = list(a[1] if a[0] == 'str' else (a,))
    y = list(b[1] if b[0] == 'str' else (b,))
    for back in (False, True):
        i = -1 if back else 0
        while x and y:
            p, q = x[i], y[i]
            if p == q:
                del x[i], y[i]
                continue
            if p[0] == q[0] == 's':
                u, v = (p[1][::-1], q[1][::-1]) if back else (p[1], q[1])
                n = len(os.path.commonprefix([u, v]))
                if n < min(len(u), len(v)):
                    return R(DIFF, "code writes %s, reference %s" % (sh(T('s', p[1][max(0, n - 20):] if not back else p[1])),
                                                                     sh(T('s', q[1][max(0, n - 20):] if not back else q[1]))),
                             (a, b))
                u, v = u[n:], v[n:]
                for z, w in ((x, u), (y, v)):
                    if w:
                        z[i] = T('s', w[::-1] if back else w)
                    else:
                        del z[i]
                continue
            break
    if not x or not y:
        z = x or y
        if any(p[0] in ('s', 'fmt') for p in z):
            return diff(a, b)
        return unk(a, b)
    if len(x) == len(y) == 1:
        p, q = x[0], y[0]
        for p, q in ((x[0], y[0]), (y[0], x[0])):
            # a number against a text that is no number
            if p[0] == 's' and q[0] == 'fmt' and not any(c.isdigit() for c in p[1]):
                return diff(a, b)
        p, q = x[0], y[0]
        if p[0] == 's' or q[0] == 's':
            return unk(a, b)
        return cmp(p, q, d)
    if len(x) == len(y) and not any(p[0] == 's' or q[0] == 's' for p, q in zip(x, y) if p != q):
        return allof([cmp(p, q, d) for p, q in zip(x, y)])
    return unk(a, b)


def remainder(a, b):
    """p against (p + 1) mod n and the like"""
    return a[0] in ('mod', 'idiv') and simple(a[1]) and simple(a[2]) and not t.isconst(a[2]) and simple(b) and \
        not mentions(b, ('mod', 'idiv')) and t.sub(a[1], b) not in (t.ZERO,)


def searched(x):
    """first position whose element equals a given value"""
    c = x[3]
    it = T('it', x[2])
    return c[0] == 'eq' and simple(c) and len(t._poly(c[1])) == 2 and \
        sum(1 for m in t._poly(c[1]) for y, p in m if y[0] == 'idx' and y[2] == it and not t.uses(y[1], it)) == 1 and \
        not any(t.uses(y, it) for m in t._poly(c[1]) for y, p in m if y[0] != 'idx')


def boxcond(x):
    """the condition of a conditional value that the calls in x use"""
    seen = set()
    todo = [x]
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        if y[0] == 'box' and y[1][0] == 'ite':
            return y[1][1]
        if y[0] == 'call':
            todo.extend(z for z in y[2] if isinstance(z, tuple) and z and isinstance(z[0], str))
    return None


def updbase(x):
    while x[0] in ('store', 'push', 'pop', 'blit', 'cat', 'erase', 'insert', 'sorted', 'resize', 'slice', 'fold'):
        x = x[3][0] if x[0] == 'fold' else x[1]
    return x


def updates(x):
    out = []
    while x[0] == 'store':
        out.append((x[2], x[3]))
        x = x[1]
    return x, out


CALLHASH = '#'


def cmp_chain(a, b, d):
    """states produced by uninterpreted calls: f#this(g#this(s, ..), ..)"""
    def chain(x):
        out = []
        while True:
            if x[0] == 'call' and CALLHASH in x[1] and x[2] and isinstance(x[2][0], tuple):
                out.append((x[1], x))
                x = x[2][-1] if x[1].split('#')[1].startswith('$') else x[2][0]
                continue
            if x[0] in ('store', 'push', 'pop'):
                out.append((x[0], x))
                x = x[1]
                continue
            return out, x
    ca, xa = chain(a)
    cb, xb = chain(b)
    if not ca and not cb:
        return None
    if xa != xb:
        return None
    na, nb = [c[0] for c in ca], [c[0] for c in cb]
    if na != nb and sorted(na) != sorted(nb):
        extra = [n for n in na if na.count(n) > nb.count(n)]
        miss = [n for n in nb if nb.count(n) > na.count(n)]
        if all(simple(c[1]) for c in ca + cb) or not (extra and miss):
            return R(DIFF, "effects differ: code %s, reference %s" % (
                ", ".join(n.split('#')[0] for n in na) or 'none', ", ".join(n.split('#')[0] for n in nb) or 'none'))
    return None


def within(a, b, x, y, d):
    """bodies of two loops with the same label"""
    if a[1] != b[1]:
        return cmp(x, y, d)
    CTX.append((a[2], a[1]))
    try:
        return cmp(x, y, d)
    finally:
        CTX.pop()


def cmp_same(a, b, d):
    k = a[0]
    if k in ('fld',):
        if a[2] == b[2]:
            return cmp(a[1], b[1], d)
        if simple(a) and simple(b):
            return diff(a, b)
        return unk(a, b)
    if k == 'in':
        return diff(a, b)
    if k == 'idx':
        r = allof([cmp(a[1], b[1], d), cmp(a[2], b[2], d)])
        return r
    if k in ('lt', 'le', 'eq'):
        return cmp_rel(a, b, d)
    if k in ('list', 'tuple'):
        if len(a[1]) != len(b[1]):
            return diff(a, b)
        return allof([cmp(x, y, d) for x, y in zip(a[1], b[1])], record=True)
    if k == 'call':
        if a[1] == b[1] and len(a[2]) == len(b[2]):
            return allof([cmp(x, y, d) for x, y in zip(a[2], b[2])])
        return None
    if k in ('ex', 'fst', 'sum', 'map', 'flat') and a[2] == b[2]:
        return allof([cmp(a[1], b[1], d), within(a, b, a[3], b[3], d)])
    if k in ('ex', 'fst', 'sum', 'map', 'flat'):
        # binder labels differ: the bodies contain different binders
        if a[1] == b[1] and k in ('sum', 'map', 'ex', 'fst'):
            h = max(a[2], b[2])
            fa = t.subst(a[3], {T('it', a[2]): T('it', 'x')})
            fb = t.subst(b[3], {T('it', b[2]): T('it', 'x')})
            return cmp(fa, fb, d)
        return unk(a, b)
    if k == 'fold':
        if len(a[3]) != len(b[3]):
            # another state is threaded through the loop
            return unk(a, b)
        rs = [cmp(a[1], b[1], d)]
        rs += [cmp(x, y, d) for x, y in zip(a[3], b[3])]
        if a[2] == b[2]:
            rs += [within(a, b, x, y, d) for x, y in zip(a[4], b[4])]
        else:
            def lab(f):
                m = {T('it', f[2]): T('it', 'x')}
                for i in range(len(f[3])):
                    m[T('acc', f[2], i)] = T('acc', 'x', i)
                return [t.subst(z, m) for z in f[4]]
            rs += [cmp(x, y, d) for x, y in zip(lab(a), lab(b))]
        m = 1 + len(a[3])
        if any(r.v != EQ for r in rs[:m]) and any(r.v != EQ for r in rs[m:]) and \
                all(x[0] in ('n', 'poly') for f in (a, b) for x in f[4]):
            # another start and another step may lead to the same value
            return unk(a, b)
        return allof(rs)
    if k == 'blit':
        fa = t.subst(a[5], {T('it', a[2]): T('it', 'x')})
        fb = t.subst(b[5], {T('it', b[2]): T('it', 'x')})
        return allof([cmp(a[1], b[1], d), cmp(a[3], b[3], d), cmp(a[4], b[4], d), cmp(fa, fb, d)])
    if k == 'store':
        ua, ub = updates(a), updates(b)
        if ua[0] == ub[0] and len(ua[1]) != len(ub[1]):
            more, less = (ua[1], ub[1]) if len(ua[1]) > len(ub[1]) else (ub[1], ua[1])
            extra = [u for u in more if u not in less]
            if all(u in more for u in less) and all(simple(i) and simple(x) for i, x in extra) and \
                    not (SPECIAL and any(mentions(x, ('ite',)) for i, x in extra)):
                return diff(T('list', tuple(x for i, x in ua[1])), T('list', tuple(x for i, x in ub[1])), 'stores')
    if k in ('push', 'store', 'cat', 'insert', 'erase', 'slice', 'resize', 'fill', 'sorted', 'eq2', 'in?', 'isinst',
             'trunc', 'abs', 'idiv', 'mod', 'size', 'pop', 'ptr', 'dedup', 'mapit', 'addr', 'loc'):
        if k == 'eq2' or k == 'in?' or k == 'isinst':
            rs = [cmp(x, y, d) if isinstance(x, tuple) and isinstance(y, tuple) else (OK if x == y else diff(a, b))
                  for x, y in zip(a[1:], b[1:])]
            return allof(rs)
        if len(a) == len(b) and all(isinstance(x, tuple) and isinstance(y, tuple) and t._is_term(x) and t._is_term(y)
                                    for x, y in zip(a[1:], b[1:])):
            rs = [cmp(x, y, d) for x, y in zip(a[1:], b[1:])]
            return allof(rs)
        return unk(a, b)
    if k in ('max', 'min'):
        if simple_all(a[1]) and simple_all(b[1]):
            return diff(a, b)
    return None


def simple_all(xs):
    return all(simple(x) for x in xs)


def isboolean(x):
    return x[0] == 'b' or x[0] in t.BOOLTAGS or (x[0] == 'ite' and isboolean(x[2]) and isboolean(x[3]))


def cmp_rel(a, b, d):
    """two comparisons with the same operator"""
    if a[1] == b[1] and a[2][0] == 'n' and b[2][0] == 'n':
        return diff(a, b, 'condition')
    return allof([cmp(a[1], b[1], d), cmp(a[2], b[2], d)])


def atoms_of(x):
    return {a for m, c in t._poly(x).items() for a, p in m}


def cmp_poly(a, b, d):
    pa, pb = t._poly(a), t._poly(b)
    only_a = {m: c for m, c in pa.items() if pb.get(m) != c}
    only_b = {m: c for m, c in pb.items() if pa.get(m) != c}
    ra, rb = t._unpoly(only_a), t._unpoly(only_b)
    if simple(ra) and simple(rb):
        return diff(a, b)
    ma, mb = set(only_a), set(only_b)
    # same monomials, other coefficients
    if ma == mb or ma <= mb or mb <= ma:
        if all(m in pb or m in pa for m in ma | mb):
            if ma and mb and ma == mb:
                return diff(a, b)
    # pair up the remaining monomials
    if len(only_a) == len(only_b):
        xa = sorted(only_a.items(), key=lambda mc: t._mkey(mc[0]))
        xb = sorted(only_b.items(), key=lambda mc: t._mkey(mc[0]))
        rs = []
        used = set()
        for m, c in xa:
            best = None
            for i, (m2, c2) in enumerate(xb):
                if i in used:
                    continue
                if [p for _, p in m] != [p for _, p in m2] and sorted(p for _, p in m) != sorted(p for _, p in m2):
                    continue
                # shared factors cancel
                s1 = [x for x in m if x not in m2]
                s2 = [x for x in m2 if x not in m]
                if len(s1) != len(s2):
                    continue
                r = allof([cmp(x[0], y[0], d) for x, y in zip(s1, s2)] +
                          ([] if c == c2 else [diff(a, b)]))
                if best is None or (r.v == DIFF and best[0].v != DIFF):
                    best = (r, i)
            if best is None:
                return unk(a, b)
            used.add(best[1])
            rs.append(best[0])
        return allof(rs)
    # a summand is missing on one side and everything else is the same
    if not only_a or not only_b:
        x = only_a or only_b
        return diff(a, b)
    return unk(a, b)


def conds(x, out, seen=None):
    if x[0] == 'ite':
        if seen is None:
            seen = set()
        if x in seen:
            return
        seen.add(x)
        if x[1] not in out:
            out.append(x[1])
        conds(x[2], out, seen)
        conds(x[3], out, seen)
    elif x[0] in t.BOOLTAGS:
        if x not in out:
            out.append(x)


def bool_conds(x):
    out = []
    conds(x, out)
    return out


def consistent(lits, atom, val):
    """cheap feasibility of a path of literals"""
    for c, v in lits:
        r = t.decide(atom, c, v)
        if r is not None and r != val:
            return False
        r = t.decide(c, atom, val)
        if r is not None and r != v:
            return False
        if v and val and (none_type(atom, c) or none_type(c, atom)):
            return False
        if not v and not val and (zero_test(atom, c) or zero_test(c, atom)):
            # x == False against not x: the same for a flag
            return False
    a = linear(atom, val)
    if a is not None:
        if negative(a[0], a[1]):
            return False
        for c, v in lits:
            b = linear(c, v)
            if b is not None and negative(t.add(a[0], b[0]), a[1] or b[1]):
                return False
    return True


def zero_test(p, q):
    return p[0] == 'eq' and p[2] == t.ZERO and p[1] == q


def none_type(p, q):
    """x is None, and x is an instance of something"""
    if p[0] not in ('eq', 'eq2') or q[0] != 'isinst':
        return False
    return t.NONE in p[1:] and q[1] in p[1:]


# quantities that are at least one by construction
POSITIVE = ('repetitions_', 'n_basis_', 'blocksize_')


def linear(atom, val):
    """the literal as (p, strict): p >= 0, or p > 0 when strict"""
    k = atom[0]
    if k not in ('lt', 'le') or atom[1][0] in ('tuple', 'ite') or atom[2][0] != 'n':
        return None
    p = t.sub(atom[2], atom[1])            # q < c   is   c - q > 0
    strict = k == 'lt'
    if not val:
        p = t.neg(p)
        strict = not strict
    return p, strict


def negative(p, strict):
    """p < 0 for certain (p <= 0 when a positive value was asked for)"""
    if p[0] == 'ite':
        return False
    c = 0
    for m, co in t._poly(p).items():
        if not m:
            c += co
            continue
        if co > 0 or len(m) != 1 or m[0][1] != 1:
            return False
        lo = least(m[0][0])
        if lo is None:
            return False
        c += co * lo
    return c < 0 or c == 0 and strict


def least(a):
    """lower bound of an atom, None if unknown"""
    if a[0] in t.NONNEG:
        return 0
    b = a
    if b[0] == 'idx':
        b = b[1]
    if b[0] == 'fld' and b[2] in POSITIVE:
        return 1
    return None


def domain_limited(x):
    """mentions quantities that are bounded by construction"""
    return not simple(x) or mentions(x, ('it', 'fst', 'size', 'acc'))


def mentions(x, tags):
    if not isinstance(x, tuple):
        return False
    if x and x[0] in tags:
        return True
    return any(mentions(y, tags) for y in x)


def related(p, q, d):
    """relation between a condition only the code has and one only the reference has:
    DIFF when they are certainly different conditions, UNK when they may be the same"""
    if p[0] in ('lt', 'le', 'eq') and q[0] in ('lt', 'le', 'eq') and len(p) == 3 and len(q) == 3 and p[1] == q[1]:
        if p[0] != 'eq' and q[0] != 'eq' or p[0] == q[0]:
            return diff(p, q, 'condition')
        return unk(p, q) if domain_limited(p[1]) else diff(p, q, 'condition')
    if p[0] == q[0]:
        return cmp(p, q, d)
    if simple(p) and simple(q) and not domain_limited(p) and not domain_limited(q):
        return diff(p, q, 'condition')
    return unk(p, q)


def linear_cond(c):
    """an inequality between sums of independent quantities"""
    if c[0] not in ('lt', 'le') or len(c) != 3 or c[2][0] != 'n' or c[1][0] in ('tuple', 'ite') or not simple(c[1]):
        return False
    return all(len(m) == 1 and m[0][1] == 1 and m[0][0][0] in ('in', 'fld', 'idx', 'call', 'it') and
               not mentions(m[0][0], ('fst', 'fold', 'acc', 'size', 'sum')) for m in t._poly(c[1]) if m)


def facts(atoms):
    out = []
    for a in sorted(atoms, key=t.key):
        if isinstance(a, tuple) and a and isinstance(a[0], str):
            lo = least(a)
            if lo is not None:
                out.append(({a: 1}, -lo, False))
            if a[0] == 'it':
                out.append(({a: 1}, 0, False))
                for h, n in CTX:
                    if h == a[1]:
                        r = lin.row(t.sub(t.sub(n, a), t.num(1)), False)
                        if r:
                            out.append(r)
            if a[0] == 'call' and a[1].startswith('indexToCell#') and len(a[2]) and a[2][0][0] == 'tuple':
                # a cell lies on the lattice
                out.append(({a: 1}, 0, False))
                for f in a[2][0][1]:
                    if f[0] == 'fld' and f[2] == 'repetitions_':
                        r = lin.row(t.sub(t.sub(t.idx(f, t.num(int(a[1][12]) - 1)), a), t.num(1)), False)
                        out.append(r)
    return out


LISTS = ('map', 'flat', 'list', 'cat', 'fill', 'slice', 'sorted', 'tuple', 'empty')


def refuted(lits):
    """the literals of a path certainly contradict each other"""
    ints = {c[1] for c, v in lits if v and c[0] == 'isinst' and c[2] in ('int', 'bool')}
    extra = []
    for c, v in lits:
        if v and c[0] in ('eq', 'eq2') and len(c) == 3 and isinstance(c[2], tuple) and \
                (c[1][0] in LISTS or c[2][0] in LISTS):
            # equal lists have equal lengths
            extra.append((t.eq(t.size(c[1]), t.size(c[2])), True))
    for c, v in extra:
        if c == FALSE or any(c == d and not w for d, w in lits):
            return True
    if contradictory(lits):
        return True
    return possible(lits + [(c, v) for c, v in extra if c != TRUE], ints) is False


def contradictory(lits):
    """a literal is wrong, or the opposite of another one, given the others"""
    if not 1 < len(lits) <= 40:
        return False
    cur = list(lits)
    for i in range(len(cur)):
        # equal positions
        c, v = cur[i]
        p = v and c[0] == 'eq' and c[1][0] == 'poly' and t.two_equal(c)
        if p:
            m = {p[0]: p[1]}
            cur = cur[:i + 1] + [(t.subst(d, m), w) for d, w in cur[i + 1:]]
            cur = [(t.subst(d, m), w) if j < i and not w else (d, w) for j, (d, w) in enumerate(cur)]
    if any(c in (TRUE, FALSE) and (c == TRUE) != v for c, v in cur):
        return True
    cur = list(lits)
    for _ in range(2):
        new = []
        for i, (c, v) in enumerate(cur):
            for j, (p, w) in enumerate(lits):
                if i != j and c != p:
                    c = t.assume(c, p, w)
                    if c[0] == 'not':
                        c, v = c[1], not v
            if c in (TRUE, FALSE):
                if (c == TRUE) != v:
                    return True
            else:
                new.append((c, v))
        values = {}
        for c, v in new + list(lits):
            if values.setdefault(c, v) != v:
                return True
        if new == cur:
            return False
        cur = new
        if len(cur) != len(lits):
            break
    return False


def possible(lits, ints=()):
    """is the conjunction of linear literals satisfiable?"""
    rows = []
    atoms = set()
    for c, v in lits:
        l = linear(c, v)
        if l is None:
            if ints != () and v and c[0] == 'eq' and len(c) == 3 and c[1][0] in ('poly', 'fld', 'in', 'idx', 'size',
                                                                                'call', 'it') and c[2][0] == 'n':
                p = t.sub(c[1], c[2])
                for l in ((p, False), (t.neg(p), False)):
                    r = lin.row(*l)
                    if r is not None:
                        rows.append(r)
            continue
        if l[1] and ints and all(co.denominator == 1 and (not m or len(m) == 1 and m[0][1] == 1 and m[0][0] in ints)
                                 for m, co in t._poly(l[0]).items()):
            # whole numbers: p > 0 is p >= 1
            l = t.sub(l[0], t.num(1)), False
        r = lin.row(*l)
        if r is None:
            continue
        rows.append(r)
    for co, c, s in rows:
        atoms |= set(co)
    done = set()
    for _ in range(3):
        new = atoms - done
        if not new:
            break
        done |= new
        fs = facts(new)
        rows += fs
        for co, c, s in fs:
            atoms |= set(co)
    return lin.feasible(rows)


def cmp_dd(a, b, d):
    ca, cb = bool_conds(a), bool_conds(b)
    only_a = [c for c in ca if c not in cb]
    only_b = [c for c in cb if c not in ca]
    if only_a and only_b and all(linear_cond(c) for c in only_a + only_b) and len(set(ca) | set(cb)) <= 40:
        return _paths(a, b, ca, cb, d, exact=True)
    if len(set(ca) | set(cb)) > 16:
        if a[0] == 'ite' and b[0] == 'ite' and a[1] == b[1]:
            return allof([cmp(a[2], b[2], d), cmp(a[3], b[3], d)], record=True)
        return unk(a, b)
    if only_a and only_b:
        rel = {}
        maybe = []
        for p in only_a:
            for q in only_b:
                r = related(p, q, d)
                rel[p, q] = r
                # a condition and its negated sibling (x < y against y <= x) are handled by ite
                if r.v == UNK:
                    maybe.append((p, q))
        # could the unknown pairs be the same condition?
        if maybe:
            x = a
            usedq = set()
            ok = True
            for p in only_a:
                qs = [q for (p2, q) in maybe if p2 == p and q not in usedq]
                if not qs:
                    continue
                if len(qs) > 1:
                    ok = False
                usedq.add(qs[0])
                x = replace_cond(x, p, qs[0])
            if not ok:
                return unk(a, b)
            if x != b:
                r = cmp(x, b, d)
                if r.v == EQ:
                    return unk(a, b)
                return R(UNK, r.why) if r.v == UNK else unk(a, b)
            return unk(a, b)
        # every pair is certainly different; is the difference explained by them?
        if len(only_a) == 1 and len(only_b) == 1:
            x = replace_cond(a, only_a[0], only_b[0])
            if x == b:
                return rel[only_a[0], only_b[0]]
            y = replace_cond(a, only_a[0], only_b[0], True)
            if y == b:
                return diff(only_a[0], only_b[0], 'condition')
    elif only_a or only_b:
        o = only_a or only_b
        if any(not simple(c) for c in o):
            # an extra search or quantified condition: decided below, on the common part
            lim = [c for c in o if not simple(c)]
        else:
            lim = []
        if any(mentions(c, ('fold', 'fst', 'acc')) for c in o):
            return _paths(a, b, ca, cb, d, weak=True)
    return _paths(a, b, ca, cb, d)


def read_through(x, lits):
    """elements of updated lists, where the conditions tell whether the positions agree"""
    known = dict(lits)
    memo = {}

    def go(y):
        r = memo.get(y)
        if r is None:
            r = t.rebuild(y, go)
            while r[0] == 'idx' and r[1][0] == 'store':
                c = t.eq(r[1][2], r[2])
                v = True if c == TRUE else False if c == FALSE else known.get(c)
                if v is None:
                    break
                r = r[1][3] if v else t.idx(r[1][1], r[2])
            memo[y] = r
        return r
    return go(x)


def only_when_negative(x, y, lits):
    """a small constant against a whole number: equal unless the number is below zero"""
    for n, p in ((x, y), (y, x)):
        if n[0] == 'n' and n[1].denominator == 1 and 0 <= n[1] <= 4 and p[0] != 'n' and t.is_int(p):
            ok = [not consistent(lits, t.lt(n, p), True)]
            for v in range(int(n[1])):
                q = t.eq(p, t.num(v))
                ok.append(q == t.FALSE or not consistent(lits, q, True))
            return all(ok)
    return False


def _paths(a, b, ca, cb, d, weak=False, exact=False):
    budget = [4000]
    res = []

    def go(x, y, lits):
        if x == y or budget[0] <= 0:
            return
        budget[0] -= 1
        if SPECIAL and lits and x[0] != 'ite' and y[0] == 'ite':
            r = independent(x, y, [l for l, v in lits])
            if r is not None:
                res.append((r, lits))
                return
        c = None
        for z in (x, y):
            if z[0] == 'ite':
                if c is None or t.key(z[1]) < t.key(c):
                    c = z[1]
            elif z[0] in t.BOOLTAGS and isboolean(x) and isboolean(y):
                if c is None or t.key(z) < t.key(c):
                    c = z
        if c is None:
            r = cmp(x, y, d)
            if r.v != EQ:
                m = {}
                for l, v in lits:
                    if v and l[0] in ('eq', 'eq2') and len(l) == 3 and t.isconst(l[2]) and l[1][0] != 'poly':
                        m[l[1]] = l[2]
                    elif v and l[0] == 'eq' and l[1][0] == 'poly':
                        p = t.two_equal(l)
                        if p:
                            m[p[0]] = p[1]
                flags = [l[1] for l, v in lits if l[0] == 'eq' and not v and l[2] == t.ZERO and l[1][0] == 'fld']
                if m or flags:
                    x2, y2 = t.subst(x, m), t.subst(y, m)
                    for f in flags:
                        # x == False against not x: the same for a flag
                        x2, y2 = t.assume(x2, f, True), t.assume(y2, f, True)
                    if (x2, y2) != (x, y):
                        r = cmp(x2, y2, d)
            if r.v == DIFF and SPECIAL and lits:
                x2, y2 = read_through(x, lits), read_through(y, lits)
                if (x2, y2) != (x, y):
                    r = OK if x2 == y2 else cmp(x2, y2, d)
            if r.v == UNK and SPECIAL:
                r = independent(x, y, [l for l, v in lits]) or r
            if r.v == DIFF and lits and only_when_negative(x, y, lits):
                r = R(UNK, r.why)
            if r.v != EQ and lits and refuted(lits):
                return
            if r.v != EQ:
                res.append((r, lits))
            return
        for v in (True, False):
            if exact and linear_cond(c):
                p = possible(lits + [(c, v)])
                if p is None:
                    res.append((unk(x, y), lits))
                    continue
                if not p:
                    continue
            if consistent(lits, c, v):
                go(t.assume(x, c, v), t.assume(y, c, v), lits + [(c, v)])
    go(a, b, [])
    if budget[0] <= 0:
        return unk(a, b)
    if not res:
        return OK
    ds = [r for r in res if r[0].v == DIFF]
    if not ds:
        return res[0][0]
    # the shortest definite one
    ds.sort(key=lambda r: len(r[1]))
    for r, lits in ds:
        if weak and any(mentions(c, ('fold', 'fst', 'acc')) for c, v in lits):
            continue
        w = " and ".join(("" if v else "not ") + sh(c, 80) for c, v in lits[:5])
        return R(DIFF, "%s (when %s)" % (r.why, w) if w else r.why, r.pair, set(r.look) | entangled(lits))
    return R(UNK, ds[0][0].why)


def entangled(lits):
    """helpers whose result is tested beside a test of one of their arguments: the two tests
    may exclude each other, which only the helper's body tells"""
    found = {}

    def go(x, out):
        if isinstance(x, tuple):
            if x and x[0] == 'call':
                out.append(x)
            for y in x:
                if isinstance(y, tuple):
                    go(y, out)
    for l, v in lits:
        out = []
        go(l, out)
        for c in out:
            found.setdefault(c, l)
    names = set()
    for c, l in found.items():
        args = [y for y in c[2] if isinstance(y, tuple) and y and y[0] in ('in', 'fld', 'p')] if len(c) > 2 else []
        for m, v in lits:
            if m != l and not t.uses(m, c) and any(t.uses(m, y) for y in args):
                f = c[1].split('#')[0]
                names.add(f[6:] if f.startswith('fails:') else f)
    return names


def replace_cond(x, p, q, negate=False):
    """x with condition p replaced by q"""
    if x[0] == 'ite':
        c = x[1]
        if c == p:
            c = t.not_(q) if negate else q
        return t.ite(c, replace_cond(x[2], p, q, negate), replace_cond(x[3], p, q, negate))
    if x == p:
        return t.not_(q) if negate else q
    return x
