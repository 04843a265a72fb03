"""Specialisation of value terms: every list that the compared functions are given
has the same small number of elements.

Loops over such lists are unrolled; the elements stay symbolic.  Two terms that are
built from differently written loops often have the same or clearly different normal
forms once the number of elements is fixed: this is how a difference between two loops
that cannot be aligned is made certain.  Never used to establish that terms agree.
"""
import time

import terms as t
from terms import T, TRUE, FALSE


class TooLarge(Exception):
    pass


def input_list(v):
    """a list the function is given (not one it builds)"""
    while True:
        if v[0] == 'fld':
            v = v[1]
        elif v[0] == 'idx':
            if t.uses_acc(v[2]):
                return False
            v = v[1]
        else:
            return v[0] in ('in', 'call') and not t.uses_acc(v)


def bounds(x, out, seen):
    """the given quantities that tell how often a loop runs"""
    if not isinstance(x, tuple) or x in seen:
        return
    seen.add(x)
    if x and x[0] in t.BINDERS and len(x) > 3:
        n = x[3] if x[0] == 'blit' else x[1]
        if isinstance(n, tuple) and n and isinstance(n[0], str):
            for m in t._poly(n):
                for a, p in m:
                    if a[0] in ('in', 'fld', 'idx') and input_list(a) or a[0] == 'call' and a[1][0] == '.' and \
                            input_list(a):
                        out.add(a)
    for y in x:
        if isinstance(y, tuple):
            bounds(y, out, seen)


def nested(v):
    """an element of a list"""
    while v[0] == 'fld':
        v = v[1]
    return v[0] == 'idx'


def specialise(x, n, limit=60000, fixed=(), end=None, m=None, inner=None, extra=()):
    count = [0]
    if end is None:
        end = time.process_time() + 8
    if fixed:
        x = t.subst(x, {a: t.num(m or n) for a in fixed})
    for _ in range(6):
        memo = {}

        def go(y):
            r = memo.get(y)
            if r is not None:
                return r
            count[0] += 1
            if count[0] > limit or time.process_time() > end:
                raise TooLarge()
            r = t.rebuild(y, go)
            if r[0] == 'size' and input_list(r[1]):
                r = t.num(inner or n) if nested(r[1]) else t.num(extra[r[1]] if r[1] in extra else n)
            elif r[0] == 'slice' and r[2][0] != 'none':
                r = t.slice_(r[1], r[2], r[3])
            elif r[0] == 'call' and r[1] in ('list', 'tuple') and len(r[2]) == 1 and r[2][0][0] in ('list', 'empty'):
                r = r[2][0]
            elif r[0] == 'idx' and r[1][0] == 'store' and not t.uses_acc(r[2]) and not t.uses_acc(r[1][2]):
                r = read(r[1], r[2])
            elif r[0] in ('resize', 'blit', 'over'):
                e = elements(r, n, extra, inner)
                if e is not None:
                    r = T('list', tuple(e)) if e else T('empty')
            elif r[0] == 'fst' and r[1][0] == 'call' and r[1][1] == 'inf':
                r = open_search(r)
            elif r[0] in ('fst', 'sum', 'map', 'flat', 'fill') and t.few(r[1]) is not None:
                r = unroll(r)
            memo[y] = r
            return r
        y = go(x)
        if y == x:
            return x
        x = y
    return x


def whole(x):
    return int(x[1]) if x[0] == 'n' and x[1].denominator == 1 and 0 <= x[1] <= 8 else None


def elements(v, n, extra, inner):
    """the elements of a list whose length is known now"""
    k = v[0]
    if k in ('list', 'empty'):
        return list(v[1]) if k == 'list' else []
    if input_list(v):
        m = (inner or n) if nested(v) else extra[v] if v in extra else n
        return [t.idx(v, t.num(i)) for i in range(m)]
    if k in ('map', 'fill'):
        m = whole(v[1])
        if m is None:
            return None
        return [t.subst(v[3], {T('it', v[2]): t.num(i)}) if k == 'map' else v[2] for i in range(m)]
    if k not in ('resize', 'blit', 'over', 'store'):
        return None
    e = elements(v[1], n, extra, inner)
    if e is None:
        return None
    if k == 'resize':
        m = whole(v[2])
        return None if m is None else e[:m] + [v[3]] * (m - len(e))
    if k == 'store':
        i, xs = whole(v[2]), [v[3]]
    elif k == 'over':
        i, xs = whole(v[2]), elements(v[3], n, extra, inner)
    else:
        m, i = whole(v[3]), whole(v[4])
        xs = None if m is None else [t.subst(v[5], {T('it', v[2]): t.num(j)}) for j in range(m)]
    if i is None or xs is None or i + len(xs) > len(e):
        return None
    return e[:i] + xs + e[i + len(xs):]


def asked_sizes(x, out, seen):
    """the lengths that elements of lists are required to have"""
    if not isinstance(x, tuple) or x in seen:
        return
    seen.add(x)
    if x and x[0] == 'eq' and len(x) == 3 and x[1][0] == 'size' and input_list(x[1][1]) and nested(x[1][1]):
        c = whole(x[2])
        if c is not None:
            out.add(c)
    for y in x:
        if isinstance(y, tuple):
            asked_sizes(y, out, seen)


def read(v, i):
    """element of an updated list, by cases"""
    if v[0] == 'store':
        return t.ite(t.eq(v[2], i), v[3], read(v[1], i))
    return t.idx(v, i)


def own_lists(a, b):
    """given lists that a uses and b does not mention at all"""
    import depend
    found = set()
    seen = set()

    def go(y):
        if not isinstance(y, tuple) or y in seen:
            return
        seen.add(y)
        if y and y[0] == 'size' and input_list(y[1]) and not nested(y[1]) and depend.path(y[1]):
            found.add(y[1])
        for z in y:
            if isinstance(z, tuple):
                go(z)
    go(a)
    if a[0] == 'upd' and b[0] == 'upd' and a[1] == b[1]:
        other = set()
        for f, v in b[2]:
            other |= depend.leaves(v)
    else:
        other = depend.leaves(b)
    other = {l.lstrip('#') for l in other}
    return {v for v in found if not any(depend.covers(o, depend.path(v)) for o in other)}


def open_search(r):
    """a search without a bound that certainly ends within the first few positions"""
    it = T('it', r[2])
    xs = []
    for i in range(6):
        c = t.subst(r[3], {it: t.num(i)})
        xs.append(c)
        if c == TRUE:
            out = t.num(i)
            for j in reversed(range(i)):
                out = t.ite(xs[j], t.num(j), out)
            return out
    return r


def unroll(r):
    k = t.few(r[1])
    if r[0] == 'fill':
        return T('list', tuple(r[2] for i in range(k))) if k else T('empty')
    it = T('it', r[2])
    xs = [t.subst(r[3], {it: t.num(i)}) for i in range(k)]
    if r[0] == 'fst':
        out = t.num(k)
        for i in reversed(range(k)):
            out = t.ite(xs[i], t.num(i), out)
        return out
    if r[0] == 'sum':
        out = t.ZERO
        for x in xs:
            out = t.add(out, x)
        return out
    if r[0] == 'map':
        return T('list', tuple(xs)) if k else T('empty')
    out = T('empty')
    for x in xs:
        out = t.cat(out, x)
    return out
