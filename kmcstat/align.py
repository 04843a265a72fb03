"""Alignment of two terms that are not equal: the places where they differ.

holes(a, b) descends both terms in parallel and returns the pairs of subterms at
which they part, or None when the shapes cannot be aligned.  When everything
outside one single pair coincides and the members of that pair are certainly
different values, the terms are certainly different as well: there is nothing left
that could compensate.
"""
import terms as t
from terms import T

BIND = ('ex', 'fst', 'sum', 'map', 'flat')
LIMIT = 24


class Budget(Exception):
    pass


def emptied(x, s):
    """x, knowing that lists of length s are empty"""
    memo = {}

    def go(y):
        r = memo.get(y)
        if r is None:
            if y[0] == 'flat' and t.size(y) == s:
                r = T('empty')
            else:
                r = t.rebuild(y, go)
            memo[y] = r
        return r
    return go(x)


class Align(object):
    def __init__(self, budget=3000):
        self.memo = {}
        self.left = budget
        self.lits = ()              # the conditions on the way that only one side asks

    def holes(self, a, b, lits=()):
        if a == b:
            return frozenset()
        k = (a, b, self.lits)
        if k in self.memo:
            return self.memo[k]
        self.left -= 1
        if self.left < 0:
            raise Budget()
        self.memo[k] = frozenset([(a, b)])        # recursion guard
        r = self._holes(a, b)
        if r is None or len(r) > LIMIT:
            r = frozenset([(a, b)])
        if self.lits and r == frozenset([(a, b)]):
            import compare
            if compare.refuted(list(self.lits)):
                r = frozenset()
        self.memo[k] = r
        return r

    def many(self, xs, ys):
        out = set()
        for x, y in zip(xs, ys):
            if x == y:
                continue
            if not (isinstance(x, tuple) and isinstance(y, tuple)):
                return None
            r = self.holes(x, y)
            out |= r
        return frozenset(out)

    def _holes(self, a, b):
        ka, kb = a[0], b[0]
        if ka == 'ite' or kb == 'ite':
            return self.choice(a, b)
        if ka == 'poly' or kb == 'poly':
            return self.poly(a, b)
        if ka == 'upd' or kb == 'upd':
            ba = a[1] if ka == 'upd' else a
            bb = b[1] if kb == 'upd' else b
            fa = dict(a[2]) if ka == 'upd' else {}
            fb = dict(b[2]) if kb == 'upd' else {}
            if ba == bb:
                fs = sorted(set(fa) | set(fb))
                return self.many([fa.get(f) or t.fld(ba, f) for f in fs], [fb.get(f) or t.fld(bb, f) for f in fs])
            if ka == kb and set(fa) == set(fb):
                fs = sorted(fa)
                return self.many([ba] + [fa[f] for f in fs], [bb] + [fb[f] for f in fs])
            return None
        if ka != kb or len(a) != len(b):
            return None
        if ka in BIND:
            x, y = a[3], b[3]
            if a[2] != b[2]:
                h = 'h%s' % max(str(a[2]), str(b[2]))
                x = t.subst(x, {T('it', a[2]): T('it', h)})
                y = t.subst(y, {T('it', b[2]): T('it', h)})
            return self.many((a[1], x), (b[1], y))
        if ka == 'fold':
            if len(a[3]) != len(b[3]):
                return None
            xs, ys = a[4], b[4]
            if a[2] != b[2]:
                h = 'h%s' % max(str(a[2]), str(b[2]))

                def lab(f):
                    m = {T('it', f[2]): T('it', h)}
                    for i in range(len(f[3])):
                        m[T('acc', f[2], i)] = T('acc', h, i)
                    return [t.subst(z, m) for z in f[4]]
                xs, ys = lab(a), lab(b)
            return self.many([a[1]] + list(a[3]) + list(xs), [b[1]] + list(b[3]) + list(ys))
        if ka == 'call':
            if a[1] != b[1] or len(a[2]) != len(b[2]):
                return None
            if a[3:] != b[3:]:
                return None
            if a[1] == 'setslice' and a[2][0] == b[2][0] and a[2][1:-1] != b[2][1:-1]:
                # another range is overwritten
                return self.many(a[2][1:-1], b[2][1:-1])
            return self.many(a[2], b[2])
        if ka in ('list', 'tuple', 'max', 'min'):
            if len(a[1]) != len(b[1]):
                return None
            return self.many(a[1], b[1])
        if ka == 'fld':
            if a[2] != b[2]:
                return None
            return self.holes(a[1], b[1])
        if ka in ('in', 'n', 's', 'b', 'it', 'acc', 'enum', 'glob'):
            return None
        for x, y in zip(a[1:], b[1:]):
            if isinstance(x, tuple) != isinstance(y, tuple):
                return None
            if not isinstance(x, tuple) and x != y:
                return None
            if isinstance(x, tuple) and not (t._is_term(x) and t._is_term(y)) and x != y:
                return None
        return self.many([x for x in a[1:] if isinstance(x, tuple)], [y for y in b[1:] if isinstance(y, tuple)])

    def choice(self, a, b):
        import compare
        if a[0] == b[0] == 'ite' and a[1] == b[1]:
            return self.many(a[2:], b[2:])
        ca, cb = compare.bool_conds(a), compare.bool_conds(b)
        oa = [c for c in ca if c not in cb]
        ob = [c for c in cb if c not in ca]
        if len(oa) == len(ob) and 0 < len(oa) <= 3:
            # the conditions that differ, one for one
            x = a
            used = []
            hs = frozenset()
            for p in oa:
                best = None
                for q in ob:
                    if q in used or q[0] != p[0]:
                        continue
                    r = self.holes(p, q)
                    if best is None or len(r) < len(best[0]):
                        best = (r, q)
                if best is None:
                    break
                used.append(best[1])
                hs |= best[0]
                x = compare.replace_cond(x, p, best[1])
            else:
                if x == b:
                    return hs
                if len(oa) == 1:
                    r = self.holes(x, b) if x != a else None
                    if r is not None and (x, b) not in r:
                        return hs | r
        # the highest condition of the two
        c = None
        for z in (a, b):
            if z[0] == 'ite' and (c is None or t.key(z[1]) < t.key(c)):
                c = z[1]
        xa, ya = t.assume(a, c, True), t.assume(b, c, True)
        xb, yb = t.assume(a, c, False), t.assume(b, c, False)
        if (xa, ya) == (a, b) or (xb, yb) == (a, b):
            return None
        if c[0] == 'eq' and c[1][0] == 'sum' and c[2] == t.ZERO:
            xa, ya = emptied(xa, c[1]), emptied(ya, c[1])
        old = self.lits
        out = frozenset()
        for x, y, v in ((xa, ya, True), (xb, yb, False)):
            self.lits = old + ((c, v),)
            try:
                out |= self.holes(x, y)
            finally:
                self.lits = old
        return out

    def poly(self, a, b):
        pa, pb = t._poly(a), t._poly(b)
        oa = {m: c for m, c in pa.items() if pb.get(m) != c}
        ob = {m: c for m, c in pb.items() if pa.get(m) != c}
        if len(oa) == 1 and len(ob) == 1:
            (m1, c1), (m2, c2) = list(oa.items())[0], list(ob.items())[0]
            if c1 == c2 and m1 and m2:
                s1 = [x for x in m1 if x not in m2]
                s2 = [x for x in m2 if x not in m1]
                if len(s1) == len(s2) == 1 and s1[0][1] == s2[0][1]:
                    return self.holes(s1[0][0], s2[0][0])
        return frozenset([(t._unpoly(oa), t._unpoly(ob))])


def holes(a, b, budget=3000):
    al = Align(budget)
    try:
        return al.holes(a, b)
    except (Budget, RecursionError):
        return None
