"""Feasibility of a conjunction of linear conditions (Fourier-Motzkin elimination).

A condition is (p, strict): p >= 0, or p > 0.  Over whole numbers p > 0 is p - 1 >= 0.
"""
from fractions import Fraction
import terms as t

LIMIT = 400


def row(p, strict):
    """(coefs, const, strict); None when p is not linear"""
    co, c = {}, Fraction(0)
    if p[0] == 'ite':
        return None
    for m, k in t._poly(p).items():
        if not m:
            c += k
        elif len(m) == 1 and m[0][1] == 1:
            co[m[0][0]] = Fraction(k)
        else:
            # a product of unknowns: an unknown of its own
            co[m] = Fraction(k)
    if strict and t.is_int(p) and all(k.denominator == 1 for k in co.values()):
        c = c - 1 if c.denominator == 1 else Fraction((c - 1).__ceil__())
        strict = False
    elif t.is_int(p) and all(k.denominator == 1 for k in co.values()):
        c = Fraction(c.__floor__())
    return co, c, strict


def feasible(rows):
    """False when the conjunction has no solution, True when it has one over the
    rationals, None when it grew too large"""
    rows = [(dict(co), c, s) for co, c, s in rows]
    while True:
        live = []
        seen = set()
        for co, c, s in rows:
            co = {v: k for v, k in co.items() if k}
            if not co:
                if c < 0 or (s and c == 0):
                    return False
                continue
            n = min(abs(k) for k in co.values())
            co = {v: k / n for v, k in co.items()}
            c = c / n
            kk = (frozenset(co.items()), c, s)
            if kk in seen:
                continue
            seen.add(kk)
            live.append((co, c, s))
        if not live:
            return True
        if len(live) > LIMIT:
            return None
        count = {}
        for co, c, s in live:
            for v, k in co.items():
                a = count.setdefault(v, [0, 0])
                a[k > 0] += 1
        v = min(count, key=lambda u: (count[u][0] * count[u][1] - sum(count[u]), t.key(u)))
        lo = [r for r in live if r[0].get(v, 0) > 0]
        hi = [r for r in live if r[0].get(v, 0) < 0]
        rows = [r for r in live if not r[0].get(v)]
        for a in lo:
            for b in hi:
                ka, kb = a[0][v], -b[0][v]
                co = {}
                for x, k in a[0].items():
                    co[x] = co.get(x, 0) + k * kb
                for x, k in b[0].items():
                    co[x] = co.get(x, 0) + k * ka
                co.pop(v, None)
                rows.append((co, a[1] * kb + b[1] * ka, a[2] or b[2]))
