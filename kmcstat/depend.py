"""What a value is computed from.

leaves(x): the inputs, fields and elements (access paths) and the functions a term
mentions.  A function whose result does not depend at all on something that the
reference result depends on is certainly a different function.
"""
import terms as t

_memo = {}
LIBRARY = {n for k in (set, list, dict, str, tuple) for n in dir(k)}


def path(x):
    """access path of an input, a field or an element; None for computed values"""
    out = []
    while True:
        if x[0] == 'fld':
            out.append('.' + str(x[2]))
            x = x[1]
        elif x[0] == 'idx':
            out.append('[%s]' % (x[2][1] if x[2][0] == 'n' else x[2][1] if x[2][0] == 's' else '*'))
            x = x[1]
        elif x[0] == 'in':
            return str(x[1]) + ''.join(reversed(out))
        else:
            return None


def leaves(x):
    if not isinstance(x, tuple) or not x:
        return frozenset()
    r = _memo.get(x)
    if r is not None:
        return r
    out = set()
    if x[0] in ('fld', 'idx', 'in'):
        p = path(x)
        if p is not None:
            out.add(p)
            y = x
            while y[0] in ('fld', 'idx'):
                if y[0] == 'idx':
                    out |= leaves(y[2])
                y = y[1]
        else:
            for y in x[1:]:
                out |= leaves(y)
    elif x[0] == 'size' and path(x[1]) is not None:
        out.add('#' + path(x[1]))
    else:
        if x[0] == 'call' and (x[1][0] == '.' and x[1][1:2] != '_' or x[1].endswith('#$world')) and \
                x[1].split('#')[0].split('.')[-1] not in LIBRARY:
            out.add(x[1] + '()')
        for y in x if isinstance(x[0], tuple) else x[1:]:
            if isinstance(y, tuple):
                out |= leaves(y)
    r = _memo[x] = frozenset(out)
    return r


def covers(p, q):
    """q is p, or p as a whole contains q, as far as can be told"""
    import re
    a = re.findall(r'\.[^.\[]+|\[[^\]]*\]|^[^.\[]+', p)
    b = re.findall(r'\.[^.\[]+|\[[^\]]*\]|^[^.\[]+', q)
    for u, v in zip(a, b):
        if u != v and '[*]' not in (u, v):
            return False
    return True


def independent(x, y, given=()):
    """something that y depends on and x certainly does not: neither x nor the
    conditions given mention it or anything that contains it"""
    a, b = leaves(x), leaves(y)
    if not a < b:
        return None
    other = set(a)
    for g in given:
        other |= {l.lstrip('#') for l in leaves(g)}
    miss = [l for l in sorted(b - a) if not l.startswith('#') and not l.startswith('$') and
            not any(covers(o, l) for o in other)]
    for l in miss:
        return l
    return None
