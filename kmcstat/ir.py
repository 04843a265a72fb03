"""Intermediate representation shared by the C++ and the Python front end."""


class N(object):
    __slots__ = ("k", "d", "line")

    def __init__(self, k, line=None, **d):
        self.k = k
        self.d = d
        self.line = line

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def get(self, n, default=None):
        return self.d.get(n, default)

    def __repr__(self):
        return "%s(%s)" % (self.k, ", ".join("%s=%r" % kv for kv in self.d.items()))


class Fn(object):
    """A function: params is a list of Param."""

    def __init__(self, name, cls=None, params=(), body=None, file=None, line=None, lang='c++', **kw):
        self.name = name          # unqualified
        self.cls = cls
        self.params = list(params)
        self.body = body
        self.file = file
        self.line = line
        self.lang = lang
        self.virtual = kw.get('virtual', False)
        self.const = kw.get('const', False)
        self.static = kw.get('static', False)
        self.isctor = kw.get('isctor', False)
        self.inits = kw.get('inits', [])
        self.ret = kw.get('ret', '')
        self.sig = kw.get('sig', '')
        self.key = kw.get('key')
        self.implicit = kw.get('implicit', False)
        self.decorators = kw.get('decorators', [])
        self.private = kw.get('private', False)

    @property
    def qname(self):
        return (self.cls + "::" if self.lang == 'c++' else self.cls + ".") + self.name if self.cls else self.name

    def __repr__(self):
        return "<Fn %s>" % self.qname


class Param(object):
    def __init__(self, id, name, type, default=None, ref=False, star=None):
        self.id = id
        self.name = name
        self.type = type
        self.default = default
        self.ref = ref
        self.star = star


class Cls(object):
    def __init__(self, name, file=None, line=None):
        self.name = name
        self.bases = []
        self.fields = []      # (name, type, static)
        self.methods = []     # Fn
        self.file = file
        self.line = line
        self.usercopy = False
        self.consts = {}
        self.given = set()    # members with an initialiser in the class


def walk(n, f):
    """Pre-order walk over IR nodes."""
    if isinstance(n, N):
        f(n)
        for v in n.d.values():
            walk(v, f)
    elif isinstance(n, (list, tuple)):
        for x in n:
            walk(x, f)


def find(n, pred):
    out = []
    walk(n, lambda x: out.append(x) if pred(x) else None)
    return out
