"""The properties, as sets of obligations.

An obligation is one function of the tree compared with its reference model
(`M(model, keys...)`), or a structural rule over the whole program (`R(name)`)."""
import cxxast
import engine
from anchors import OPAQUE

ASSUMPTIONS = [
    'floating point numbers are treated as real numbers: rounding is not modelled',
    'memory is not exhausted, and library code (C++ standard library, numpy, MPI, SWIG) behaves as documented',
    'distinct parameters of a function do not alias',
]


class M(object):
    def __init__(self, model, *keys, **kw):
        self.model = model
        self.keys = keys
        self.mpi = kw.get('mpi', (False,))


class Rl(object):
    def __init__(self, name, *args):
        self.name = name
        self.args = args


class Prop(object):
    def __init__(self, id, title, statement, over, quant, why, files, mechanism, items, note, observe=()):
        self.id = id
        self.title = title
        self.statement = statement
        self.over = over
        self.quant = quant
        self.why = why
        self.files = files
        self.mechanism = mechanism
        self.items = items
        self.note = note
        self.observe = observe

    def explain(self):
        return self.note


class Run(object):
    def __init__(self):
        self.obligations = []
        self.functions = set()
        self.calls = self.loops = self.terms = 0
        self.done = set()

    def add(self, rule, at, verdict, why='', detail=''):
        self.obligations.append(dict(rule=rule, at=at, verdict=verdict, why=why, detail=detail))


WORLDS = {}


def world(mpi=False):
    if mpi not in WORLDS:
        WORLDS[mpi] = engine.World(mpi=mpi)
    return WORLDS[mpi]


def where(W, fn):
    f = fn.file or '?'
    if f.startswith(engine.REPO):
        f = f[len(engine.REPO) + 1:]
    return '%s (%s:%s)' % (fn.qname, f, fn.line)


def run_models(R, item, tier):
    for mpi in (item.mpi if tier == 'quick' else BOTH):
        W = world(mpi)
        Mo = W.model(item.model)
        hit = set()
        groups = {}
        for b in engine.bindings(W, Mo):
            key = b[0]
            if item.keys and not any(key == k or k.endswith('*') and key.startswith(k[:-1]) for k in item.keys):
                continue
            hit.add(key)
            if (item.model, key, mpi) in R.done:
                continue        # selected by an earlier item already
            code = getattr(b[1], 'code', None)
            g = (code and code[1].get('alt')) or key
            groups.setdefault(g, []).append(b)
        for k in item.keys:
            if not any(key == k or k.endswith('*') and key.startswith(k[:-1]) for key in hit):
                if not any(getattr(f, 'code', None) and 'mpi' in f.code[1] for kk, f in Mo.own.items() if kk == k):
                    raise KeyError('%s: no reference %s' % (item.model, k))
        rule = 'model:%s' % item.model + (':mpi' if mpi else '')
        R.done.update((item.model, k, mpi) for k in hit)
        for g, bs in groups.items():
            fns = engine.targets(W, bs[0])
            if not fns:
                R.add(rule, g, 'undecided', 'no such function in the tree')
                continue
            for fn in fns:
                best = None
                for b in bs:
                    r = engine.check(W, fn, b[1], Mo, OPAQUE)
                    if best is None or engine.RANK[r.status] < engine.RANK[best.status]:
                        best = r
                    if best.status == 'eq':
                        break
                R.functions.add(fn.qname)
                for q in best.info.get('inlined', ()):
                    R.functions.add(q)
                R.calls += best.info.get('calls', 0)
                R.loops += best.info.get('loops', 0)
                R.terms += best.info.get('terms', 0)
                v = {'eq': 'holds', 'diff': 'violated', 'unk': 'undecided'}[best.status]
                outs = ', '.join(k for k, x in best.parts)
                R.add(rule, g if len(fns) == 1 else '%s<%s>' % (g, fn.sig.replace(' ', '')), v,
                      '' if v == 'holds' else '%s differs from its reference: %s' % (where(W, fn), best.why),
                      '%s: outputs %s' % (where(W, fn), outs))


def run(P, tier, rules):
    R = Run()
    for it in P.items:
        if isinstance(it, M):
            run_models(R, it, tier)
        else:
            rule = getattr(rules, it.name)
            try:
                rule(R, world, *it.args)
            except cxxast.FrontendError:
                raise
            except Exception as e:      # a construct the rule has no answer for: undecided
                R.add('rule:%s' % it.name, 'rule', 'undecided', '%s: %s' % (type(e).__name__, e))
    return R


BOTH = (False, True)
