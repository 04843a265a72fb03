"""Structural rules over the whole program.

A rule is called with the collector R, the function returning the analysed
program (serial or MPI) and its arguments from the catalog."""
import engine
import evalr
import terms as t
from anchors import OPAQUE


def subterms(x):
    seen = set()
    todo = [x]
    while todo:
        y = todo.pop()
        if not isinstance(y, tuple) or y in seen:
            continue
        seen.add(y)
        yield y
        todo.extend(z for z in y if isinstance(z, tuple))


def at_line(fn, line=None):
    f = fn.file or '?'
    if f.startswith(engine.REPO):
        f = f[len(engine.REPO) + 1:]
    return '%s (%s:%s)' % (fn.qname, f, line or fn.line)


def logged(W, fn, opaque, **kw):
    """evaluate fn and return every call that was kept, with its argument values"""
    engine.reset()
    prog = W.cxx if fn.lang == 'c++' else W.py
    ev = evalr.Ev(prog, fn.lang, opaque=set(opaque) - {fn.qname}, **kw)
    ev.log = []
    engine.alarm(engine.LIMIT)
    try:
        out, thr = ev.run_fn(fn)
    finally:
        engine.alarm(0)
    return ev, out, thr


PROBLEMS = (engine.Timeout, engine.TooBig, engine.Unsupported, RecursionError)


def fields_of(x):
    return {y[2] for y in subterms(x) if y and y[0] == 'fld'}


def roots_of(x):
    return {y[1] for y in subterms(x) if y and y[0] == 'in'}


# ---------------------------------------------------------------- multiplicity
def multiplicity_flow(R, world):
    """every site made available by the matcher carries the multiplicity of its match"""
    W = world()
    rule = 'flow:multiplicity'
    fn = W.find_cxx('Matcher', 'updateProcesses')
    if fn is None:
        R.add(rule, 'Matcher::updateProcesses', 'undecided', 'no such function')
        return
    R.functions.add(fn.qname)
    try:
        ev, out, thr = logged(W, fn, OPAQUE)
    except PROBLEMS as e:
        R.add(rule, 'Matcher::updateProcesses', 'undecided', str(e))
        return
    seen = {}
    for name, recv, args, g, line in ev.log:
        if name != 'addSite':
            continue
        R.calls += 1
        ps = sorted(r for r in roots_of(args[0]) if r.startswith('p') and r[1:].isdigit())
        which = {'p0': 'remove', 'p1': 'update', 'p2': 'add'}.get(ps[0] if len(ps) == 1 else '', 'other')
        k = 'Matcher::updateProcesses:%s-tasks' % which
        ok = len(args) > 2 and 'multiplicity' in fields_of(args[2])
        seen[k] = seen.get(k, True) and ok
        if not ok:
            seen[k + '#line'] = line
    if not seen:
        R.add(rule, 'Matcher::updateProcesses', 'undecided', 'the sites are not added here')
    for k, ok in sorted(seen.items()):
        if k.endswith('#line'):
            continue
        R.add(rule, k, 'holds' if ok else 'violated',
              '' if ok else '%s: addSite is called without the multiplicity of the match'
              % at_line(fn, seen.get(k + '#line')), at_line(fn))


# ---------------------------------------------------------------- cache key
def cache_key_inputs(R, world):
    """what a custom rate may depend on has to be part of the key of the cache"""
    W = world()
    rule = 'flow:cache-key'
    f1 = W.find_cxx(None, 'hashCustomRateInput')
    f2 = W.find_cxx('Matcher', 'updateSingleRate')
    if f1 is None or f2 is None:
        R.add(rule, 'hashCustomRateInput', 'undecided', 'no such function')
        return
    try:
        ev, out, thr = logged(W, f1, set(OPAQUE) - {'hashCustomRateInput'})
        key = set()
        for name, recv, args, g, line in ev.log:
            for a in args:
                key |= fields_of(a)
        key |= fields_of(out.m.get('$ret', t.NONE))
        R.functions.add(f1.qname)
        ev, out, thr = logged(W, f2, OPAQUE)
        used = set()
        n = 0
        for name, recv, args, g, line in ev.log:
            if name.startswith('backendRateCallback'):
                n += 1
                for a in args:
                    used |= fields_of(a)
        R.functions.add(f2.qname)
    except PROBLEMS as e:
        R.add(rule, 'hashCustomRateInput', 'undecided', str(e))
        return
    if not n:
        R.add(rule, 'Matcher::updateSingleRate', 'undecided', 'the rate function is not called here')
        return
    R.calls += n
    for what, given, covered in (
            ('process', ('process_number_', 'rate_', 'match_list_', 'update_types'), ('process_number_',)),
            ('occupation', ('elements_', 'types_', 'match_types'), ('match_types', 'types_', 'elements_')),
            ('geometry', ('x', 'y', 'z'), ('x', 'y', 'z')),
    ):
        if not used & set(given):
            continue
        ok = bool(key & set(covered))
        R.add(rule, 'hashCustomRateInput:' + what, 'holds' if ok else 'violated',
              '' if ok else '%s: the key does not depend on the %s that the rate function is given'
              % (at_line(f1), what), '%s, %s' % (at_line(f1), at_line(f2)))


# ---------------------------------------------------------------- raw memory
def ownership(R, world):
    """a class that owns a raw array allocates it in every constructor, copies it
    deeply, keeps it valid under assignment and releases it exactly once"""
    W = world()
    rule = 'typestate:raw-array'
    owners = dict(evalr.BUFFERS)
    if not owners:
        R.add(rule, 'TypeBucket', 'undecided', 'no class owns a raw array')
    evalr.BUFFERS.clear()
    try:
        for cls, (sz, raw) in sorted(owners.items()):
            fns = {f.sig + f.name: f for f in W.cxx.fns.values()
                   if f.cls == cls and (f.isctor or f.name in ('operator=', '~' + cls))}
            kinds = set()
            for f in sorted(fns.values(), key=lambda f: (f.name, f.sig)):
                kind = ('dtor' if f.name.startswith('~') else 'assign' if f.name == 'operator=' else
                        'copy' if len(f.params) == 1 and cls in f.params[0].type else 'ctor%d' % len(f.params))
                kinds.add(kind)
                at = '%s:%s' % (cls, kind)
                if not f.body or f.implicit:
                    if kind in ('copy', 'assign', 'dtor'):
                        R.add(rule, at, 'violated', '%s has a raw array but only an implicit %s' % (cls, kind))
                    continue
                R.functions.add(f.qname)
                try:
                    ev, out, thr = logged(W, f, ())
                    bad, unk = judge_owner(ev, out, kind, sz, raw)
                except PROBLEMS as e:
                    bad, unk = '', str(e)
                R.add(rule, at, 'violated' if bad else 'undecided' if unk else 'holds',
                      '%s: %s' % (at_line(f), bad) if bad else unk, at_line(f))
            for kind in ('copy', 'assign', 'dtor'):
                if kinds and kind not in kinds:
                    R.add(rule, '%s:%s' % (cls, kind), 'violated',
                          '%s owns a raw array but declares no %s' % (cls, kind))
    finally:
        evalr.BUFFERS.update(owners)


ALLOC = ('malloc', 'calloc', 'realloc')


def bytes_of(c):
    """size of an allocation in bytes"""
    a = c[2]
    if c[1] == 'malloc':
        return a[0]
    if c[1] == 'calloc':
        return t.mul(a[0], a[1])
    return a[1]


def judge_owner(ev, out, kind, sz, raw):
    this = T_this = t.T('in', 'this', '')
    frees = [(a, g) for n, r, a, g, l in ev.log if n == 'free']
    if kind == 'dtor':
        if not frees:
            return 'the array is not released', ''
        if len(frees) > 1:
            return '', 'several release calls'
        a, g = frees[0]
        if raw not in fields_of(a[0]):
            return 'something else than the array is released', ''
        if g != t.TRUE and raw not in fields_of(g):
            return 'the array is released only under a condition', ''
        return '', ''
    if out is None:
        return '', 'no result'
    me = out.m.get('this', this)
    ptr, size = t.fld(me, raw), t.fld(me, sz)
    return judge_state(ev, ptr, size, kind, sz, raw, frees)


def judge_state(ev, ptr, size, kind, sz, raw, frees):
    if ptr[0] == 'ite':
        for p, s in ((ptr[2], size[2] if size[0] == 'ite' and size[1] == ptr[1] else size),
                     (ptr[3], size[3] if size[0] == 'ite' and size[1] == ptr[1] else size)):
            b, u = judge_state(ev, p, s, kind, sz, raw, frees)
            if b or u:
                return b, u
        return '', ''
    other = t.T('in', 'p0', '')
    if ptr[0] == 'fld' and ptr[2] == raw:
        if ptr[1][0] == 'in' and ptr[1][1] == 'p0':
            return 'the array is shared with the source object', ''
        if kind == 'assign' and size[0] == 'fld' and size[1] == ptr[1]:
            return '', ''            # nothing changed (self assignment)
        if kind != 'assign':
            return 'the array pointer is not initialised', ''
        return 'the length changes but the array is kept', ''
    if ptr == t.NONE or ptr == t.ZERO:
        return ('', '') if size == t.ZERO else ('the length is not zero without an array', '')
    if not (ptr[0] == 'call' and ptr[1] in ALLOC):
        return '', 'the array is not allocated in a known way'
    need = t.mul(t.num(4), size)
    if bytes_of(ptr) != need:
        return 'the array is allocated with %s bytes for %s elements' % (t.show(bytes_of(ptr)), t.show(size)), ''
    if ptr[1] == 'realloc' and kind != 'assign':
        return 'a new object reallocates', ''
    if kind == 'assign' and ptr[1] != 'realloc' and not any(raw in fields_of(a[0]) for a, g in frees):
        return 'the old array is not released', ''
    fills = [(n, a) for n, r, a, g, l in ev.log if n in ('memcpy', 'memmove', 'memset') and a and a[0] == ptr]
    if kind.startswith('ctor'):
        if ptr[1] == 'calloc':
            return '', ''
        for n, a in fills:
            if n == 'memset':
                return ('', '') if a[1] == t.ZERO and a[2] == need else ('the array is not zeroed completely', '')
        return '', 'the array is not zeroed in a known way'
    for n, a in fills:
        if n != 'memset':
            src = a[1]
            ok = src[0] == 'fld' and src[2] == raw and src[1][0] == 'in' and src[1][1] == 'p0'
            return ('', '') if ok and a[2] == need else ('the contents are not copied completely', '')
    return '', 'the contents are not copied in a known way'


from pyrules import (determinism, cxx_collectives, collective_calls, master_writes, shared_state, scratch,  # noqa
                     self_pointers, int_products, stale_memo)
from liferules import borrowed, dangling, members, unset_cxx, unresolved, interface  # noqa
