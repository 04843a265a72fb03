#!/usr/bin/env python3
"""Decide one property of KMCLib from the source in /repo.

usage: check.py PROPERTY          (VERIF_TIER=quick|thorough)

exit 0  every obligation of the property was discharged or left undecided
exit 1  a construct of the current source violates the property
exit 2  the check could not run (the source does not parse, or nothing that the
        property is about exists)"""
import json
import os
import sys
import time

if os.environ.get('PYTHONHASHSEED') != '0':
    # the same order of everything in every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'kmcstat'))
sys.setrecursionlimit(20000)


def findings(prop):
    """known findings of the property: construct key -> text"""
    out = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            line = line.rstrip('\n')
            if not line.startswith('KNOWN-FINDING: '):
                continue
            d = {}
            rest = line[len('KNOWN-FINDING: '):]
            for part in ('property', 'rule', 'at'):
                w, rest = rest.split(' ', 1)
                k, v = w.split('=', 1)
                assert k == part, line
                d[k] = v
            if d['property'] == prop:
                out[(d['rule'], d['at'])] = rest
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    import props
    import rules
    import catalog
    P = catalog.PROPS[prop]
    import cxxast
    try:
        R = props.run(P, tier, rules)
    except cxxast.FrontendError as e:
        print('cannot parse the source: %s' % str(e)[:2000])
        return 2
    known = findings(prop)
    bad = []
    for o in R.obligations:
        if o['verdict'] != 'violated':
            continue
        k = (o['rule'], o['at'])
        if k in known:
            o['verdict'] = 'known-finding'
            print('KNOWN-FINDING: property=%s %s at %s: %s' % (prop, o['rule'], o['at'], known[k]))
        else:
            bad.append(o)
    count = {}
    for o in R.obligations:
        count[o['verdict']] = count.get(o['verdict'], 0) + 1
    rep = os.path.join(HERE, 'evidence', prop + '.report.txt')
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': P.explain(),
            'rules_applied': sorted({o['rule'] for o in R.obligations}),
            'obligations': len(R.obligations),
            'verdicts': count,
            'discharged': count.get('holds', 0),
            'undecided': [dict(at=o['at'], rule=o['rule'], why=o['why'][:300]) for o in R.obligations
                          if o['verdict'] == 'undecided'],
            'functions_analysed': len(R.functions),
            'call_sites': R.calls, 'loops_summarised': R.loops, 'term_nodes': R.terms,
            'functions': sorted(R.functions)[:400],
            'samples': [dict(rule=o['rule'], at=o['at'], verdict=o['verdict'],
                             detail=o.get('detail', '')[:200]) for o in R.obligations[:400]],
        },
        'assumptions': props.ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': [dict(rule=o['rule'], at=o['at'], why=o['why'][:2000]) for o in bad],
    }
    with open(rep, 'w') as f:
        for o in R.obligations:
            f.write('%-13s %s\n    %s\n    %s\n' % (o['verdict'], o['rule'], o['at'], o['why']))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: %d obligations, %s' % (prop, len(R.obligations),
                                      ', '.join('%d %s' % (v, k) for k, v in sorted(count.items()))))
    for o in R.obligations:
        if o['verdict'] == 'undecided':
            print('  undecided: %s at %s: %s' % (o['rule'], o['at'], o['why'][:160]))
    if bad:
        for o in bad:
            print('  violated: %s\n    at %s\n    %s' % (o['rule'], o['at'], o['why'][:1200]))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    if R.obligations and not any(o['verdict'] in ('holds', 'known-finding', 'undecided') for o in R.obligations):
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
