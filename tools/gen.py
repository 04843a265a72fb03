#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from kmcstat/catalog.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'kmcstat'))
import catalog
import skipped

TECH = 'static value-graph construction (clang/Python AST -> gated SSA terms), normal-form comparison with a ' \
       'reference model; structural rules over the program graph'

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for id, P in list(sorted(catalog.PROPS.items())) + list(sorted(skipped.SKIPPED.items())):
        d = dict(id=id, title=P.title, statement=P.statement,
                 quantifier=dict(over=P.over, text=P.quant), why_tests_cant=P.why,
                 anchors=dict(files=P.files, mechanism=[dict(name=a, where=b) for a, b in P.mechanism],
                              observe_at=list(P.observe), hook_needed=None))
        assert len(P.title) <= 80, id
        assert P.statement.count('. ') <= 2, id
        f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         checks=[dict(property=id, quick_cmd='python3 check.py %s' % id,
                      thorough_cmd='python3 check.py %s --tier thorough' % id,
                      evidence_file='evidence/%s.json' % id,
                      technique=getattr(P, 'technique', None) or TECH, level='other', level_note=P.note)
                 for id, P in sorted(catalog.PROPS.items())],
         not_applicable=[dict(property=id, reason=P.note) for id, P in sorted(skipped.SKIPPED.items())],
         notes='See DESIGN.md. All checks read the sources under /repo on every run; nothing of KMCLib is executed.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')


def section(text, mark, end, body):
    a = text.index(mark) + len(mark)
    return text[:a] + '\n\n' + body + '\n' + text[text.index(end):]


lines = []
for id, P in sorted(catalog.PROPS.items()):
    its = []
    for i in P.items:
        if hasattr(i, 'keys'):
            its.append('model `%s` (%s)%s' % (i.model, ', '.join('`%s`' % k for k in i.keys) or 'all functions',
                                              ', serial and MPI build' if True in i.mpi else ''))
        else:
            its.append('rule `%s`' % i.name)
    lines.append('**%s. %s.** Decided by: %s.\n*Oracle:* %s *Bounds:* none, the argument is for %s. *Beyond tests:* '
                 '%s\n' % (id, P.title, '; '.join(its), P.note, P.quant, P.why))
p = os.path.join(HERE, 'DESIGN.md')
with open(p) as f:
    text = f.read()
text = section(text, '<!-- properties -->', '<!-- end -->', '\n'.join(lines))
caught = {}
with open(os.path.join(HERE, 'tools', 'caught.txt')) as f:
    for line in f:
        if line.strip():
            k, v = line.strip().split(' ', 1)
            caught[k] = v
rows = ['| bug | property | what it breaks | caught by |', '|---|---|---|---|']
sd = os.path.join(HERE, 'seeded')
for n in sorted(os.listdir(sd)):
    with open(os.path.join(sd, n, 'meta.json')) as f:
        d = json.load(f)
    rows.append('| %s | %s | %s | %s |' % (n, d['property'], d['what_it_breaks'], caught.get(n, '**missed**')))
text = section(text, '<!-- seeded -->', '<!-- end seeded -->', '\n'.join(rows) + '\n')
with open(p, 'w') as f:
    f.write(text)
