#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
P = []
TECH = ('contract-based deductive verification of the real code: own VC generator over the LLVM IR clang compiles '
        'from /repo on every run; obligations discharged by z3/cvc5 and a limb normal form')


def p(id, title, statement, over, quant, why, files, mech, state=(), observe=(), na=None, note='', level='proof',
      tech=TECH):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why, files=files.split(),
                  mech=mech, state=state, observe=observe, na=na, note=note, level=level, tech=tech))


from catalog_data import fill  # noqa
fill(p)

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for x in P:
        a = dict(files=['src/' + n for n in x['files']],
                 mechanism=[dict(name=n, where='src/' + w) for n, w in x['mech']])
        if x['state']:
            a['state'] = [dict(name=n, meaning=m, where='src/' + w) for n, m, w in x['state']]
        if x['observe']:
            a['observe_at'] = list(x['observe'])
        f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'],
                                quantifier=dict(over=x['over'], text=x['quant']), why_tests_cant=x['why'], anchors=a)) + '\n')
m = dict(version=1,
         setup_cmd='python3-vt tools/setup.py',
         checks=[dict(property=x['id'], quick_cmd='python3-vt vc/check.py %s --tier quick' % x['id'],
                      thorough_cmd='python3-vt vc/check.py %s --tier thorough' % x['id'],
                      technique=x['tech'], level=x['level'], level_note=x['note']) for x in P if not x['na']],
         not_applicable=[dict(property=x['id'], reason=x['na']) for x in P if x['na']],
         notes='Per-property detail in DESIGN.md; genuine defects in known_findings.txt. No hooks were added to /repo.')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(m['checks']), 'checks')
