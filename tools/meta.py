"""Generates properties.jsonl and MANIFEST.json (python3 tools/meta.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, level='proof', note='', technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        P[-1]['_c'] = dict(property=id, quick_cmd='python3-vt check.py %s quick' % id, thorough_cmd='python3-vt check.py %s thorough' % id,
                           technique=technique or TECH, level=level, level_note=note)


TECH = ('contract-based deductive verification: pre/postconditions and inferred+given loop invariants on the functions of /repo, '
        'obligations generated from the clang LLVM IR of the current source and discharged by z3/cvc5; replay of counterexamples on the native build')

exec(open(os.path.join(ROOT, 'tools', 'meta_props.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k != '_c'}) + '\n')
m = dict(version=1, setup_cmd='python3-vt tools/selftest.py', checks=[p['_c'] for p in P if '_c' in p], not_applicable=NA)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
