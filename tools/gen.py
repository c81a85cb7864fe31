#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import specs
P = []
NA = {}
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))
exec(open(V + '/tools/props.py').read())
with open(V + '/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
checks = []
na = []
for p in P:
    if p['id'] in specs.SPECS and p['id'] not in NA:
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
            technique='symbolic execution of the compiled code (LLVM IR) with z3 deciding every branch, address and assertion; native replay of counterexamples',
            level='model_checking', level_note=specs.NOTE.get(p['id'], 'Bounded: holds for every value of the symbolic inputs within the bounds listed per harness in the evidence file; nothing is claimed outside them. Trusts clang 18 -O1, the executor in engine/, the C-library model in rt/libc_model.c and z3.')))
    else:
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')))
m = dict(version=1, setup_cmd='make -C engine', checks=checks, not_applicable=na,
         hooks=dict(guard='none', enable='no hooks are needed: environment calls are redirected with -include rt/redirect.h when the checks compile the sources', source_commits=[]),
         notes='See DESIGN.md. Fixed defects are listed in known_findings.txt.')
with open(V + '/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(P), 'properties', len(checks), 'checks', [x['property'] for x in na])
