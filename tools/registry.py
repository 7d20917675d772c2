#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []
def P(id, title, statement, over, text, why, files, mech, observe=None, claim=True, note='', state=None):
    p = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}}
    if observe: p['anchors']['observe_at'] = observe
    if state: p['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    PROPS.append((p, note if claim is True else None))
    if claim is not True:
        NA.append({'property': id, 'reason': claim})
exec(open(os.path.join(V, 'tools', 'properties.py')).read())
TRUST = ('Bounded, not unbounded: every path within the bounds stated in the harness (//@ bounds) is executed symbolically over LLVM bitcode of the current sources and '
         'every assertion is decided by SAT/SMT; counterexamples are replayed natively before they are reported. Trusted: clang -O1 lowering, the engine, the model of the '
         'C++ runtime library (allocation, exceptions, strings, streams), assertions enabled as in the build.')
with open(V + '/properties.jsonl', 'w') as f:
    for p, _ in PROPS:
        f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                 'technique': 'symbolic execution of LLVM bitcode of the real code, assertions decided by SAT/SMT, counterexamples replayed natively',
                 'level': 'model_checking', 'level_note': (note + ' ' if note else '') + TRUST} for p, note in PROPS if note is not None],
     'not_applicable': NA,
     'notes': 'No hooks in /repo. Known findings: known_findings.json. See DESIGN.md.'}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
