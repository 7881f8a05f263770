#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
from props import PROPS, NA
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                 why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
        if p.get('state'):
            d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
        f.write(json.dumps(d) + '\n')
ch = []
for p in PROPS:
    if p['id'] in NA:
        continue
    if not os.path.exists(os.path.join(V, 'specs', p['id'] + '.py')):
        continue
    ch.append(dict(property=p['id'], quick_cmd='python3-vt cv/check.py %s --tier quick' % p['id'],
                   thorough_cmd='python3-vt cv/check.py %s --tier thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
                   technique='contract-based deductive verification (weakest-precondition style VCs over the clang AST of the real functions, loop invariants, SMT), failing obligations replayed on the compiled code',
                   level=p.get('level', 'proof'), level_note=p['note']))
done = {c['property'] for c in ch}
na = [dict(property=k, reason=v) for k, v in NA.items()]
na += [dict(property=p['id'], reason='no check committed yet') for p in PROPS if p['id'] not in done and p['id'] not in NA]
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && clang++-18 --version && g++ --version', checks=ch, not_applicable=na,
         notes='Every check extracts the functions from /repo with clang on every run, generates and discharges all obligations (cv/), then runs a bounded replay search on the compiled code; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(ch), 'checks')
