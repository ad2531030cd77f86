#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the real code (contracts as C++ harnesses; VCs from LLVM IR of /repo sources; z3, cvc5, exact algebra)'
LV = ('Every obligation generated from /repo\'s current source is discharged on each run. Symbolic doubles are treated as mathematical reals '
      '(rounding, overflow, NaN not modelled); trusts clang\'s front end, engine/ (IR semantics, CAS) and z3/cvc5. ')
P = []
def prop(id, title, st, over, quant, why, files, mech, note, claim=True, reason=None, level='proof', state=None, observe=None):
    P.append(dict(id=id, title=title, st=st, over=over, quant=quant, why=why, files=files, mech=mech, note=note, claim=claim, reason=reason, level=level, state=state, observe=observe))

exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['state']: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        if p['observe']: a['observe_at'] = p['observe']
        a['hook_needed'] = None
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['st'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'], anchors=a)) + '\n')
m = dict(version=1, setup_cmd='python3 tools/setup.py',
    checks=[dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
                 technique=TECH, level=p['level'], level_note=LV + p['note']) for p in P if p['claim']],
    not_applicable=[dict(property=p['id'], reason=p['reason']) for p in P if not p['claim']])
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(P), 'properties', len(m['checks']), 'claimed')
