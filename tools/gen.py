#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec.py (run by hand after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, 'tools'))
from spec import PROPS, NOT_APPLICABLE, NOTES

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p.get('over', ['inputs']), text=p['quant']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=['src/actuarialmath/' + x for x in p['files']],
                              mechanism=[dict(name=n, where='src/actuarialmath/' + w) for n, w in p['mech']],
                              observe_at=p.get('observe', []), hook_needed=None))
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
checks, na = [], [dict(property=k, reason=r) for k, r in NOT_APPLICABLE.items()]
for p in PROPS:
    i = p['id']
    if i in NOT_APPLICABLE:
        continue
    if not os.path.exists(os.path.join(V, 'props', i + '.py')) or p.get('wip'):
        na.append(dict(property=i, reason='check not built yet'))
        continue
    checks.append(dict(property=i, quick_cmd=f'./check {i} --tier quick', thorough_cmd=f'./check {i} --tier thorough',
                       evidence_file=f'evidence/{i}.json',
                       technique='symbolic execution of the real Python code with exact real/exponential algebra; z3 (nlsat) decides every branch and assertion',
                       level='model_checking',
                       level_note=p.get('note', 'Within the listed ages, terms and table sizes every real-valued input (rates, forces, '
                                        'interest, benefits) is a symbolic variable and the solver decides the assertion for all of its '
                                        'values. Trusted: the engine, z3, the stand-ins for numpy/scipy routines, and reading floats as reals '
                                        '(rounding is outside the claim). Counterexamples are replayed on the unmodified code.')))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na, notes=NOTES),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(PROPS), 'properties', len(checks), 'checks', [x['property'] for x in na])
