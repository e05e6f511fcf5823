"""writes properties.jsonl and MANIFEST.json from one table (run after editing)"""
import json
import os
from props import PROPS, NA
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']},
             'why_tests_cant': p['why'],
             'anchors': {'files': ['src/hookeai/' + x for x in p['files']],
                         'mechanism': [{'name': a, 'where': 'src/hookeai/' + b} for a, b in p['mech']]}}
        if 'observe' in p:
            d['anchors']['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    if p['id'] in NA:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f'python3 /verif/check.py {p["id"]} quick',
        'thorough_cmd': f'python3 /verif/check.py {p["id"]} thorough',
        'technique': 'bounded symbolic execution of the real code, decided by z3',
        'level': 'other',
        'level_note': 'The implementation itself is executed on symbolic tensors; every '
                      'branch is explored and every assertion is decided by the solver over '
                      'all real values within the stated bounds. ' + p.get('note', '')
                      + ' Trusted: the operator semantics of symtorch (cross-checked on every '
                      'path against the real operators), exact real arithmetic in place of '
                      'floating point, z3.'})
json.dump({'version': 1, 'setup_cmd': 'python3 /verif/check.py --selftest',
           'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
