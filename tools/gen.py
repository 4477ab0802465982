"""Regenerates properties.jsonl and MANIFEST.json from tools/table.py (run by hand; the results are committed)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from table import PROPS  # noqa: E402

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']},
             'why_tests_cant': p['tests'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                         'hook_needed': None}}
        fh.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    if p.get('na'):
        continue
    assert os.path.exists(os.path.join(ROOT, 'skcheck', 'rules', p['id'].lower() + '.py')), p['id']
    checks.append({'property': p['id'], 'quick_cmd': 'python3 -m skcheck %s' % p['id'],
                   'thorough_cmd': 'python3 -m skcheck %s' % p['id'],
                   'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 9)"', 'checks': checks,
           'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in PROPS if p.get('na')]},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks')
