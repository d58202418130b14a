"""Writes properties.jsonl and MANIFEST.json from tools/props.py (only those with a check in harness/checks)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa

LEVEL_NOTE = ('Runtime monitoring of the real code: no violation was observed on the executions of this run, which the '
              'evidence file counts; it is not a proof for executions not made. Trusted: the reference in harness/, '
              'numpy, scipy, pandas and the interpreter. ')

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        row = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
               'quantifier': {'over': p['over'], 'text': p['quantifier']}, 'why_tests_cant': p['why'],
               'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                           'observe_at': p['observe'], 'hook_needed': None}}
        assert len(row['title']) <= 80, row['title']
        f.write(json.dumps(row) + '\n')

checks = []
for p in PROPS:
    if not os.path.isfile(os.path.join(ROOT, 'harness', 'checks', p['id'].lower() + '.py')):
        assert p['id'] in NOT_APPLICABLE, p['id']
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'bash run.sh ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough bash run.sh ' + p['id'],
        'evidence_file': 'evidence/{}.json'.format(p['id']),
        'technique': p['technique'],
        'level': 'exploration',
        'level_note': LEVEL_NOTE + p.get('note', ''),
    })
man = {
    'version': 1,
    'setup_cmd': 'bash tools/setup.sh',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
    'notes': 'Runtime monitoring only; see DESIGN.md. No hooks in /repo were needed: every monitor observes through the '
             'public API, the files written and the values returned.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties', len(checks), 'checks')
