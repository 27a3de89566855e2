# -*- coding: utf-8 -*-
'''Writes properties.jsonl and MANIFEST.json from tools/spec.py (run after editing the latter).'''
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from spec import PROPS, NOT_APPLICABLE, NOTES

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'state': [{'name': a, 'meaning': b} for a, b in p.get('state', [])],
                        'observe_at': p['observe'], 'hook_needed': None}}, ensure_ascii=False) + '\n')
checks = [{'property': p['id'], 'quick_cmd': '/opt/venv/bin/python check.py %s quick' % p['id'],
           'thorough_cmd': '/opt/venv/bin/python check.py %s thorough' % p['id'],
           'technique': p['tech'], 'level': p.get('level', 'exploration'), 'level_note': p['note']}
          for p in PROPS if p['id'] not in NOT_APPLICABLE]
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/setup.py',
           'hooks': {'guard': 'none', 'enable': 'no hooks: every monitor watches the public API, the file system, the processes and the '
                     'documents from outside', 'source_commits': []},
           'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT_APPLICABLE.items())],
           'notes': NOTES}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
import jsonschema
S = '/root/.vp/%s.schema.json'
for l in open(os.path.join(ROOT, 'properties.jsonl')): jsonschema.validate(json.loads(l), json.load(open(S % 'PROPERTIES')))
jsonschema.validate(json.load(open(os.path.join(ROOT, 'MANIFEST.json'))), json.load(open(S % 'MANIFEST')))
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
print(len(PROPS), 'properties,', len(checks), 'checks')
