#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(here, 'tools', 'table.py')).read())
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')
checks, na = [], []
for p in PROPS:
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'bash checks/run.sh %s quick' % p['id'],
        'thorough_cmd': 'bash checks/run.sh %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'],
        'level': 'other',
        'level_note': p['note'],
    })
json.dump({'version': 1, 'setup_cmd': 'bash checks/build.sh', 'checks': checks, 'not_applicable': na},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
