#!/usr/bin/env python3
""" Writes properties.jsonl and MANIFEST.json from the single table in tools/props.py """
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE

lines, checks = [], []
for p in PROPS:
    pid = p['id']
    if not os.path.exists(f'{ROOT}/mc/checks/{pid.lower()}.py'):
        continue
    assert len(p['title']) <= 80, (pid, len(p['title']))
    lines.append({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')})
    checks.append({
        'property': pid, 'quick_cmd': f'./check {pid} quick', 'thorough_cmd': f'./check {pid} thorough',
        'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note'],
    })
na = []
for p in NOT_APPLICABLE:
    lines.append({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')})
    na.append({'property': p['id'], 'reason': p['reason']})
with open(f'{ROOT}/properties.jsonl', 'w') as f:
    for l in lines:
        f.write(json.dumps(l) + '\n')
with open(f'{ROOT}/MANIFEST.json', 'w') as f:
    json.dump({'version': 1, 'setup_cmd': './check setup', 'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json')); ms = json.load(open('/root/.vp/MANIFEST.schema.json'))
    for l in lines: jsonschema.validate(l, ps)
    jsonschema.validate(json.load(open(f'{ROOT}/MANIFEST.json')), ms)
    print('schemas ok', len(lines), 'properties', len(checks), 'checks')
except ImportError:
    print('no jsonschema')
