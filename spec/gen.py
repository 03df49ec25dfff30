#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the property part of DESIGN.md from spec/props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'spec'))
from props import PROPS, NA
def prop(p):
    return {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p.get('observe', []), 'hook_needed': None}}
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(prop(p)) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 sa/build.py setup', 'checks': [], 'not_applicable': []}
for p in PROPS:
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 sa/run.py ' + p['id'], 'thorough_cmd': 'python3 sa/run.py ' + p['id'],
                        'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
for p in NA: m['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
pre = open(os.path.join(H, 'spec', 'design_head.md')).read()
out = [pre, '\n## Properties decided\n']
for p in PROPS:
    out.append('### %s — %s\n\n%s\n\n*How it is decided.* %s\n\n*Assurance and limits.* %s\n' % (p['id'], p['title'], p['statement'], p['design'], p['note']))
out.append('\n## Not applicable\n')
for p in NA: out.append('- **%s %s** — %s' % (p['id'], p['title'], p['reason']))
tail = os.path.join(H, 'spec', 'design_tail.md')
if os.path.exists(tail): out.append('\n' + open(tail).read())
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(len(PROPS), 'claimed', len(NA), 'not applicable')
