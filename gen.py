#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from registry.py."""
import json
import os
import registry

HERE = os.path.dirname(os.path.abspath(__file__))
lines, checks, na = [], [], []
for k in sorted(registry.PROPS):
    p = registry.PROPS[k]
    assert len(p['title']) <= 80, p['title']
    lines.append(json.dumps({
        'id': k, 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'state': [dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                    'mechanism': [dict(name=a, where=b) for a, b in p['mechanism']],
                    'observe_at': p['observe'], 'hook_needed': None}}))
    if p['na']:
        na.append({'property': k, 'reason': p['na']})
    else:
        checks.append({'property': k, 'quick_cmd': 'python3 check.py %s quick' % k,
                       'thorough_cmd': 'python3 check.py %s thorough' % k,
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    f.write('\n'.join(lines) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 10)"',
               'checks': checks, 'not_applicable': na,
               'notes': 'All checks read the sources of /repo only; nothing of /repo is executed.'}, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not applicable')
