#!/usr/bin/env python3
"""Regenerates properties.jsonl, MANIFEST.json and the generated part of DESIGN.md from spec/spec.py and catalog.py."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from spec.spec import SPEC, NOT_APPLICABLE
from catalog import CATALOG
with open(V + '/properties.jsonl', 'w') as f:
    for p in SPEC.values():
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}}) + '\n')
assert set(SPEC) == set(CATALOG) | {n['property'] for n in NOT_APPLICABLE}, set(SPEC) ^ set(CATALOG)
checks = []
for pid, p in SPEC.items():
    if pid not in CATALOG:
        continue
    checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s quick' % pid, 'thorough_cmd': 'python3 check.py %s thorough' % pid,
        'technique': 'property-based testing: generated cases against an explicit oracle, shrinking, replay', 'level': CATALOG[pid].get('level', 'exploration'), 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'hooks': {'guard': 'none', 'enable': 'no hooks were added to /repo; the harnesses include its headers directly', 'source_commits': []},
    'checks': checks, 'not_applicable': NOT_APPLICABLE, 'notes': 'see DESIGN.md'}, open(V + '/MANIFEST.json', 'w'), indent=1)
s = open(V + '/DESIGN.md').read()
a, b = '<!-- generated by gen.py: begin -->\n', '<!-- generated by gen.py: end -->\n'
o = []
for pid, p in SPEC.items():
    o.append('### %s %s\n\n%s\n\n* decided by: %s\n* case and non-trivial rule: %s\n* why tests cannot settle it: %s\n* code: %s\n* harness: %s; quick %d s, thorough %d s%s\n%s' % (
        pid, p['title'], p['statement'], p['how'], p['rule'], p['why'], ', '.join(p['files']),
        ', '.join(h['name'] for h in CATALOG[pid]['harness']) if pid in CATALOG else 'none', CATALOG.get(pid, {}).get('quick', 24), CATALOG.get(pid, {}).get('thorough', 240),
        ' plus libFuzzer' if any(h.get('fuzz') for h in CATALOG.get(pid, {'harness': []})['harness']) else '',
        '* assumes: %s\n' % '; '.join(p['assume']) if p['assume'] else ''))
i, j = s.index(a) + len(a), s.index(b)
open(V + '/DESIGN.md', 'w').write(s[:i] + '\n'.join(o) + s[j:])
print(len(SPEC), 'properties', len(checks), 'checks')
