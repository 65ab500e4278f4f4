#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py (the single source of both)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'meta'))
import props as P
with open(V + '/properties.jsonl', 'w') as f:
    for p in P.PROPS:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
checks, na = [], []
for p in P.PROPS:
    if p.get('na'): na.append({'property': p['id'], 'reason': p['na']}); continue
    if not os.path.exists(V + '/props/%s.py' % p['id'].lower()):
        na.append({'property': p['id'], 'reason': 'not built yet'}); continue
    checks.append({'property': p['id'],
                   'quick_cmd': 'python3-vt vc/check.py %s quick' % p['id'],
                   'thorough_cmd': 'python3-vt vc/check.py %s thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p.get('technique', P.TECH), 'level': p.get('level', 'proof'), 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3-vt vc/check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': P.NOTES}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(V + '/MANIFEST.json', 'a').write('\n')
