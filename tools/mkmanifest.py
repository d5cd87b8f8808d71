"""Writes MANIFEST.json. CLAIMED: property -> (technique, level, note)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
exec(open(os.path.join(V, 'tools', 'claimed.py')).read())
m = {'version': 1, 'setup_cmd': 'python3-vt engine/setup.py',
     'checks': [{'property': p, 'quick_cmd': 'python3-vt engine/run.py %s quick' % p, 'thorough_cmd': 'python3-vt engine/run.py %s thorough' % p,
                 'technique': t, 'level': l, 'level_note': n} for p, (t, l, n) in CLAIMED.items()],
     'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], 'not built yet')} for p in props if p['id'] not in CLAIMED],
     'notes': 'One symbolic executor (engine/) over SSA regenerated from /repo on every run; see DESIGN.md. No hooks in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
