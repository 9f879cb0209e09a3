"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import CONFIG
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = 'Seeded search: holds on every simulated run explored, no proof beyond them. Trusts the simulator seams in sim/native and the independent oracles in sim/.'
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in NA:
        continue
    if p not in CONFIG:
        NA[p] = 'check not built yet'
        continue
    c = CONFIG[p]
    checks.append({'property': p, 'quick_cmd': 'python3 sim/run.py --prop %s --tier quick' % p,
                   'thorough_cmd': 'python3 sim/run.py --prop %s --tier thorough' % p,
                   'technique': 'deterministic simulation with fault injection (seeded search)',
                   'level': c['level'], 'level_note': c.get('note', NOTE)})
m = {'version': 1, 'setup_cmd': 'python3 sim/build.py', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'No hooks in /repo: the seams are a preloaded library (file calls, memory), numpy allocator, import hook (bytecode clock) and compiler-inserted kernel step hooks. See DESIGN.md.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
