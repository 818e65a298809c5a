"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
from registry import CHECKS  # noqa: E402
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {}
checks = []
for pid in props:
    if pid not in CHECKS:
        continue
    c = CHECKS[pid]
    checks.append({'property': pid,
                   'quick_cmd': '/opt/venv/bin/python check.py %s quick' % pid,
                   'thorough_cmd': '/opt/venv/bin/python check.py %s thorough' % pid,
                   'evidence_file': 'evidence/%s.json' % pid,
                   'technique': c.get('technique', 'Quint specification, simulated by quint run; its ITF traces are replayed into the real code and compared state by state'),
                   'level': c.get('level', 'model_checking'),
                   'level_note': c.get('level_note', 'bounded: randomised simulation of the specification with its invariants checked on every state; every generated behaviour is replayed against the implementation')})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python harness/setup.py', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': NA.get(p, 'check under construction, not claimed yet')} for p in props if p not in CHECKS],
     'notes': 'No hooks: the code in /repo is driven through its importable interfaces. See DESIGN.md; known findings are in known_findings.json.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
