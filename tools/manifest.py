"""Writes MANIFEST.json from vf/catalog.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import catalog  # noqa: E402

checks = []
for pid in sorted(catalog.C):
    c = catalog.C[pid]
    cmd = 'python3-vt check.py ' + pid
    checks.append({'property': pid, 'quick_cmd': cmd, 'thorough_cmd': cmd, 'evidence_file': 'evidence/%s.json' % pid,
                   'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
out = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'hooks': {'guard': 'none', 'enable': 'none', 'source_commits': []},
       'not_applicable': [], 'notes': 'Obligations are generated from /repo\'s current source on every run. Where obligations are undecided (a refactoring outside the '
       'verified subset) the bounded evaluation of the same contracts decides and the evidence says so.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
