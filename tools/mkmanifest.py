#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from properties.jsonl, check.py and the notes below.
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import check
TECH = json.load(open(os.path.join(HERE, 'tools', 'techniques.json')))
checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p not in check.CHECKS:
        missing.append({'property': p, 'reason': 'The check is not built yet.'})
        continue
    t = TECH[p]
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p,
                   'thorough_cmd': 'python3 check.py %s thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p,
                   'technique': t[0], 'level': check.LEVELS.get(p, 'exploration'), 'level_note': t[1]})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': missing,
     'notes': 'No hooks in /repo: the harness drives exported functions of the packages from a separate module (harness/), so nothing in /repo is instrumented. Counterexamples are replayed with: python3 check.py --replay replays/FILE.json'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'checks,', len(missing), 'not claimed')
