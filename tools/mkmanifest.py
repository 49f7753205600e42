#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
 'K01': 'The solver wrapper only compiles against SUNDIALS/KINSOL (and INMOST solvers), which are not installed and cannot be fetched; it is not built here, so no generated input can be run through it.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': c.get('technique', 'property-based testing: generated cases against an independent reference, shrinking, replay'),
            'level': 'exploration', 'level_note': c.get('note', 'Holds on every generated case; no claim beyond them.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check is built for this property yet.')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import json; json.load(open(\'MANIFEST.json\'))" && g++ --version && test -d /usr/include/eigen3',
     'checks': checks, 'not_applicable': na,
     'notes': 'Every check compiles its harnesses together with the sources of /repo in /verif/build (git-ignored), generates cases from VERIF_SEED and writes its evidence. Known findings and repaired defects: known_findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
