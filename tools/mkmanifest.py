#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of built checks."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
built = set()
for f in os.listdir(os.path.join(HERE, 'checks')):
    if f.endswith('.py'):
        with open(os.path.join(HERE, 'checks', f)) as h:
            built |= set(re.findall(r"@subtest\('(C\d+)'", h.read()))

NOTE = ('Property-based testing (Hypothesis) on the real code: absence of '
        'violations over the generated cases only. Trusts numpy, scipy and '
        'the solvers where the oracle uses them, and the tolerances in the '
        'check.')
TECH = json.load(open(os.path.join(HERE, 'tools', 'techniques.json')))
checks, na = [], []
with open(os.path.join(HERE, 'properties.jsonl')) as h:
    for line in h:
        p = json.loads(line)['id']
        if p in built:
            checks.append({
                'property': p, 'quick_cmd': './check.sh %s --tier quick' % p,
                'thorough_cmd': './check.sh %s --tier thorough' % p,
                'technique': TECH.get(p, 'property-based testing'),
                'level': 'exploration', 'level_note': NOTE})
        else:
            na.append({'property': p, 'reason': 'check not built yet'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as h:
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
               'not_applicable': na}, h, indent=1)
    h.write('\n')
