#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'harness'))
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        mods = ', '.join(x['spec'] + '.tla' for x in CHECKS[i]['parts'])
        checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i,
            thorough_cmd='./check %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
            technique='TLA+ specification (%s) model-checked with TLC; TLC-generated scenarios replayed on the real code; recorded traces validated by TLC' % mods,
            level='model_checking',
            level_note=CHECKS[i].get('note', 'The specification is checked exhaustively within small constants; the code is bound to it by '
              'replaying TLC-generated and seeded random scenarios and validating every recorded observation with TLC. '
              'Assurance for the code is limited to the executions explored.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'Check not built yet.')))
json.dump(dict(version=1, setup_cmd='java -version && test -x /opt/venv/bin/python && python3 harness/selftest.py',
               checks=checks, not_applicable=na,
               notes='No hooks are needed in /repo: all observation points are public API, files and databases. Harness: ./check <ID>.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
