"""setup_cmd: every registered specification must be present."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import CHECKS
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
for c in CHECKS.values():
    for p in c['parts']:
        for f in ('spec/%s.tla' % p['spec'], 'drivers/%s.py' % p['driver']):
            assert os.path.exists(os.path.join(V, f)), f
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
print('selftest ok:', len(CHECKS), 'properties')
