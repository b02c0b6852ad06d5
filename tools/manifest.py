"""Writes MANIFEST.json from properties.jsonl and the registered tests."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.dont_write_bytecode = True
import driver  # noqa
import registry  # noqa
from notes import NOTES, TECH  # noqa

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.PROPS:
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt harness/driver.py ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough python3-vt harness/driver.py '
                            + i,
            'technique': TECH.get(i, 'property-based testing (Hypothesis) '
                                     'against an independent reference model'),
            'level': 'exploration',
            'level_note': NOTES.get(i, '') +
            'Generated cases only: absence of violations is evidence, not '
            'proof. numba runs as plain Python; missing libraries are '
            'replaced by documented stand-ins (DESIGN.md).'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({
    'version': 1,
    'setup_cmd': 'python3-vt harness/selfcheck.py',
    'checks': checks, 'not_applicable': na,
    'notes': 'Replay a saved failure: python3-vt harness/driver.py --replay '
             'replays/<file>.json'},
    open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
