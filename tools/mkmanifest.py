"""Writes MANIFEST.json from the property modules present (run by hand)."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, '/repo/src')
na = json.load(open(os.path.join(V, 'tools', 'na.json')))
checks = []
for ln in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(ln)['id']
    if p.startswith('N'):
        continue
    if not os.path.exists(os.path.join(V, 'props', p.lower() + '.py')):
        na.append({'property': p, 'reason': 'Check under construction.'})
        continue
    m = importlib.import_module('props.' + p.lower())
    checks.append({
        'property': p, 'quick_cmd': './check.sh %s --tier quick' % p, 'thorough_cmd': './check.sh %s --tier thorough' % p,
        'technique': 'deterministic simulation with fault injection: seeded search over histories, thread schedules and '
                     'injected faults, checked against ' + m.ORACLE,
        'level': 'exploration',
        'level_note': 'Seeded search, not exhaustive: quick %d simulated runs, thorough %d. Real: %s. Stubbed: %s. Assumes: %s.' % (
            m.QUICK, m.THOROUGH, ', '.join(m.COMPONENTS['real']), ', '.join(m.COMPONENTS['stub']) or 'nothing',
            '; '.join(m.ASSUMPTIONS) or 'nothing further')})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -B -c "import numpy, scipy, pyfftw, tables"', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: every seam is a name the library already looks up at run time (pyfftw, tables, open, '
                    'numpy.random, thread starts, traced lines), replaced from outside while a simulated run lasts.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
