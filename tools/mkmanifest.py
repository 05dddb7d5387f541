"""Write MANIFEST.json from properties.jsonl and the registered cases."""

import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from sim import run                                             # noqa: E402
import sim.cases                                                # noqa: E402,F401
from sim.profiles import PROFILES                               # noqa: E402

NA = 'Pure function of its arguments, computed without communication, ' \
    'time, I/O or randomness: no schedule or fault to simulate (see DESIGN.md).'
TODO = 'Checks for this property are still being built.'
ENV = 'OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg ' \
    'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH='

checks, na = [], []
claimed = {p for c in run.REGISTRY.values() for p in c.props}
with open(os.path.join(VERIF, 'properties.jsonl')) as f:
    for line in f:
        d = json.loads(line)
        i = d['id']
        if i in claimed:
            level = PROFILES[i].get('level', 'exploration')
            names = [c.name for c in run.REGISTRY.values() if i in c.props]
            checks.append(dict(property=i,
                quick_cmd='%s /opt/venv/bin/python sim/check.py %s quick'
                    % (ENV, i),
                thorough_cmd='%s /opt/venv/bin/python sim/check.py %s '
                    'thorough' % (ENV, i),
                technique='deterministic simulation: seeded search over '
                    'schedules, process layouts' + (', crash points and '
                    'I/O faults' if level == 'fault_enumeration' else '')
                    + ' and inputs',
                level=level,
                level_note='Real elphmod code of all ranks runs in one '
                    'process on simulated MPI, shared memory, files and '
                    'clocks; %d scenarios; sampled, not exhaustive.'
                    % len(names)))
        elif i.startswith('Q'):
            na.append(dict(property=i, reason=d.get('na', NA)))
        else:
            na.append(dict(property=i, reason=TODO))

with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import '
        'numpy, scipy"', checks=checks, not_applicable=na,
        notes='One simulator for all properties, see DESIGN.md. No hooks in '
        '/repo: the simulator replaces mpi4py, files, clock and memory at '
        'import time.'), f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not')
