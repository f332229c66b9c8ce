"""Write MANIFEST.json from the checks themselves.  Run: PYTHONPATH=/verif:/repo /opt/venv/bin/python tools/make_manifest.py"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from kcheck.__main__ import IDS  # noqa: E402

checks = []
for pid in IDS:
    c = importlib.import_module(f'kcheck.props.{pid.lower()}').CHECK
    note = (f'Every case of the bounded space is executed on the code of /repo and judged by an independent reference; nothing is '
            f'sampled. Explored: {c.rule}. Quick bounds: {c.bounds["quick"]}. Thorough bounds: {c.bounds["thorough"]}. '
            f'Assumed: {"; ".join(c.assumptions) or "nothing further"}.')
    checks.append(dict(property=pid, quick_cmd=f'./run.sh {pid}', thorough_cmd=f'VERIF_TIER=thorough ./run.sh {pid}',
                       technique=c.technique, level=c.level, level_note=note))
man = dict(version=1, setup_cmd='true', checks=checks,
           not_applicable=[dict(property='C23', reason='Calibration is a statement about a population of random simulations: deciding it '
                                'needs random sampling of trajectories and a statistical test, which bounded exhaustive enumeration of '
                                'executions cannot provide. Complete populations small enough to enumerate (C29 does so for means and '
                                'variances, where the statement is exact) are far from the limit in which the intervals of a fit are '
                                'calibrated: over them the intervals cover too little on correct code.')],
           notes='Model checking of the implementation: bounded exhaustive enumeration of inputs, histories, draw sequences and faults on '
                 'the real code (kcheck/), against reference models in kcheck/ref.py. No hooks in /repo. ./run.sh replay FILE repeats a '
                 'counterexample.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
