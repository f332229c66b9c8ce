"""Write DESIGN.md: hand-written head and tail, the per-property sections from the checks themselves.
Run: PYTHONPATH=/verif:/repo /opt/venv/bin/python tools/make_design.py"""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from kcheck.__main__ import IDS  # noqa: E402
from tools.design_notes import NOTES  # noqa: E402

props = {d['id']: d for d in map(json.loads, open(os.path.join(ROOT, 'properties.jsonl')))}
out = open(os.path.join(ROOT, 'tools', 'design_head.md')).read()
for pid in IDS:
    c = importlib.import_module(f'kcheck.props.{pid.lower()}').CHECK
    oracle, why, cost = NOTES[pid]
    out += (f'### {pid} - {props[pid]["title"]}\n'
            f'* Technique ({c.level}): {c.technique}.\n'
            f'* Enumerated: {c.rule}.\n'
            f'* Oracle: {oracle}\n'
            f'* Quick bounds: {c.bounds["quick"]} (about {cost} s). Thorough: {c.bounds["thorough"]}.\n'
            f'* Assumed: {"; ".join(c.assumptions) or "nothing further"}.\n'
            f'* Beyond the tests: {why}\n\n')
out += open(os.path.join(ROOT, 'tools', 'design_tail.md')).read()
out += '| bug | check | needs | breaks |\n|---|---|---|---|\n'
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    out += f'| {os.path.basename(os.path.dirname(f))} | {m["property"]} | {m["needs"]} | {m["what_it_breaks"]} |\n'
extra = os.path.join(ROOT, 'tools', 'design_mutants.md')
if os.path.exists(extra):
    out += '\n' + open(extra).read()
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(out)
