"""write properties.jsonl and MANIFEST.json from tools/props.py and the harnesses present"""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
from props import P

NA = {}
NOTE = {}
try:
    from notes import NA, NOTE
except ImportError:
    pass
TECH = 'symbolic execution of the real Python source with an SMT solver (z3), bounded'
LEVEL = ('Every feasible path of the harness over the instrumented source of /repo is explored and every assertion is '
         'decided by z3 for all values satisfying the path condition, within the bounds in the evidence file; '
         'counterexamples are replayed on the uninstrumented code before they are reported, and sampled paths are '
         're-run on it. Trusted: the models of Python operations in symex/, z3.')

with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in P:
    i = p['id']
    if os.path.exists(os.path.join(here, 'harness', i.lower() + '.py')) and i not in NA:
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}',
                       'thorough_cmd': f'python3 check.py {i} --tier thorough', 'technique': TECH,
                       'level': 'model_checking', 'level_note': (NOTE.get(i, '') + ' ' + LEVEL).strip()})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'the harness for this property is not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks, 'not_applicable': na,
     'notes': 'see DESIGN.md; no hooks in /repo are needed: the checks instrument a scratch copy of its source'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
