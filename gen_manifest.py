" writes MANIFEST.json from contracts/index.py and replay/ "
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
import sys
sys.path.insert(0, HERE)
from contracts.index import MODULES, NOTES, LEVEL  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(HERE, 'replay', 'r_%s.py' % i.lower())):
        na.append(dict(property=i, reason='not built yet'))
        continue
    lvl = LEVEL.get(i, 'proof' if MODULES.get(i) else 'exploration')
    checks.append(dict(
        property=i, quick_cmd='python3-vt check.py %s' % i,
        thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % i,
        evidence_file='evidence/%s.json' % i,
        technique=('contract-based deductive verification (pyvc: VCs from the source, z3/cvc5), counterexamples '
                   'replayed on the real code' if MODULES.get(i) else
                   'bounded evaluation of the contract on the real code (stand-in, not a proof)'),
        level=lvl, level_note=NOTES.get(i, NOTES['*'])))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, sys; sys.path.insert(0, \'.\'); import pyvc.interp, contracts.base"',
               checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
