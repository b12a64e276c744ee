"""Writes MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'dv'))
from props import PROPS, NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
TECH = 'contract-based deductive verification of the C++ source (function contracts, loop invariants and lock invariants; verification conditions generated from the clang AST of the current tree, discharged by z3 and cvc5)'
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[],
         notes='Every check regenerates its obligations from /repo\'s current source and needs no build of it. VERIF_TIER=thorough gives the solvers more time and lists every failed obligation. See DESIGN.md.')
for p in props:
    if p['id'] in PROPS:
        m['checks'].append(dict(property=p['id'], quick_cmd='python3-vt dv/check.py %s' % p['id'],
                                thorough_cmd='VERIF_TIER=thorough python3-vt dv/check.py %s' % p['id'],
                                technique=TECH, level='proof', level_note=NOTES.get(p['id'], NOTES['*'])))
    else:
        m['not_applicable'].append(dict(property=p['id'], reason=NOT_APPLICABLE[p['id']]))
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
