"""regenerate MANIFEST.json from vc/props.py and properties.jsonl"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'vc'))
from props import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
checks = [dict(property=i, quick_cmd='python3-vt vc/check.py %s --tier quick' % i, thorough_cmd='python3-vt vc/check.py %s --tier thorough' % i,
               technique='contract-based deductive verification of the MIR rustc generates from /repo: function contracts and loop invariants in vc/contracts.py, obligations discharged by z3 (cvc5 second) on every run'
               , level='proof', level_note=PROPS[i].get('note', 'contracts of %d functions and their contract callees, for all inputs; assumptions in the evidence file and DESIGN.md' % len(PROPS[i]['cases'])),
               evidence_file='evidence/%s.json' % i) for i in ids if i in PROPS]
na = [dict(property=i, reason='contracts not written yet') for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', hooks=dict(guard='none', enable='none', source_commits=[]), checks=checks, not_applicable=na,
               notes='see DESIGN.md; known-findings.txt lists repaired defects'), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
