#!/usr/bin/env python3
"""MANIFEST.json from plan.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import plan
checks = []
for pid, P in plan.PROPS.items():
    proof = P['level'] == 'proof'
    checks.append(dict(property=pid, quick_cmd='./check.py --property %s' % pid,
        thorough_cmd='./check.py --property %s --tier thorough' % pid,
        technique=('contract-based deductive verification: obligations generated from the clang AST of /repo, discharged by z3 and cvc5'
                   + ('' if not P['harness'] else '; bounded replay on the real code')) if proof else
                  'bounded concrete execution against an oracle (stand-in where no contract is in reach yet)',
        level=P['level'],
        level_note=plan.note(pid)))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=plan.NOT_APPLICABLE,
         notes='No hooks in /repo: the functions under contract are extracted from the unmodified headers on every run. known-findings.txt lists the genuine defects found.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
