#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run from /verif)."""
import json
PROOF = "contract-based deductive verification: weakest-precondition style symbolic execution of /repo's SSA by govc (own VC generator), obligations discharged by z3/cvc5"
T = json.load(open('tools/claims.json'))
checks = []
for c in T['claims']:
    checks.append({
        "property": c['id'],
        "quick_cmd": "bash check.sh %s quick" % c['id'],
        "thorough_cmd": "bash check.sh %s thorough" % c['id'],
        "evidence_file": "evidence/%s.json" % c['id'],
        "technique": c.get('technique', PROOF),
        "level": c.get('level', 'proof'),
        "level_note": c['note'],
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": T['not_applicable'],
     "notes": T.get('notes', '')}
json.dump(m, open('MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
