#!/usr/bin/env python3
"""claim.py ID 'note' [level]: move a property to the claims (run from /verif)."""
import json, sys
c = json.load(open('tools/claims.json'))
i, note = sys.argv[1], sys.argv[2]
e = {"id": i, "note": note}
if len(sys.argv) > 3:
    e["level"] = sys.argv[3]
if len(sys.argv) > 4:
    e["technique"] = sys.argv[4]
c['claims'] = [x for x in c['claims'] if x['id'] != i] + [e]
c['claims'].sort(key=lambda x: x['id'])
c['not_applicable'] = [x for x in c['not_applicable'] if x['property'] != i]
json.dump(c, open('tools/claims.json', 'w'), indent=1, ensure_ascii=False)
