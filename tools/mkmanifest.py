#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED maps a property to (technique, level_note)."""
import json, os
VD = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(VD + '/properties.jsonl')]
ns = {}
exec(open(VD + '/tools/claims.py').read(), ns)
CLAIMED = ns['CLAIMED']
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in CLAIMED:
        t, n = CLAIMED[i]
        m['checks'].append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                            "technique": t, "level": "exploration", "level_note": n})
    else:
        m['not_applicable'].append({"property": i, "reason": "no monitor built yet"})
if not m['not_applicable']:
    m['not_applicable'] = []
json.dump(m, open(VD + '/MANIFEST.json', 'w'), indent=1)
open(VD + '/MANIFEST.json', 'a').write('\n')
