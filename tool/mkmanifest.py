#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks/*.json and properties.jsonl."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl') if l.strip()]
checks, na = [], []
notes = json.load(open(root + '/checks/notes.json'))
for p in props:
    f = f"{root}/checks/{p['id']}.json"
    if os.path.exists(f):
        c = json.load(open(f))
        e = {"property": p['id'], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
             "evidence_file": f"evidence/{p['id']}.json",
             "technique": c.get('technique', 'contract-based deductive verification (govc obligations from the Go source, discharged by Verus/z3)'),
             "level": c.get('level', 'proof'), "level_note": c.get('level_note', '') or notes.get(p['id'], notes['default'])}
        if e['level'] == 'proof':
            e['theorems'] = c.get('theorems', [])
        checks.append(e)
    else:
        na.append({"property": p['id'], "reason": notes.get('na', {}).get(p['id'], 'no contract check built yet')})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(root + '/MANIFEST.json', 'w'), indent=1)
