#!/usr/bin/env python3
"""writes MANIFEST.json from units.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/units.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in c["properties"]:
        q = c["properties"][i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "technique": q.get("technique", "contracts on the functions extracted from /repo, discharged by Verus/Z3"),
                            "level": q["level"], "level_note": q.get("note", "every obligation of the functions under contract is discharged for all inputs; std contracts are assumed (DESIGN.md)")})
    else:
        m["not_applicable"].append({"property": i, "reason": c.get("not_applicable", {}).get(i, "not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
