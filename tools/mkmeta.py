#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in tools/table.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
from table import PROPERTIES, NOT_APPLICABLE
R = os.path.dirname(H)
claimed = []
with open(R + "/properties.jsonl", "w") as f:
    for p in PROPERTIES + NOT_APPLICABLE:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["tests"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": [], "not_applicable": []}
for p in PROPERTIES:
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "proof", "level_note": p["note"]})
for p in NOT_APPLICABLE:
    m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
