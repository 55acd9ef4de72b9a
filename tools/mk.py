#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list in tools/props.py (run after editing it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOTES
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
cfg = json.load(open(os.path.join(H, "checks.json")))
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p.get("state", [])],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None}}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "contract_verification", "level": cfg[p["id"]]["level"], "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
