#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the one list in props_data.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props_data import PROPS, NOT_APPLICABLE, HOOKS, NOTES
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        o = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(o["title"]) <= 80, o["id"]
        f.write(json.dumps(o) + "\n")
na = dict(NOT_APPLICABLE)
m = {
    "version": 1,
    "setup_cmd": "./build.sh vh zcli vn",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "./check.sh %s quick" % p["id"],
            "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": p.get("level", "exploration"),
            "level_note": p["note"],
        }
        for p in PROPS
        if p["id"] not in na
    ],
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE],
    "notes": NOTES,
}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks")
