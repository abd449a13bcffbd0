#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA_REASON, CLAIMED, LEVEL_NOTE, TECH
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in CLAIMED:
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh check -prop " + i,
            "thorough_cmd": "./check.sh check -prop " + i + " -tier thorough",
            "evidence_file": "evidence/" + i + ".json",
            "technique": TECH,
            "level": "proof",
            "level_note": LEVEL_NOTE + (" " + p["note"] if p.get("note") else ""),
        })
    else:
        na.append({"property": i, "reason": NA_REASON.get(i, "no contract for it yet")})
m = {"version": 1,
     "setup_cmd": "bash -c '. /opt/vp/env.sh; cd gvc && go build -o bin/gvc .'",
     "checks": checks, "not_applicable": na,
     "notes": "gvc (in gvc/) is a deductive verifier for Go written for this task; contracts are in contracts/; see DESIGN.md"}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
