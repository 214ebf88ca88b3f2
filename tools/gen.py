#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + [n for n in NA]:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash check.sh build",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"bash check.sh {p['id']} quick",
            "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        }
        for p in PROPS
    ],
    "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NA],
    "notes": "No hooks in /repo: the simulator interposes libc symbols (futex, clocks, entropy, files, threads) in its own binary and runs nyx unmodified. See DESIGN.md.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
ids = [p["id"] for p in PROPS + NA]
assert len(ids) == len(set(ids))
for p in PROPS + NA:
    assert len(p["title"]) <= 80, p["id"]
print(len(PROPS), "claimed,", len(NA), "not applicable")
