"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                       "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                       "technique": "static analysis: " + p["technique"], "level": "other",
                       "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 10)\"", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
