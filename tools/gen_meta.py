#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from sv/props*.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sv")
import props


def line(pid, p):
    return {"id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": "none"}}


allp = {**props.PROPS, **props.NOT_APPLICABLE}
with open(V + "/properties.jsonl", "w") as f:
    for pid in sorted(allp):
        f.write(json.dumps(line(pid, allp[pid])) + "\n")
m = {"version": 1, "setup_cmd": "python3 sv/setup.py",
     "checks": [{"property": pid, "quick_cmd": f"./check {pid} quick", "thorough_cmd": f"./check {pid} thorough",
                 "technique": p["tech"], "level": p["level"], "level_note": p["note"]}
                for pid, p in sorted(props.PROPS.items())],
     "not_applicable": [{"property": pid, "reason": p["reason"]} for pid, p in sorted(props.NOT_APPLICABLE.items())],
     "notes": "All checks read /repo's headers on every run and never execute library code."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
