#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check in props.py is claimed."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import props
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
TECH = "TLA+ specification checked with TLC; TLC-generated cases replayed on the code; recorded traces validated by TLC"
NOTE = ("Design: exhaustive within the bounds in DESIGN.md. Code: every executed call is checked against the specification by trace "
        "validation; %s Trusts the cryptographic libraries psignify depends on and the Go driver that records the events.")
checks, na = [], []
for i in ids:
    if i in props.CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": TECH, "level": "model_checking",
                       "level_note": NOTE % props.NOTES.get(i, "no claim beyond the executions covered.")})
    else:
        na.append({"property": i, "reason": props.NOT_CLAIMED.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the driver uses the public API, the command, and a build overlay that exports the unexported seal and open."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
