#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have checks (vlib/checks.py)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib import checks
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Exhaustive TLC run of the specification within small bounds; histories generated from the specification are executed on the real library "
        "on several backends and every event of the recorded traces is judged by TLC against the specification. Bounded: holds for the histories explored. "
        "Trusts TLC, the harness and the Rust toolchain.")
out = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in checks.Q:
        q = checks.Q[i]
        out["checks"].append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                              "technique": q.get("technique") or "TLA+ specification model-checked with TLC; specification-generated histories executed on the real code, traces validated against the specification",
                              "level": q["level"], "level_note": q.get("note") or NOTE})
    else:
        out["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks")
