#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import props
NA = getattr(props, "NOT_APPLICABLE", {})
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in props.CHECKS:
        c = props.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "bin/check %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough bin/check %s" % i,
                       "technique": c.get("technique", "TLA+ specification checked with TLC; traces recorded from the real code validated against it"),
                       "level": "model_checking",
                       "level_note": c.get("note", "The specification is checked exhaustively within the constants in the evidence; the code is bound to it on every recorded run, so code paths no run reaches are not covered.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is observed through the public API of the crate and the server's HTTP interface. known_findings.txt lists repaired defects."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
