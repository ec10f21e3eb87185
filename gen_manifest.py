#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that has scenarios is claimed, the others are listed with a reason."""
import json, re, subprocess, sys, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {
    "default": "stateless model checking of the real code: exhaustive enumeration of schedules (deviation-bounded, happens-before state pruning), inputs and timer firings under a controlled scheduler",
}
NOTE = ("Every schedule of the listed scenarios within the deviation bound, every enumerated input, with the real kameo, and real tokio channels behind scheduling points. "
        "Trusted: the scheduler and the tokio shim of /verif, sequentially consistent interleavings at synchronisation operations, small actor counts and message counts.")
SPECIAL = json.load(open(V + "/manifest_notes.json")) if os.path.exists(V + "/manifest_notes.json") else {}
claimed = set(sys.argv[1:])
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        s = SPECIAL.get(i, {})
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": s.get("technique", TECH["default"]),
                       "level": "model_checking", "level_note": s.get("note", NOTE)})
    else:
        na.append({"property": i, "reason": SPECIAL.get(i, {}).get("na", "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: kameo is built unmodified against a tokio look-alike patched in by the harness crates", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "check.sh builds the harness from /repo's working tree and runs it; see DESIGN.md. Known findings and fixed defects: KNOWN_FINDINGS.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
