#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py and registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from props import P
from registry import PROPS, HOOKS, NOT_APPLICABLE
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in P]
m = dict(version=1, setup_cmd="python3 check.py --setup", hooks=HOOKS, checks=[], not_applicable=[],
         notes="Every check rebuilds the library from /repo's working tree (sanitized) and enumerates a bounded space "
               "exhaustively on the real code, against an independent reference model.")
for i in ids:
    if i in PROPS:
        q = PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                                thorough_cmd="python3 check.py %s --tier thorough" % i,
                                evidence_file="evidence/%s.json" % i,
                                technique=q["technique"], level=q["level"], level_note=q["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE[i] if i in NOT_APPLICABLE else
                                        "check not built yet"))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
