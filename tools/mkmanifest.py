#!/usr/bin/env python3
"""Writes MANIFEST.json from vf/props.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from vf import props
NA = {}
nap = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(nap): NA = json.load(open(nap))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "the check is still being built; no claim is made yet")})
m["notes"] = "Checks build the library and the harnesses out of tree (/verif/build) from /repo's working tree; no hooks in /repo are needed."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
