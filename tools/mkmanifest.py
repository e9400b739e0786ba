#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks in gen/props.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path[:0] = [os.path.join(V, "gen")]
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": "explicit TLA+ specification (spec/) explored and trace-checked with TLC: " + P.technique, "level": "model_checking", "level_note": P.note})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check has been built for it yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
