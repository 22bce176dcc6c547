#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (tools/props.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
        assert len(p["title"]) <= 80, p["id"]
NOTE = ("Decided for every path of every analysed function, with loops taken to a fixpoint; sub-patterns, handlers and user closures are "
        "opaque and assumed to obey the same contract (compositional). Trusts rustc's MIR, the models of the std functions used, and the driver itself.")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']}",
        "thorough_cmd": f"python3 check.py {p['id']} --thorough",
        "technique": p["technique"],
        "level": "other",
        "level_note": p.get("note", NOTE),
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "Static analysis only: a rustc driver (flow/) analyses the MIR of /repo's current tree; nothing of /repo is executed. See DESIGN.md.",
}
with open(root + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
