#!/usr/bin/env python3
"""Development aid: recounts the units per property and configuration; the committed floors are half these numbers: a guard against an analysis that finds nothing to look at."""
import sys, os, collections, pprint
sys.argv = ["check.py", "C01"]
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(ROOT + "/check.py").read().replace("\nmain()\n", "\n")
ns = {"__file__": ROOT + "/check.py", "__name__": "x"}
exec(compile(src, "check.py", "exec"), ns)
out = {}
for cfg in ns["CONFIGS"]:
    units, err, _ = ns["analyse"](cfg)
    if cfg in ("default", "alloc", "bare"):
        units += ns["appended"](cfg, ROOT + "/macros/cases.rs")[0]
    assert not err, err
    c = collections.Counter()
    for u in units:
        for p in set(u["props"]) | {u["own"]}:
            c[p] += 1
    out[cfg] = {k: max(1, v // 2) for k, v in sorted(c.items())}
open(ROOT + "/tools/floors.py", "w").write("# Units per property, counted on the reviewed tree (tools/mkfloors.py).\nFLOORS = " + pprint.pformat(out, compact=True, width=110) + "\n")
