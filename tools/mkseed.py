#!/usr/bin/env python3
"""Development aid: makes seeded/<id>/ from a spec file: python literal dict(id,property,file,edits=[(old,new[,nth])],needs,breaks,demo)."""
import sys, os, subprocess, json, shutil
def make(id, property, edits, needs, breaks, demo):
    W = f"/tmp/mk-{id}"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    for f, old, new, *n in edits:
        p = f"{W}/{f}"; s = open(p).read()
        c = s.count(old)
        k = n[0] if n else None
        if k is None:
            assert c == 1, (id, f, c, old)
            s = s.replace(old, new)
        else:
            parts = s.split(old); assert len(parts) > k + 1, (id, f, c)
            s = old.join(parts[:k+1]) + new + old.join(parts[k+1:])
        open(p, "w").write(s)
    d = subprocess.run(["git", "diff"], cwd=W, stdout=subprocess.PIPE, text=True).stdout
    S = f"/verif/seeded/{id}"; os.makedirs(S, exist_ok=True)
    open(S + "/patch.diff", "w").write(d)
    open(S + "/demo.rs", "w").write(demo)
    shutil.copy("/verif/tools/demo.sh", S + "/demo.sh")
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(S + "/meta.json", "w"), indent=1)
    shutil.rmtree(W)
ns = {"make": make}
exec(open(sys.argv[1]).read(), ns)
