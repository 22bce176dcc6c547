#!/usr/bin/env python3
"""Development aid: probe.py REPO [cargo args]: runs the driver on a copy of the repository and prints what it reports."""
import json, os, subprocess, sys, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = sys.argv[1]
d = tempfile.mkdtemp(prefix="probe-")
sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip()
env = dict(os.environ, LD_LIBRARY_PATH=sysroot + "/lib", RUSTC_WORKSPACE_WRAPPER=ROOT + "/flow/target/release/flow", FLOW_OUT=d + "/u")
out = ""
ls = []
for k, e in enumerate((env, dict(env, FLOW_APPEND=ROOT + "/macros/cases.rs"))):
    e["FLOW_OUT"] = d + "/u%d" % k
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--target-dir", d + "/t%d" % k] + sys.argv[2:], cwd=repo, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    l = open(d + "/u%d" % k).read().splitlines() if os.path.exists(d + "/u%d" % k) else []
    if not l or l[-1] != '{"done":true}':
        print("NO VERDICT", r.stdout[-1500:]); sys.exit(2)
    ls += l[:-1]
shutil.rmtree(d)
n = 0
for l in ls:
    u = json.loads(l); n += 1
    if u["status"] != "ok":
        print("INCOMPLETE", u["own"], u["unit"], u["status"][:400])
    for f in u["findings"]:
        print(f["property"], u["unit"], u["file"], "|", f["what"])
        if os.environ.get("V"): print("     ", f["detail"][:2500])
print(n, "units")
