#!/usr/bin/env python3
"""Development aid: applies behaviour-preserving edits to a scratch copy of /repo and prints what the
analysis says about it. refac.py SPEC.py; SPEC defines E = [(file, old, new[, count]), ...]"""
import json, os, runpy, shutil, subprocess, sys
sys.argv.insert(1, "/dev/null")
spec = runpy.run_path(sys.argv[2]).get("E", [])
W = os.environ.get("RW", "/tmp/refac/w")
if os.environ.get("KEEP"):
    pass
elif os.path.exists(W):
    shutil.rmtree(W + "/src")
    shutil.copytree("/repo/src", W + "/src")
else:
    shutil.copytree("/repo", W, symlinks=True)
bad = 0
for e in spec:
    f, old, new = e[:3]
    n = e[3] if len(e) > 3 else 1
    p = f"{W}/src/{f}"
    s = open(p).read()
    if s.count(old) != n:
        print("EDIT", f, repr(old[:70]), "found", s.count(old)); bad += 1
        continue
    open(p, "w").write(s.replace(old, new))
# F = [(file, n, new)]: replaces the n-th `fn construct`/`fn try_parse` of the file; A = [(file, text)]
import re
for f, k, new in runpy.run_path(sys.argv[2]).get("F", []):
    p = f"{W}/src/{f}"
    s = open(p).read()
    m = list(re.finditer(r"^( *)fn (construct|try_parse)\(", s, re.M))[k]
    e = s.find("\n" + m.group(1) + "}\n", m.start()) + len(m.group(1)) + 3
    open(p, "w").write(s[:m.start()] + new + "\n" + s[e:])
for f, t in runpy.run_path(sys.argv[2]).get("A", []):
    open(f"{W}/src/{f}", "a").write(t)
SYS = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip()
out, t = "/tmp/refac/units", "/tmp/refac/t"
for f in (out,):
    if os.path.exists(f): os.remove(f)
env = dict(os.environ, LD_LIBRARY_PATH=SYS + "/lib", RUSTC_WORKSPACE_WRAPPER="/verif/flow/target/release/flow", FLOW_OUT=out, RUST_MIN_STACK=str(512 << 20))
subprocess.run(["find", t, "-name", "*neure*", "-prune", "-exec", "rm", "-rf", "{}", "+"], stderr=subprocess.DEVNULL)
r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--target-dir", t], cwd=W, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
L = open(out).read().splitlines() if os.path.exists(out) else []
if not L or L[-1] != '{"done":true}':
    print(r.stdout[-6000:]); sys.exit(1)
n = 0
for l in L[:-1]:
    u = json.loads(l); n += 1
    for f in u["findings"]:
        print("FINDING", f["property"], u["unit"], "|", f["what"])
    if u["status"] != "ok":
        print("UNDECIDED", u["unit"], "|", u["status"][:300])
print(n, "units", bad, "bad edits")
if os.environ.get("TESTS"):
    sys.exit(subprocess.run(["cargo", "test", "--offline", "-q"], cwd=W).returncode)
