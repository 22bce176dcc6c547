#!/usr/bin/env python3
"""Development aid: mutates /repo's source (in scratch copies) and lists the mutants that compile and
pass the tests but that no rule reports. mutate.py OUT.jsonl N SEED [file filter]"""
import json, os, random, re, shutil, subprocess, sys, threading, queue, hashlib

OUT, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
FILT = sys.argv[4] if len(sys.argv) > 4 else ""
W = int(os.environ.get("WORKERS", "6"))
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = "/verif"
MD = os.environ.get("MUTD", "/tmp/mut")

OPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" \+ ", " - "), (r" - ", " + "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bis_ok\(\)", "is_err()"), (r"\bis_err\(\)", "is_ok()"), (r"\bis_some\(\)", "is_none()"), (r"\bis_none\(\)", "is_some()"),
    (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r" \+= ", " -= "), (r" \+= ", " = "),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.first\(", ".last("), (r"\.last\(", ".first("),
    (r"\bbeg\b", "end"), (r"\bend\b", "beg"), (r"\bleft\b", "right"), (r"\bright\b", "left"), (r"\bopen\b", "close"), (r"\bclose\b", "open"),
    (r"\bsep\b", "pat"), (r"\bpat\b", "sep"), (r"\.offset\(\)", ".len()"), (r"\.len\(\)", ".offset()"),
    (r"\btry_parse\b", "parse"), (r"\bEquals?\b", "Less"), (r"\bGreater\b", "Less"), (r"\bunwrap_or_default\b", "unwrap"),
    (r"\bOk\((\w+)\)", r"Err(\1)"), (r"to_le_bytes|from_le_bytes", "from_be_bytes"), (r"from_be_bytes", "from_le_bytes"),
    (r"\bSome\((\w+)\)$", "None"), (r"\.next\(\)", ".next_back()"), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"),
    (r"\bint\b", "0"), (r"\.\.=", ".."), (r"(?<!\.)\.\.(?![.=}])", "..="), (r"\bIncluded\b", "Excluded"), (r"\bExcluded\b", "Included"),
    (r"Error::(\w+)", "Error::Other"), (r"\bUnexpect\b", "Null"), (r"process_ret\((.*)\)$", r"\1"), (r"\?;", ".ok();"), (r"\?\)", ".unwrap())"),
    (r"\bself\.skip\b", "!self.skip"), (r"\bself\.min\b", "0"), (r"\bself\.opt\b", "false"), (r"try_mat\b", "try_mat_policy"), (r"\bset_offset\((.*?)\)", "inc(0)"),
    (r"\breset\(\)", "beg()"), (r"(\w+)\.0\b", r"\1.1"), (r"(\w+)\.1\b", r"\1.0"), (r"_ltm\b", ""), (r"\bM\b", "N"), (r"\bN\b", "M"),
    (r"\bl\b", "r"), (r"\br\b", "l"), (r"\((\w+), (\w+)\)", r"(\2, \1)"), (r"\b(\w+)\.clone\(\), (\w+)", r"\2.clone(), \1"),
]

def mutants():
    res = []
    for d, _, fs in os.walk("/repo/src"):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = p[len("/repo/"):]
            if FILT and not re.search(FILT, rel):
                continue
            if rel in ("src/log.rs",):
                continue
            lines = open(p).read().split("\n")
            test = False
            for i, l in enumerate(lines):
                s = l.strip()
                if s.startswith("#[cfg(test)]"):
                    test = True
                if test or not s or s.startswith(("//", "#", "use ", "pub use", "crate::trace", "crate::debug", "trace_", "debug_", "neure_")) or "trace" in s or "debug_regex" in s:
                    continue
                if re.search(r"\b(where|impl|fn|struct|trait|type|enum|mod)\b", s) and "let" not in s:
                    continue
                for a, b in OPS:
                    for m in re.finditer(a, l):
                        if l[: m.start()].count('"') % 2:
                            continue
                        n = l[: m.start()] + m.expand(b) + l[m.end():]
                        if n != l:
                            res.append((rel, i, l, n))
                if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "}", "break", "continue")) and s.count("(") == s.count(")") and re.match(r"[a-z_\.\*]+[\w\.\[\]]*( \+?= |\(|\.)", s):
                    res.append((rel, i, l, ""))
    seen = set()
    out = []
    for m in res:
        k = (m[0], m[1], m[3])
        if k not in seen:
            seen.add(k)
            out.append(m)
    random.Random(SEED).shuffle(out)
    return out[:N] if N else out

def sh(cmd, cwd, env=None, t=300):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=env)
    except subprocess.TimeoutExpired:
        return None

SYS = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip()
DRV = os.environ.get("DRV", ROOT + "/flow/target/release/flow")

def driver(w, t):
    env = dict(os.environ)
    out = t + ".units"
    if os.path.exists(out):
        os.remove(out)
    env.update(LD_LIBRARY_PATH=SYS + "/lib", RUSTC_WORKSPACE_WRAPPER=DRV, FLOW_OUT=out, RUST_MIN_STACK=str(512 << 20))
    subprocess.run(["find", t, "-name", "*neure*", "-prune", "-exec", "rm", "-rf", "{}", "+"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = sh(["cargo", "+nightly", "check", "--offline", "--lib", "--target-dir", t], w, env)
    if r is None:
        return None, "timeout"
    L = open(out).read().splitlines() if os.path.exists(out) else []
    if not L or L[-1] != '{"done":true}':
        return None, "compile" if "error" in r.stdout else r.stdout[-500:]
    return [json.loads(x) for x in L[:-1]], None

def tests(w, idx):
    e = open("/opt/vp/env.sh").read().replace("/repo", w)
    open(f"{MD}/env{idx}.sh", "w").write(e)
    for n in ("build", "test"):
        s = open(f"/opt/vp/{n}.sh").read().replace("/repo", w).replace("/opt/vp/env.sh", f"{MD}/env{idx}.sh")
        open(f"{MD}/{n}{idx}.sh", "w").write(s)
    r = sh(["bash", f"{MD}/build{idx}.sh"], w)
    if r is None or r.returncode:
        return "build"
    o = f"{MD}/out{idx}.json"
    if os.path.exists(o):
        os.remove(o)
    r = sh(["bash", f"{MD}/test{idx}.sh", o], w, t=400)
    if r is None or not os.path.exists(o):
        return "tests time out"
    p = set(json.load(open(o))["passed"])
    miss = [x for x in BASE if x not in p]
    return "fails " + miss[0] if miss else "pass"

def work(idx, q, res, lock):
    w = f"{MD}/w{idx}"
    if not os.path.exists(w):
        shutil.copytree("/repo", w, symlinks=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=w)
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        rel, i, old, new = m
        p = w + "/" + rel
        src = open("/repo/" + rel).read().split("\n")
        src[i] = new
        open(p, "w").write("\n".join(src))
        try:
            units, err = driver(w, f"{MD}/t{idx}")
            rec = {"file": rel, "line": i + 1, "old": old.strip(), "new": new.strip()}
            if units is None:
                rec["res"] = "no build" if err == "compile" else "driver: " + err
            else:
                fs = [(f["property"], u["unit"], f["what"]) for u in units for f in u["findings"]]
                und = [(u["unit"], u["status"][:200]) for u in units if u["status"] != "ok"]
                rec["und"] = und
                if fs:
                    rec["res"] = "caught"
                    rec["by"] = fs[:4]
                    if os.environ.get("ALLTESTS"):
                        rec["tests"] = tests(w, idx)
                else:
                    rec["res"] = "MISSED" if (t := "pass" if os.environ.get("RETRY") else tests(w, idx)) == "pass" else "tests: " + t
        finally:
            shutil.copy("/repo/" + rel, p)
        with lock:
            res.write(json.dumps(rec) + "\n")
            res.flush()

def main():
    os.makedirs(MD, exist_ok=True)
    ms = mutants()
    if os.environ.get("RETRY"):
        want = set()
        for l in open(os.environ["RETRY"]):
            d = json.loads(l)
            if d["res"] == "MISSED":
                want.add((d["file"], d["line"], d["new"]))
        ms = [m for m in ms if (m[0], m[1] + 1, m[3].strip()) in want]
    print(len(ms), "mutants")
    q = queue.Queue()
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    for m in ms:
        if (m[0], m[1] + 1, m[3].strip()) not in done:
            q.put(m)
    lock = threading.Lock()
    with open(OUT, "a") as res:
        th = [threading.Thread(target=work, args=(k, q, res, lock)) for k in range(W)]
        [t.start() for t in th]
        [t.join() for t in th]

if __name__ == "__main__":
    main()
