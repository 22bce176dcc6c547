#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property on /repo's current tree by static analysis.

The analysis driver (flow/) is a rustc driver; `cargo +nightly check` is run on /repo in a fresh
target directory with the driver in place of rustc, which analyses the MIR of the library and
writes one JSON line per analysed function (unit). Nothing of /repo is executed.
"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
DRIVER = ROOT + "/flow/target/release/flow"
sys.path.insert(0, ROOT + "/tools")
import props as P  # noqa: E402
import floors as F  # noqa: E402

CONFIGS = {
    "default": [],
    "log": ["--features", "log"],
    "tracing": ["--features", "tracing"],
    "alloc": ["--no-default-features", "--features", "alloc"],
    "bare": ["--no-default-features"],
}


def build_driver():
    src = max(os.path.getmtime(os.path.join(d, f)) for d, _, fs in os.walk(ROOT + "/flow/src") for f in fs)
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= src:
        return
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=ROOT + "/flow", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-3000:])
        sys.exit("cannot build the driver")


def attribute(stdout, first, cases):
    """Which lines of the appended file the compiler's errors are about: {line: message}; None in the
    keys for an error that is not about a case."""
    bad = {}
    for l in stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        m = m.get("message") if m.get("reason") == "compiler-message" else None
        if not m or m.get("level") != "error" or m["message"].startswith("aborting"):
            continue
        at = None
        for sp in m["spans"]:
            while sp:
                n = sp["line_start"] - first
                if sp["file_name"].endswith("src/lib.rs") and 0 <= n < len(cases) and cases[n].startswith("pub fn "):
                    at = n
                sp = (sp.get("expansion") or {}).get("span")
        text = m.get("rendered") or m["message"]
        if at is not None and "Parts" in text:
            text = None  # another type than the cases know about: nothing can be said
        bad.setdefault(at, text)
    return bad


def appended(cfg, path):
    """The macro cases: the appended functions that do not compile are findings of their own, the others
    are analysed without them."""
    cases = open(path).read().split("\n")
    first = open(REPO + "/src/lib.rs").read().count("\n") + 1
    names = [l.split("(")[0].split()[-1] if l.startswith("pub fn ") else "" for l in cases]
    extra = []
    for _ in range(3):
        units, err, out = analyse(cfg, append="\n".join(cases))
        if not err:
            return units + extra, None
        bad = attribute(out, first, cases)
        if None in bad or not bad:
            if bad.get(None) and analyse(cfg)[1] is None:  # the crate is fine, the cases do not fit it
                return extra + [dict(unit="macro cases", file=path, rule="macro", own="C30", props=["C30"], status="the cases do not fit the crate: " + bad[None][:300], stats={}, oblig={}, opaque=[], findings=[])], None
            return [], err
        for n, text in bad.items():
            form = cases[n].split("{ ", 1)[-1]
            u = dict(unit="macro " + names[n], file=f"{path}:{n + 1}", rule="macro " + names[n], own="C30", props=["C30"], status="ok", stats={}, oblig={}, opaque=[], findings=[])
            if text is None:
                u["status"] = "the value is of a type the case does not know"
            else:
                u["findings"] = [dict(property="C30", what="the notation is not accepted", detail=form + "\n" + text)]
            extra.append(u)
            cases[n] = ""
    return [], "the macro cases do not compile"


def driver_env(**k):
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip()
    env = dict(os.environ)
    for x in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "FLOW_ROOT", "FLOW_TRACE", "FLOW_APPEND", "FLOW_API"):
        env.pop(x, None)
    env.update(LD_LIBRARY_PATH=sysroot + "/lib", RUSTC_WORKSPACE_WRAPPER=DRIVER, RUST_MIN_STACK=str(512 << 20), **k)
    return env


def analyse(cfg, append=None, args=None):
    """Runs the driver on one feature configuration: (units, error, compiler output)."""
    d = tempfile.mkdtemp(prefix="flow-")
    out = d + "/units"
    try:
        env = driver_env(FLOW_OUT=out)
        more = []
        if append is not None:
            open(d + "/append.rs", "w").write(append)
            env["FLOW_APPEND"] = d + "/append.rs"
            more = ["--message-format=json"]
        r = subprocess.run(
            ["cargo", "+nightly", "check", "--offline", "--lib", "--target-dir", d + "/t"] + more + (CONFIGS[cfg] if args is None else args),
            cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800,
        )
        lines = open(out).read().splitlines() if os.path.exists(out) else []
        if not lines or lines[-1] != '{"done":true}':
            return [], "the analysis did not finish: " + r.stdout[-2500:], r.stdout
        return [json.loads(x) for x in lines[:-1]], None, r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def combos():
    """Every feature combination of which none implies another: name -> (features, cargo arguments)."""
    out = {}
    for lib in ([], ["alloc"], ["std"]):
        for log in ([], ["log"], ["tracing"]):  # the two exclude each other
            fs = lib + log
            have = set(fs) | ({"alloc"} if "std" in fs else set())
            out["+".join(fs) or "bare"] = (have, ["--no-default-features"] + (["--features", ",".join(fs)] if fs else []))
    return out


def offers(args):
    """What the library offers with these features: ({item: {signature: place}}, error)."""
    d = tempfile.mkdtemp(prefix="flow-")
    try:
        env = driver_env(FLOW_API=d + "/api")
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--target-dir", d + "/t"] + args,
                           cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
        lines = open(d + "/api").read().splitlines() if os.path.exists(d + "/api") else []
        if r.returncode != 0 or not lines or lines[-1] != '{"done":true}':
            at = r.stdout.find("error")
            return {}, r.stdout[at if at >= 0 else -1500:][:1500]
        items = {}
        for l in lines[:-1]:
            x = json.loads(l)
            items.setdefault(x["item"], {})[x["sig"]] = x["file"]
        return items, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def features(pid, thorough):
    """C32: (violations, undecided, coverage, samples)."""
    cs = combos()
    cfgs = dict(CONFIGS)
    if thorough:
        cfgs.update({k: v[1] for k, v in cs.items() if len(k.split("+")) > 1})
    viol, und, n = [], [], dict(units=0, obligations=0)
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        runs = {c: ex.submit(analyse, c, None, a) for c, a in cfgs.items()}
        apis = dict(zip(cs, ex.map(lambda c: offers(c[1]), cs.values())))
        runs = {c: r.result() for c, r in runs.items()}
    for c, (items, err) in apis.items():
        n["obligations"] += 1
        if err:
            viol.append((c, "features " + c, "the library does not build with these features", err))
    for a, (fa, _) in cs.items():
        ia, err = apis[a]
        if err:
            continue
        for cr, ok in (("std", "std" in fa or "log" in fa or "tracing" in fa), ("alloc", "alloc" in fa or "log" in fa or "tracing" in fa)):
            n["obligations"] += 1
            if not ok and "crate " + cr in ia:
                viol.append((a, "features " + a, f"the crate {cr} is used without the feature that stands for it", ""))
        for b, (fb, _) in cs.items():
            ib, err = apis[b]
            # one feature more at a time
            if err or not fa < fb or any(fa < x < fb for x, _ in cs.values()):
                continue
            more = "+".join(sorted(fb - fa))
            for it, sigs in ia.items():
                if it.startswith("crate ") or "MayDebug" in it:
                    continue
                n["obligations"] += 1
                if it not in ib:
                    viol.append((b, it + " at " + next(iter(sigs.values())), f"offered without, but not with the feature {more}", f"offered with {a}, not with {b}"))
                elif not set(sigs) <= set(ib[it]):
                    viol.append((b, it + " at " + next(iter(sigs.values())), f"changed by the feature {more}", f"{a}: {sorted(sigs)}\n{b}: {sorted(ib[it])}"))
    base, err, _ = runs["default"]
    if err:
        viol.append(("default", "-", "no verdict", err))
    had = {(f["property"], u["unit"], f["what"]) for u in base for f in u["findings"]}
    samples = [{"features": c, "offers": len(apis[c][0])} for c in cs]
    for c, (units, err, _) in runs.items():
        n["units"] += len(units)
        n["obligations"] += sum(sum(u["oblig"].values()) for u in units)
        if err:
            viol.append((c, "features " + c, "no verdict", err))
        elif c != "default":
            if 2 * len(units) < len(base):
                viol.append((c, "features " + c, "most functions are missing", f"{len(units)} of {len(base)}"))
            ok = {u["unit"] for u in base if u["status"] == "ok"}
            for u in units:
                for f in u["findings"]:
                    k = (f["property"], u["unit"], f["what"])
                    if k not in had:
                        viol.append((c, u["unit"] + " at " + u["file"], f"with these features, unlike the default: {f['property']}: {f['what']}", f["detail"]))
                if u["status"] != "ok" and u["unit"] in ok:
                    und.append(f"[{c}] {u['unit']} at {u['file']}: {u['status'][:300]}")
    return viol, und, n, samples, list(cs), list(cfgs)


def known():
    """Exact keys of recorded findings: (property, config-independent unit, what)."""
    ks = {}
    p = ROOT + "/known-findings.txt"
    for l in open(p) if os.path.exists(p) else []:
        if l.startswith("finding: "):
            d = json.loads(l[len("finding: "):])
            ks[(d["property"], d["unit"], d["what"])] = d["why"]
    return ks


def main():
    t0 = time.time()
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv[2:]
    prop = next(p for p in P.PROPS if p["id"] == pid)
    build_driver()
    if not os.path.exists(REPO + "/Cargo.lock") and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", REPO + "/Cargo.lock")  # ignored by git, as /opt/vp/build.sh does
    cfgs = prop.get("all_configs", list(CONFIGS)) if thorough else ["default"]
    if prop.get("features"):
        cfgs = []
    viol, undecided, kf = [], [], []
    cover = {}
    ks = known()
    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        if "append" in prop:
            res = dict(zip(cfgs, ex.map(lambda c: appended(c, ROOT + "/" + prop["append"]), cfgs)))
        else:
            res = dict(zip(cfgs, ex.map(lambda c: analyse(c)[:2], cfgs)))
    samples, tot = [], dict(units=0, exits=0, loop_heads=0, passes=0, steps=0, obligations=0)
    rules = {}
    if prop.get("features"):
        viol, undecided, more, samples, combs, cfgs = features(pid, thorough)
        tot.update(more)
        cover = {"offer_compared": combs, "analysed": cfgs}
    for cfg in cfgs if not prop.get("features") else []:
        units, err = res[cfg]
        if err:
            viol.append((cfg, "-", "no verdict", err))
            continue
        mine = [u for u in units if pid in u["props"] or u["own"] == pid or any(f["property"] == pid for f in u["findings"])]
        n = len(mine)
        cover[cfg] = {"functions_analysed": n, "functions_in_crate_run": len(units)}
        floor = F.FLOORS.get(cfg, {}).get(pid, 1)
        if n < floor:
            viol.append((cfg, "-", "too few functions found to analyse", f"{n} functions carry this property, at least {floor} are expected: an implementation the rule is anchored on has gone"))
        for u in mine:
            tot["units"] += 1
            for k in ("exits", "loop_heads", "passes", "steps"):
                tot[k] += u["stats"].get(k, 0)
            ob = sum(u["oblig"].values())
            tot["obligations"] += ob
            rules[u["rule"]] = rules.get(u["rule"], 0) + 1
            if ob and len(samples) < 12 and (u["own"] == pid or len(mine) > 40):
                samples.append({"function": u["unit"], "at": u["file"], "rule": u["rule"], "obligations": u["oblig"], "exits": u["stats"].get("exits", 0), "status": u["status"]})
            if u["status"] != "ok":
                undecided.append(f"[{cfg}] {u['unit']} at {u['file']}: {u['status'][:300]}")
            for f in u["findings"]:
                if f["property"] != pid:
                    continue
                key = (pid, u["unit"], f["what"])
                if key in ks:
                    kf.append((u["unit"], f["what"], ks[key]))
                else:
                    viol.append((cfg, u["unit"] + " at " + u["file"], f["what"], f["detail"]))
    ev = {
        "property": pid,
        "tier": "thorough" if thorough else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the MIR of /repo's current tree, nothing executed: " + prop["technique"]
            + ". Per function: all paths to all exits, loops to a fixpoint; an obligation is one check of the rule at an exit, call or store.",
            "configurations": cover,
            "totals": tot,
            "rules": rules,
            "samples": samples,
            "undecided": undecided,
            "known_findings": len(set(kf)),
        },
        "assumptions": [
            "user-supplied sub-patterns, handlers, mappers and closures obey the contract of the trait they implement and do not panic",
            "the position lies inside the input on entry (context invariant)",
            "models of the standard library functions used (flow/src/models.rs)",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    with open(f"{ROOT}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for n in undecided[:20]:
        print(f"UNDECIDED property={pid} (not covered by the verdict) {n}")
    for u, w, why in sorted(set(kf)):
        print(f"KNOWN-FINDING: property={pid} {u}: {w} ({why})")
    print(f"{pid}: {prop['title']}: {tot['units']} functions, {tot['exits']} exits, {tot['obligations']} obligations in {', '.join(cfgs)}")
    if viol:
        rp = f"{ROOT}/evidence/{pid}.violations.txt"
        with open(rp, "w") as f:
            for c, u, w, d in viol:
                f.write(f"[{c}] {u}\n  rule broken: {pid} {prop['title']}\n  {w}\n  {d}\n\n")
        for c, u, w, d in viol[:20]:
            print(f"  [{c}] {u}: {w}")
            print("      " + d[:1200])
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    sys.exit(0)


main()
