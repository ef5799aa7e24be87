#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property for /repo's current tree.
check.py --replay FILE: re-runs a saved failure.

Exit 0: the property held on everything generated. Exit 1 and a VIOLATION line: it is broken.
Exit 3: the check could not be built or run."""
import json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import checks, vbuild, sym
VERIF = vbuild.VERIF

def known_findings(prop):
    """Lines 'known: property=P01 sig=<sig> text=<text in the failure> | <what fails>'."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if not os.path.exists(p):
        return out
    for l in open(p):
        l = l.strip()
        if not l.startswith("known:") or ("property=%s " % prop) not in l:
            continue
        head, _, what = l.partition(" | ")
        sig = head.split("sig=", 1)[1].split(" ", 1)[0]
        text = head.split("text=", 1)[1].strip() if "text=" in head else ""
        out.append((sig + ("@" + text if text else ""), what))
    return out

def build(names):
    targets = []
    for n in names:
        kind, mods, extra = checks.HARNESSES[n]
        targets.append((n, kind, mods, extra))
    return vbuild.build(targets)

def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 3
    if sys.argv[1] == "--setup":
        ok = True
        for n in checks.HARNESSES:
            ok = build([n]) is not None and ok
        return 0 if ok else 1
    if sys.argv[1] == "--replay":
        path = sys.argv[2]
        harness = None
        for l in open(path, errors="replace"):
            if l.startswith("# harness "):
                harness = l.split()[2]
        outs = build([harness])
        if not outs:
            return 3
        r = subprocess.run([outs[harness], "--replay", path], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        print(sym.resolve(outs[harness], r.stdout))
        return r.returncode
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    runs = checks.CHECKS[prop]
    names = []
    for r in runs:
        if r[0] not in names:
            names.append(r[0])
    outs = build(names)
    if not outs:
        print("ERROR: the harness does not build")
        return 3
    print("built in %.1f s" % (time.time() - start), flush=True)
    if tier == "thorough":
        total = checks.THOROUGH_S
    else:
        total = checks.QUICK_OVERRIDE.get(prop, checks.QUICK_S)
    total = float(os.environ.get("VERIF_TIME", total))
    known = known_findings(prop)
    for sig, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    shares = sum(r[2] for r in runs)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": checks.RULES.get(prop, ""),
           "samples": [], "tests": []}
    violations = 0
    broken = False
    rdir = os.path.join(vbuild.BUILD, "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    for i, (name, tests, share) in enumerate(runs):
        out_json = os.path.join(rdir, "%d.json" % i)
        cmd = [outs[name], "--test", ",".join(tests), "--time", "%.2f" % (total * share / shares),
               "--seed", str(seed), "--out", out_json, "--replay-dir", rdir,
               "--shrink-time", "60" if tier == "thorough" else "25"]
        if tier == "thorough":
            cmd.append("--thorough")
        if prop in checks.LEAKS:
            cmd.append("--leaks")
            for sig in checks.LEAKS[prop]:
                cmd += ["--focus", sig]
        for sig, _ in known:
            cmd += ["--known", sig]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", stdin=subprocess.DEVNULL)
        sys.stdout.write(sym.resolve(outs[name], r.stdout))
        sys.stdout.flush()
        try:
            res = json.load(open(out_json))
        except Exception as e:
            print("ERROR: %s gave no result: %s" % (name, e))
            broken = True
            continue
        if r.returncode not in (0, 1):
            print("ERROR: %s exited with %d" % (name, r.returncode))
            broken = True
        for t in res["tests"]:
            cov["evaluations"] += t["evaluations"]
            cov["distinct_nontrivial"] += t["distinct_nontrivial"]
            n = 3 if len(tests) < 3 else 1
            for s in t["samples"][:n]:
                cov["samples"].append("%s: %s" % (t["name"], s))
            info = {"harness": name, "test": t["name"], "evaluations": t["evaluations"],
                    "nontrivial": t["nontrivial"],
                    "distinct_nontrivial": t["distinct_nontrivial"], "classes": t["labels"],
                    "known_finding_hits": t["known_hits"],
                    "unconfirmed_failures": t["unconfirmed"], "wall_s": t["wall_s"]}
            f = t.get("failure")
            if f:
                violations += 1
                replay = f["replay"]
                info["failure"] = f
                try:
                    with open(replay, "a") as rf:
                        rf.write("# harness %s\n# property %s\n" % (name, prop))
                        rf.write("# sig %s\n" % f["sig"])
                        for l in sym.resolve(outs[name], f["msg"]).splitlines():
                            rf.write("# %s\n" % l)
                except Exception:
                    pass
                print("%s: %s" % (f["sig"], sym.resolve(outs[name], f["msg"])))
                print("VIOLATION property=%s replay=%s" % (prop, replay))
            cov["tests"].append(info)
        if violations:
            break
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": checks.ASSUMPTIONS.get(prop, []), "wall_s": round(time.time() - start, 2),
          "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if violations:
        return 1
    if broken or cov["evaluations"] == 0:
        return 3
    print("%s held on %d cases, %d distinct non-trivial" % (prop, cov["evaluations"],
                                                            cov["distinct_nontrivial"]))
    return 0

if __name__ == "__main__":
    sys.exit(main())
