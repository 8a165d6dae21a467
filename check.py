#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current source. See DESIGN.md, 'What a check does'."""
import json, os, subprocess, sys, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "proof"))

CASES = {"quick": 100000, "thorough": 4000000}
SECS = {"quick": 12, "thorough": 240}
PURE_CASES = {"quick": 5000000, "thorough": 40000000}


def build_rtcheck():
    d = os.path.join(HERE, "rtcheck")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d, capture_output=True, text=True)
    exe = os.path.join(d, "target", "debug", "rtcheck")
    return (exe if r.returncode == 0 and os.path.exists(exe) else None), r.stderr


def bounded(exe, prop, seed, cases, secs, out):
    r = subprocess.run([exe, "run", prop, str(seed), str(cases), str(secs), out], capture_output=True, text=True)
    res = {"found": None, "samples": [], "cases": 0, "distinct": 0, "ops": 0, "checkpoints": 0, "longest": 0}
    for l in r.stdout.splitlines():
        if l.startswith("STATS"):
            for w in l.split()[1:]:
                k, v = w.split("=")
                res[k] = float(v) if k == "wall" else int(v)
        elif l.startswith("SAMPLE"):
            res["samples"].append(l[7:])
        elif l.startswith("FOUND"):
            res["found"] = l[6:]
            with open(os.path.join(out, "found")) as f:
                res["case"] = f.read()
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in CASES:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = os.path.join(HERE, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)

    exe, err = build_rtcheck()
    cases = (PURE_CASES if prop in ("C12", "C13", "C14") else CASES)[tier]
    b = None
    if exe:
        b = bounded(exe, prop, seed, cases, SECS[tier], os.path.join(work, "rt"))

    import verify
    pr = verify.prove(prop, REPO, os.path.join(work, "proof"), tier)
    if pr["status"] == "failed" and exe and not b["found"]:
        # an obligation that holds on the unchanged tree is not discharged: look for an input
        for i in range(1, 4):
            b2 = bounded(exe, prop, seed + 1000 * i, cases * 10, 20 if tier == "quick" else 120, os.path.join(work, "rt%d" % i))
            for k in ("cases", "distinct", "ops", "checkpoints"):
                b[k] += b2[k]
            if b2["found"]:
                b["found"], b["case"] = b2["found"], b2["case"]
                break

    violation = None
    replay = os.path.join("replays", prop + ".txt")
    rp = os.path.join(HERE, replay)
    if os.path.exists(rp):
        os.remove(rp)
    if b and b["found"]:
        with open(rp, "w") as f:
            f.write(b["case"])
            f.write("# re-run: cd /verif && python3 check.py --replay %s\n" % replay)
            for o in pr.get("failed", []):
                f.write("# obligation not discharged: %s\n" % o)
        violation = "VIOLATION property=%s replay=%s" % (prop, replay)
    elif pr["status"] == "failed":
        with open(rp, "w") as f:
            f.write("property %s\n# no failing input was found; these obligations hold on the unchanged tree and are not discharged now:\n" % prop)
            for o in pr["failed"]:
                f.write("# %s\n" % o)
            f.write("\n" + pr.get("output", ""))
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)

    ev = {"property": prop, "tier": tier, "seed": seed, "violations": 1 if violation else 0, "assumptions": pr.get("assumptions", [])}
    cov = {}
    if b:
        cov.update({
            "evaluations": b["cases"],
            "distinct_nontrivial": b["distinct"],
            "rule": "bounded stand-in on the real crate: histories drawn from VERIF_SEED over 8 key and bounds types and 13 "
                    "occupancy settings plus an enumeration of histories of up to 7 operations on 3 keys, each with checkpoints "
                    "that evaluate the property's postconditions against a plain list; non-trivial: at least two operations "
                    "(stateless properties: every input counts), distinct by content",
            "samples": b["samples"],
            "bounded_operations": b["ops"],
            "bounded_checkpoints": b["checkpoints"],
            "bounded_longest_history": b["longest"],
        })
    else:
        cov["bounded_error"] = "the checker crate did not build against this tree: " + err[-600:]
        cov.update({"evaluations": 0, "distinct_nontrivial": 0, "rule": "none ran", "samples": []})
    if pr["status"] in ("proved", "failed"):
        ev["level"] = "proof"
        cov.update(pr["coverage"])
    else:
        ev["level"] = "exploration"
        if pr["status"] == "undecided":
            cov["proof_undecided"] = pr["reason"]
    ev["coverage"] = cov
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: proof %s%s; bounded %s cases, %s" % (
        prop, pr["status"], " (%s)" % pr["reason"] if pr.get("reason") else "",
        b["cases"] if b else 0, "failing input found" if b and b["found"] else "none fails"))
    for o in pr.get("failed", []):
        print("  not discharged: " + o)
    if b and b["found"]:
        print("  fails: " + b["found"][:500])
    if violation:
        print(violation)
        return 1
    return 0


def replay(path):
    exe, err = build_rtcheck()
    if not exe:
        print(err)
        return 2
    return subprocess.run([exe, "replay", path]).returncode


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main())
