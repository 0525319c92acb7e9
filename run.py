#!/usr/bin/env python3
"""run.py PROPERTY            decide one property (tier from VERIF_TIER)
run.py --replay FILE         replay a violation and print its trace
run.py --setup               build everything
run.py --conform             compare the simulated environment with the real kernel and libc (writes conformance.json)
"""
import json, os, subprocess, sys, tempfile, time, hashlib, shutil
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import mcbuild, checks

JOBS = os.environ.get("ELMC_JOBS") or str(min(8, os.cpu_count() or 1))
OUT = os.environ.get("ELMC_OUT") or V  # (development: experiments with other trees)


def known_findings():
    """{property: {signature: text}}; 'fixed:' lines suppress nothing."""
    k = {}
    try:
        for line in open(V + "/known_findings.txt"):
            line = line.strip()
            if line.startswith("known: "):
                w = line[7:].split(None, 2)
                k.setdefault(w[0].split("=", 1)[1], {})[w[1].split("=", 1)[1]] = w[2] if len(w) > 2 else ""
    except OSError:
        pass
    return k


def sh_json(path):
    with open(path) as f:
        return json.load(f)


def save_replay(prop, e, arg, tier, v, out):
    os.makedirs(OUT + "/replays", exist_ok=True)
    h = hashlib.sha256((e["sc"] + v["item"] + v["sig"]).encode()).hexdigest()[:10]
    p = "%s/replays/%s-%s-%s.json" % (OUT, prop, e["sc"], h)
    with open(p, "w") as f:
        json.dump({"property": prop, "bin": e["bin"], "scenario": e["sc"], "arg": arg, "tier": tier,
                   "bound": v["bound"], "rp": out.get("rp", ""), "rpmode": bool(e.get("rp")), "item": v["item"], "sig": v["sig"], "msg": v["msg"], "trace": v["trace"].split("\n")},
                  f, indent=1)
    return p


def run_one(binary, e, tier, known, cap, work):
    arg = e["targ"] if tier else e["arg"]
    bounds = e["thorough"] if tier else e["quick"]
    o = work + "/out.json"
    if os.path.exists(o):
        os.unlink(o)
    cmd = [binary, "--scenario", e["sc"], "--bounds", bounds, "--jobs", JOBS, "--cap", str(cap), "--out", o,
           "--arg", str(arg), "--tier", str(tier), "--work", work]
    if e.get("rp"):
        cmd.append("--rp")
    if e.get("only"):
        cmd += ["--only", e["only"]]
    for s in known:
        cmd += ["--known", s]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    try:
        r = sh_json(o)
    except Exception:
        r = None
    return p.returncode, r, p.stdout, arg


def check(prop):
    t0 = time.time()
    tier = 1 if os.environ.get("VERIF_TIER") == "thorough" else 0
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    plan = checks.PLAN[prop]
    try:
        bins = mcbuild.build(sorted({e["bin"] for e in plan}))
    except mcbuild.BuildError as ex:
        print("cannot build: %s" % ex)
        return 2
    known = known_findings().get(prop, {})
    work = tempfile.mkdtemp(prefix="elmc")
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0,
           "distinct_nontrivial": 0, "samples": [], "scenarios": [], "exhaustive": True}
    kf, viol = {}, None
    rc = 0
    budget = 10800 if tier else checks.QUICK_BUDGET
    try:
        for i, e in enumerate(plan):
            left = budget - (time.time() - t0)
            cap = max(5, int(min(left, e.get("tcap", 3600) if tier else e.get("cap", 120))))
            for attempt in (0, 1):
                c, r, txt, arg = run_one(bins[e["bin"]], e, tier, known, cap, work)
                if c in (0, 1) and r is not None:
                    break
            else:
                print(txt[-3000:])
                print("error: scenario %s of %s ended with %d %s" % (e["sc"], prop, c, r and r.get("error")))
                rc = 2
                break
            cov["states"] += r["states"]
            cov["transitions"] += r["transitions"]
            cov["traces_validated_against_impl"] += r["completed"]
            cov["evaluations"] += r["executions"] + r["cases"]
            cov["distinct_nontrivial"] += r["outcomes"] + r["distinct_cases"]
            done = bool(not r["capped"])
            cov["exhaustive"] = cov["exhaustive"] and done
            cov["scenarios"].append({k: r[k] for k in ("scenario", "arg", "bounds_done", "executions", "completed", "pruned",
                                                       "transitions", "states", "outcomes", "maxdepth", "threads",
                                                       "fault_executions", "cases", "distinct_cases", "wall", "capped")})
            if r.get("sample") and len(cov["samples"]) < 4:
                s = r["sample"]
                s = s if isinstance(s, list) else str(s).split("\n")
                cov["samples"].append({"scenario": r["scenario"], "outcomes": r["outcome_samples"][:6], "execution": s[:60]})
            print("%s %-18s arg=%d bounds [%s]: %d executions, %d complete, %d states, %d outcomes, %d cases, %.1f s%s" % (
                prop, r["scenario"], arg, r["bounds_done"], r["executions"], r["completed"], r["states"], r["outcomes"],
                r["cases"], r["wall"], "" if done else " (time limit)"))
            for k in r["known"]:
                kf[k["sig"]] = k
            if r["violation"]:
                viol = r["violation"]
                path = save_replay(prop, e, arg, tier, viol, r)
                print("%s: %s [%s]" % (r["scenario"], viol["msg"], viol["sig"]))
                print("\n".join(viol["trace"].split("\n")[-40:]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                rc = 1
                break
            sys.stdout.flush()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for s in sorted(kf):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, s, known.get(s, "")))
    cov["rule"] = ("every execution of the real code within the stated bounds (scheduling deviations,faults) is run; evaluations = "
                   "executions + enumerated data cases; distinct_nontrivial = distinct observed outcomes + distinct data cases; "
                   "traces_validated_against_impl = executions of the implementation itself that ran to the end (there is no "
                   "separate model of the code: transitions are steps of the code under test)")
    os.makedirs(OUT + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (OUT, prop), "w") as f:
        json.dump({"property": prop, "tier": "thorough" if tier else "quick", "seed": seed,
                   "level": checks.LEVEL.get(prop, "model_checking"), "coverage": cov,
                   "assumptions": checks.ASSUME, "violations": 1 if viol else 0, "wall_s": round(time.time() - t0, 2)}, f, indent=1)
    return rc


def replay(path):
    r = sh_json(path)
    bins = mcbuild.build([r["bin"]])
    w = tempfile.mkdtemp(prefix="elmc")
    try:
        return subprocess.run([bins[r["bin"]], "--scenario", r["scenario"], "--bounds", str(r["bound"]), "--arg", str(r["arg"]),
                               "--tier", str(r["tier"]), "--work", w, "--replay", r["item"], "--trace"] + (["--rp", "--rpset", r["rp"]] if r.get("rpmode") else [])).returncode
    finally:
        shutil.rmtree(w, ignore_errors=True)


CONFORM = [("conform_tcp", 6), ("conform_tcp", 104), ("conform_tcp", 105), ("conform_udp", 5), ("conform_block", 0), ("conform_addr", 0),
           ("conform_read", 4), ("conform_write", 6), ("conform_lock", 5),
           ("conform_rebind", 4)]


def conform():
    b = mcbuild.build(["conform"])["conform"]
    w = tempfile.mkdtemp(prefix="elmc")
    res, rc = [], 0
    try:
        for sc, arg in CONFORM:
            p = subprocess.run([b, "--scenario", sc, "--arg", str(arg), "--bounds", "0,0", "--jobs", JOBS, "--cap", "3600", "--work", w, "--out", w + "/o"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            r = sh_json(w + "/o")
            v = r["violation"]
            print("%s arg=%d: %d sequences compared %s" % (sc, arg, r["completed"], "DIFFERS: " + v["msg"] if v else "equal"))
            sys.stdout.flush()
            res.append({"scenario": sc, "arg": arg, "sequences": r["completed"], "difference": v["msg"] if v else None})
            rc |= bool(v) or bool(r["capped"])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    with open(OUT + "/conformance.json", "w") as f:
        json.dump({"kernel": os.uname().release, "results": res}, f, indent=1)
        f.write("\n")
    return rc


if __name__ == "__main__":
    if len(sys.argv) == 2 and sys.argv[1] == "--conform":
        sys.exit(conform())
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        try:
            mcbuild.build(sorted({e["bin"] for p in checks.PLAN.values() for e in p}))
        except mcbuild.BuildError as ex:
            print(ex)
            sys.exit(1)
        sys.exit(0)
    if len(sys.argv) != 2 or sys.argv[1] not in checks.PLAN:
        print(__doc__)
        sys.exit(2)
    sys.exit(check(sys.argv[1]))
