#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough]      runs the check of one property against /repo
   check.py --replay FILE                re-runs the harness process recorded in a replay file
"""
import json, os, resource, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build
from checks import CHECKS

KNOWN = os.path.join(VERIF, "known_findings.json")


def limits(vm_gb):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if vm_gb:
            resource.setrlimit(resource.RLIMIT_AS, (vm_gb << 30, vm_gb << 30))
    return f


def run_job(job, outdir, n):
    """Runs one harness process; returns its result dict (with 'cmd')."""
    if "violation" in job:  # found while building the job itself
        k, d = job["violation"]
        return {"complete": True, "capped": False, "states": 0, "transitions": 0, "traces": 0, "samples": [], "notes": [], "extra": {},
                "violations": [{"key": k, "count": 1, "detail": d}], "cmd": job["cmd"], "env": {}}
    out = os.path.join(outdir, "r%d.json" % n)
    cmd = [job["exe"]] + job["args"] + ["--out", out]
    env = dict(os.environ, LC_ALL="C.UTF-8", **job.get("env", {}))

    def once(timeout):
        if os.path.exists(out):
            os.remove(out)
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env,
                               preexec_fn=limits(job.get("vm_gb", 4)))
            rc, text = p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            rc, text = "timeout", (e.stdout or b"").decode(errors="replace")
        r = None
        if os.path.exists(out):
            try:
                r = json.load(open(out))
            except ValueError:
                r = None
        return rc, text, r

    rc, text, r = once(job["timeout"])
    if r is None or not r["complete"]:
        # crash, hang or abnormal end: it must reproduce to be believed
        env["MC_HANG_TICKS"] = "20"
        if "MC_DEADLINE" in env:
            env["MC_DEADLINE"] = str(int(env["MC_DEADLINE"]) + 150)
        rc2, text2, r2 = once(job["timeout"])
        if r2 is not None and r2["complete"]:
            r, rc, text = r2, rc2, text2
        elif r2 is not None:
            r = r2
        elif rc2 == "timeout" or rc == "timeout":
            return {"error": "timeout: " + " ".join(cmd), "cmd": cmd}
        elif rc2 in (2, 3, 127) or rc2 == -9:
            return {"error": "harness error rc=%s: %s\n%s" % (rc2, " ".join(cmd), text2[-3000:]), "cmd": cmd}
        else:
            # died without being able to report (sanitizer abort, stack overflow, std::terminate ...)
            r = {"complete": False, "capped": False, "states": 0, "transitions": 0, "traces": 0, "samples": [], "notes": [],
                 "extra": {}, "violations": [{"key": "abnormal-end", "count": 1, "detail": "rc=%s %s" % (rc2, text2[-1500:])}]}
    r["cmd"] = cmd[:-2]
    r["env"] = {k: v for k, v in job.get("env", {}).items() if k != "MC_DEADLINE"}
    return r


def known_keys(prop):
    try:
        k = json.load(open(KNOWN))
    except FileNotFoundError:
        return {}
    return {f["key"]: f for f in k.get("findings", []) if f["property"] == prop}


def main():
    if sys.argv[1] == "--replay":
        rp = json.load(open(sys.argv[2]))
        print("replaying:", " ".join(rp["cmd"]))
        print("expected :", rp["key"], "-", rp["detail"])
        return subprocess.call(rp["cmd"], env=dict(os.environ, **rp.get("env", {})))
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in sys.argv
    t0 = time.time()
    spec = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        jobs = spec["jobs"](build, thorough)
    except build.BuildError as e:
        print("ERROR: " + str(e))
        return 2
    outdir = os.path.join(build.BUILD, "out-%s-%d" % (prop, os.getpid()))
    os.makedirs(outdir, exist_ok=True)
    for j in jobs:
        if "violation" in j:
            continue
        if not thorough:  # the answer comes within 900 s, whatever the code under test costs
            j["env"] = dict(j.get("env", {}), MC_DEADLINE=str(int(t0) + 660))
        j["args"] = list(j.get("args", [])) + (["--thorough"] if thorough else [])
        j.setdefault("timeout", 840 if not thorough else 3600 * 6)
    with ThreadPoolExecutor(max_workers=spec.get("workers", 8)) as ex:
        results = list(ex.map(lambda x: run_job(x[1], outdir, x[0]), enumerate(jobs)))
    errors = [r["error"] for r in results if "error" in r]
    results = [r for r in results if "error" not in r]
    agg = {"states": 0, "transitions": 0, "traces": 0}
    samples, notes, extra, viols, capped = [], [], {}, {}, False
    for r in results:
        for k in agg:
            agg[k] += r[k]
        for s in r["samples"]:
            if s not in samples and len(samples) < 12:
                samples.append(s)
        for n in r["notes"]:
            if n not in notes:
                notes.append(n)
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v if k.startswith("n_") else max(extra.get(k, 0), v)
        capped = capped or r["capped"]
        for v in r["violations"]:
            viols.setdefault(v["key"], dict(v, cmd=r["cmd"], env=r["env"]))
    known = known_keys(prop)
    new = {k: v for k, v in viols.items() if k not in known}
    for k in viols:
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    rdir = os.path.join(VERIF, "replays")
    for i, (k, v) in enumerate(sorted(new.items())):
        if i >= 20:
            print("... and %d more" % (len(new) - i))
            break
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        json.dump({"property": prop, "key": k, "detail": v["detail"], "count": v["count"], "cmd": v["cmd"], "env": v["env"]},
                  open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  [%s] %s" % (k, v["detail"][:600]))
    wall = time.time() - t0
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": spec.get("level", "model_checking"),
          "coverage": {"states": agg["states"], "transitions": agg["transitions"], "traces_validated_against_impl": agg["traces"],
                       "samples": samples, "exhaustive": not capped and not errors,
                       "bounds": spec["bounds"], "processes": len(jobs), "details": extra, "notes": notes},
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f in os.listdir(outdir):
        os.remove(os.path.join(outdir, f))
    os.rmdir(outdir)
    print("%s: states=%d transitions=%d executions=%d violations=%d known=%d %.1fs" % (prop, agg["states"], agg["transitions"],
          agg["traces"], len(new), len(viols) - len(new), wall))
    if new:
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
