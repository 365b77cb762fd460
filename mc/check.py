#!/usr/bin/env python3
"""check.py <property> [-v] [-j job-substring]: decide one property."""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("MC_REPO", "/repo")
if os.path.realpath(sys.prefix) != "/opt/venv" or os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["PYTHONPATH"] = REPO
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import run  # noqa: E402


def main():
    prop = sys.argv[1]
    verbose = "-v" in sys.argv
    only = sys.argv[sys.argv.index("-j") + 1] if "-j" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    kf = json.load(open(os.path.join(run.VERIF, "known_findings.json")))
    mine = [f for f in kf["findings"] if f["property"] == prop]
    known = [f["id"] for f in mine]
    extra = {}
    try:
        mod = importlib.import_module("props." + prop.lower())
        jobs = mod.jobs(tier)
    except Exception as e:
        import traceback
        if not run.from_repo(e.__traceback__) and not isinstance(e, ImportError):
            raise
        print("VIOLATION property=%s replay=- (cannot be built: %s)" % (prop, e))
        traceback.print_exc()
        jobs = None
        results = [dict(job="build", violation="cannot be built: %s" % e, error=None)]
    if jobs is not None:
        if only:
            jobs = [j for j in jobs if only in j.name]
        results = run.run_jobs(prop, jobs, seed, known, verbose)
    viol = [r for r in results if r["violation"]]
    errs = [r for r in results if r.get("error")]
    if hasattr(sys.modules.get("props." + prop.lower()), "TECHNIQUE"):
        extra["technique"] = sys.modules["props." + prop.lower()].TECHNIQUE
    cov = dict(
        states=sum(r.get("states", 0) for r in results),
        transitions=sum(r.get("transitions", 0) for r in results),
        traces_validated_against_impl=sum(r.get("traces_validated", 0) for r in results),
        exhaustive=all(r.get("complete", 0) == 1 for r in results),
        jobs=[{k: r.get(k) for k in ("job", "states", "transitions", "depth", "deep", "complete", "capped", "covers", "design",
                                     "traces_validated", "violation", "error", "wall", "time") if r.get(k) is not None}
              for r in results],
        samples=[dict(job=r["job"], trace=r["sample"]) for r in results if r.get("sample")][:3],
        **extra)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=getattr(sys.modules.get("props." + prop.lower()), "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(run.VERIF, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(run.VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for r in results:
        state = "VIOLATED" if r["violation"] else "ERROR" if r.get("error") else "stopped" if r.get("skipped") else "ok"
        print("%-34s %-8s states=%-9s transitions=%-10s depth=%-6s %s %ss" % (
            r["job"], state, r.get("states", "-"), r.get("transitions", "-"), r.get("depth", "-"),
            "complete" if r.get("complete") else "bounded:%s" % r.get("capped"), r.get("wall")))
        if r.get("error"):
            print("   " + r["error"].replace("\n", "\n   "))
    for n, f in enumerate(mine):
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    for r in viol:
        print("VIOLATION property=%s replay=%s  [%s] %s" % (prop, r.get("replay", "-"), r["job"], r["violation"]))
    if viol:
        sys.exit(1)
    if errs:
        sys.exit(2)
    sys.exit(0)


main()
