"""Runs the model-checking jobs of one property and reports."""
import ctypes
import json
import multiprocessing
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
NCPU = 8


class Job:
    def __init__(self, name, build, harness, defines=None, sweep=False, covers=None, max_states=1500000,
                 max_depth=100000, threads=1, traces=3, walk=60, bounded=False, header="", opt="-O2",
                 conform_cycles=600, note="", pyconform=True, deep=None):
        self.name, self.build, self.harness = name, build, harness
        self.defines = dict(defines or {})
        self.sweep, self.covers = sweep, dict(covers or {})
        self.max_states, self.max_depth, self.threads = max_states, max_depth, threads
        self.traces, self.walk, self.bounded = traces, walk, bounded
        self.header, self.opt = header, opt
        self.conform_cycles, self.note, self.pyconform = conform_cycles, note, pyconform
        self.deep = deep                # clock edges of each long execution after the search


def die_with_parent():
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def from_repo(tb):
    """Was the innermost interesting frame of a traceback inside the code under test?"""
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(os.path.realpath(REPO) + os.sep):
            return True
    return False


def execute(prop, job, work, seed, known):
    import fhdl2c
    import conform
    res = dict(job=job.name, violation=None, error=None)
    t0 = time.time()
    try:
        spec = job.build()
        tr = fhdl2c.Translator(spec["module"], spec["inputs"], spec["outputs"], spec["clocks"], spec["edges"])
        code = tr.cxx()
    except Exception as e:
        # the design itself cannot be elaborated: nothing the property promises is delivered
        if from_repo(e.__traceback__) or isinstance(e, (AttributeError, TypeError, KeyError, ValueError)):
            res["violation"] = "the design cannot be elaborated: %s: %s" % (type(e).__name__, e)
            res["traceback"] = traceback.format_exc()
            res["confirmed"] = True
        else:
            res["error"] = traceback.format_exc()
        return res
    res["design"] = tr.stats()
    with open(os.path.join(work, "dut.hpp"), "w") as f:
        f.write(code)
    with open(os.path.join(work, "main.cpp"), "w") as f:
        f.write('#include "engine.hpp"\n')
        for k, v in list(job.defines.items()) + list(spec.get("defines", {}).items()):
            f.write("#define %s %s\n" % (k, v))
        for k in known:
            f.write("#define KF_%s 1\n" % k)
        f.write("#define TH %d\n" % (os.environ.get("VERIF_TIER", "quick") == "thorough"))    # deeper bounds
        if job.sweep:
            f.write("#define SWEEP 1\n")
        f.write(job.header + "\n")
        f.write('#include "%s"\n' % os.path.join(HERE, "harness", job.harness))
        f.write('#include "main.hpp"\n')
    shutil.copy(os.path.join(HERE, "engine.hpp"), work)
    shutil.copy(os.path.join(HERE, "main.hpp"), work)
    t1 = time.time()
    p = subprocess.run(["clang++", "-std=c++17", job.opt, "-w", "-pthread", "-I", work, "-I", os.path.join(HERE, "harness"),
                        "-o", os.path.join(work, "mc"), os.path.join(work, "main.cpp")],
                       capture_output=True, text=True)
    if p.returncode:
        # a port the harness uses has vanished or changed shape
        res["error"] = "compile: " + p.stderr[:4000]
        return res
    t2 = time.time()
    env = dict(os.environ, MC_OUT=work, MC_THREADS=str(job.threads), MC_MAX_STATES=str(job.max_states),
               MC_MAX_DEPTH=str(job.max_depth), MC_TRACES=str(job.traces), MC_WALK=str(job.walk),
               VERIF_SEED=str(seed), MC_DEEP=str(job.deep if job.deep is not None else
                                                 1000000 if os.environ.get("VERIF_TIER") == "thorough" else 200000))
    p = subprocess.run([os.path.join(work, "mc")], env=env, capture_output=True, text=True, preexec_fn=die_with_parent)
    if os.environ.get("MC_DEBUG"):
        sys.stderr.write(p.stderr[-int(os.environ["MC_DEBUG"]):])
    if p.returncode:
        res["error"] = "engine: rc=%d %s" % (p.returncode, p.stderr[-2000:])
        return res
    t3 = time.time()
    covers, knowns = {}, {}
    for line in open(os.path.join(work, "summary.txt")):
        k, _, v = line.strip().partition(" ")
        if k == "cover":
            a, b = v.split()
            covers[int(a)] = int(b)
        elif k == "known":
            a, b = v.split()
            knowns[int(a)] = int(b)
        elif k in ("violation", "capped"):
            res[k] = v
        else:
            res[k] = int(v)
    res["covers"] = {job.covers.get(k, "goal %d" % k): covers.get(k, 0) for k in sorted(set(job.covers) | set(covers))}
    res["knowns"] = knowns
    # bind the model to the code: replay on the Simulator
    rp = None
    nval = 0
    try:
        if res["violation"]:
            vt = os.path.join(work, "violation.trace")
            if os.path.exists(vt):
                rp = conform.Replayer(job.build())
                try:
                    rp.replay(vt, seconds=200)
                except ValueError as e:
                    if "negative shift" not in str(e):
                        raise
                    res["violation"] += " (the Simulator raises: %s)" % e
                nval += 1
                d = os.path.join(VERIF, "evidence", "replay")
                os.makedirs(d, exist_ok=True)
                dst = os.path.join(d, "%s-%s.trace" % (prop, job.name))
                shutil.copy(vt, dst)
                res["replay"] = dst
            res["confirmed"] = True
        elif job.pyconform:
            rp = conform.Replayer(job.build())
            for k in range(job.traces):
                t = os.path.join(work, "trace%d.trace" % k)
                if os.path.exists(t):
                    rp.replay(t, job.conform_cycles)
                    nval += 1
            t = os.path.join(work, "trace0.trace")
            if os.path.exists(t):
                with open(t) as f:
                    res["sample"] = [l.rstrip() for _, l in zip(range(8), f)]
    except conform.Mismatch as e:
        res["error"] = "conformance: %s" % e
        return res
    res["traces_validated"] = nval
    if not res["violation"]:
        miss = [n for k, n in job.covers.items() if not covers.get(k, 0)]
        if miss and res.get("capped") != "states":
            res["violation"] = "never reachable: " + "; ".join(miss)
            res["confirmed"] = True
    res["time"] = dict(elaborate=round(t1 - t0, 2), compile=round(t2 - t1, 2), explore=round(t3 - t2, 2),
                       conform=round(time.time() - t3, 2))
    return res


def _worker(prop, job, work, seed, known, out):
    os.setsid()
    die_with_parent()
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception:
        pass
    try:
        r = execute(prop, job, work, seed, known)
    except BaseException:
        r = dict(job=job.name, violation=None, error=traceback.format_exc())
    with open(out, "w") as f:
        json.dump(r, f)


def run_jobs(prop, jobs, seed, known, verbose=False):
    base = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    results = [None]*len(jobs)
    pending = list(range(len(jobs)))
    pending.sort(key=lambda k: -jobs[k].threads)
    running = {}
    load = 0
    ctx = multiprocessing.get_context("fork")
    # a quick check must answer within 15 minutes; once a violation is confirmed the rest cannot change the verdict
    end = time.time() + (840 if os.environ.get("VERIF_TIER", "quick") == "quick" else 1e9)
    try:
        while pending or running:
            if time.time() > end:
                for k in pending + list(running):
                    results[k] = dict(job=jobs[k].name, violation=None, skipped=True,
                                      error=None if any(r and r["violation"] for r in results) else "out of time")
                break
            for k in list(pending):
                w = min(jobs[k].threads, NCPU)
                if load + w <= NCPU:
                    d = os.path.join(base, str(k))
                    os.mkdir(d)
                    p = ctx.Process(target=_worker, args=(prop, jobs[k], d, seed, known, os.path.join(d, "result.json")))
                    p.start()
                    running[k] = (p, w, time.time())
                    load += w
                    pending.remove(k)
            time.sleep(0.02)
            for k in list(running):
                p, w, ts = running[k]
                if not p.is_alive():
                    p.join()
                    load -= w
                    del running[k]
                    fn = os.path.join(base, str(k), "result.json")
                    if os.path.exists(fn):
                        results[k] = json.load(open(fn))
                    else:
                        results[k] = dict(job=jobs[k].name, violation=None, error="worker died")
                    results[k]["wall"] = round(time.time() - ts, 2)
                    if results[k]["violation"]:
                        end = min(end, time.time() + 15)
                    if verbose:
                        print(json.dumps({a: b for a, b in results[k].items() if a not in ("sample", "traceback")}), flush=True)
                        if results[k].get("traceback"):
                            print(results[k]["traceback"])
                        if results[k].get("error"):
                            print(results[k]["error"])
                    shutil.rmtree(os.path.join(base, str(k)), ignore_errors=True)
    finally:
        for p, w, ts in running.values():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                p.kill()
            p.join()
        shutil.rmtree(base, ignore_errors=True)
    return results
