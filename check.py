#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--jobs N] [--only JOBSUBSTRING] | --replay FILE"""
import argparse, collections, heapq, importlib, json, os, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def worker():
    """Worker process: reads one job per line, answers one line per job."""
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)                      # anything the code prints goes to stderr
    import pickle, base64
    sys.path.insert(0, REPO)
    from mc import core, cov
    if os.environ.get("VERIF_COV"):
        cov.start(REPO)
    for line in sys.stdin:
        job = json.loads(line)
        res = core.run_job(job["property"], job["fname"], job["kwargs"], job.get("only"))
        if os.environ.get("VERIF_COV"):
            cov.save()
        out.write(base64.b64encode(pickle.dumps(res)).decode() + "\n")
        out.flush()


class Pool:
    def __init__(self, n, limit, log):
        self.n, self.limit, self.log = n, limit, log

    def run(self, jobs, prop):
        import pickle, base64
        queue = collections.deque(jobs)
        lock = threading.Lock()
        results, stop = [], threading.Event()

        def one(i):
            proc = None
            while not stop.is_set():
                with lock:
                    if not queue:
                        break
                    w, fname, kwargs = queue.popleft()
                if proc is None:
                    proc = subprocess.Popen([sys.executable, os.path.join(VERIF, "check.py"), "--worker"],
                                            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log,
                                            text=True, cwd=VERIF)
                timer = threading.Timer(self.limit, proc.kill)
                timer.start()
                t0 = time.time()
                line = ""
                try:
                    proc.stdin.write(json.dumps({"property": prop, "fname": fname, "kwargs": kwargs}) + "\n")
                    proc.stdin.flush()
                    line = proc.stdout.readline()
                except OSError:
                    pass
                timer.cancel()
                if line:
                    res = pickle.loads(base64.b64decode(line))
                else:
                    proc.kill()
                    proc.wait()
                    proc = None
                    dt = time.time() - t0
                    why = (f"did not terminate within {self.limit:.0f} s" if dt >= self.limit - 1
                           else "the process running the code under test died")
                    res = {"job": f"{fname}{kwargs!r}", "states": [], "transitions": 0, "validated": 0,
                           "outcomes": [], "samples": [], "groups": {}, "known": [], "wall": dt,
                           "violation": {"msg": why, "data": {}, "property": prop, "job": fname,
                                         "kwargs": kwargs, "case": None}}
                with lock:
                    results.append(res)
                    if res["violation"]:
                        stop.set()
            if proc is not None:
                proc.stdin.close()
                proc.kill()
                proc.wait()

        ts = [threading.Thread(target=one, args=(i,)) for i in range(min(self.n, max(1, len(jobs))))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")))
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--times", action="store_true")
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix="mc-")
    from mc import core
    core.setup_env(scratch)
    try:
        return replay(a.replay) if a.replay else check(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    v = json.load(open(path))
    sys.path.insert(0, REPO)
    from mc import core
    res = core.run_job(v["property"], v["job"], v["kwargs"], v["case"])
    if res["violation"]:
        print(json.dumps(res["violation"], indent=1)[:6000])
        print(f"VIOLATION property={v['property']} replay={path}")
        return 1
    print("the case passes")
    return 0


def check(a, scratch):
    t0 = time.time()
    prop = a.property.upper()
    sys.path.insert(0, REPO)
    mod = importlib.import_module("mc." + prop.lower())
    jobs = sorted(mod.jobs(a.tier), key=lambda j: -j[0])
    if a.only:
        jobs = [j for j in jobs if a.only in f"{j[1]}{j[2]!r}"]
    n = a.jobs or min(8, os.cpu_count() or 1)
    limit = 600.0 if a.tier == "quick" else 6 * 3600.0
    with open(os.path.join(scratch, "log"), "w") as log:
        results = Pool(n, limit, log).run(jobs, prop)
    states, outcomes, groups = set(), set(), {}
    trans = valid = 0
    samples, viols, known = [], [], []
    for r in sorted(results, key=lambda r: r["job"]):
        states |= {(r["job"], s) for s in r["states"]}
        outcomes |= set(r["outcomes"])
        trans += r["transitions"]
        valid += r["validated"]
        if len(samples) < 6:
            samples += [dict(s, job=r["job"]) for s in r["samples"][:1]]
        for k, c in r["groups"].items():
            groups[k] = groups.get(k, 0) + c
        known += r["known"]
        if r["violation"]:
            viols.append(r["violation"])
    if a.times:
        for r in sorted(results, key=lambda r: -r["wall"]):
            print(f"{r['wall']:8.2f}s {len(r['states']):8d} {r['job']}")
    wall = time.time() - t0
    cov = {"states": len(states), "transitions": trans, "traces_validated_against_impl": valid,
           "distinct_outcomes": len(outcomes),
           "samples": json.loads(json.dumps(core_trim(samples))), "jobs": len(jobs), "jobs_completed": len(results),
           "exhaustive_within_bounds": not viols and not a.only,
           "bounds": getattr(mod, "BOUNDS", ""), "groups": groups,
           "rule": "states = distinct cases of the bounded space; transitions = executions of operations of the "
                   "real code; traces validated = complete executions of the real code compared with the "
                   "reference model on every observable"}
    ev = {"property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
          "level": "model_checking", "coverage": cov, "wall_s": round(wall, 2),
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "violations": len(viols), "violation_details": []}
    rc = 0
    for i, v in enumerate(viols):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{prop}-{i}.json")
        json.dump(v, open(path, "w"), indent=1)
        ev["violation_details"].append({"msg": v["msg"], "job": v["job"], "case": str(v["case"])[:500], "replay": path})
        print(f"{prop}: {v['msg']}\n  job {v['job']} {v['kwargs']}\n  case {str(v['case'])[:1500]}")
        if "traceback" in v["data"]:
            print("  " + v["data"]["traceback"].replace("\n", "\n  "))
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    for k in sorted(set(known)):
        print(f"KNOWN-FINDING: property={prop} {k}")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.only:
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop} {a.tier}: {len(states)} states, {trans} transitions, {valid} validated executions, "
          f"{len(outcomes)} distinct outcomes, {len(viols)} violations, {wall:.1f} s")
    return rc


def core_trim(o, depth=0):
    """Keep samples readable."""
    if isinstance(o, dict):
        return {k: core_trim(v, depth + 1) for k, v in o.items()}
    if isinstance(o, list):
        return [core_trim(v, depth + 1) for v in o[:12]]
    if isinstance(o, str):
        return o[:600]
    if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
        return str(o)
    return o


if __name__ == "__main__":
    if "--worker" in sys.argv:
        worker()
    else:
        sys.exit(main())
