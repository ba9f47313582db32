"""Job pool, violation reporting and evidence writing shared by the checks."""
import argparse
import json
import multiprocessing as mp
import os
import sys
import tempfile
import time
import traceback

from . import boot, smt

KNOWN = os.path.join(boot.VERIF, "known_findings.json")


class Violation(Exception):
    """A counterexample that was replayed on the real code."""

    def __init__(self, what, data=None, key=None):
        super().__init__(what)
        self.what = what
        self.data = data or {}
        self.key = key


class JobResult:
    def __init__(self, name):
        self.name = name
        self.status = "ok"
        self.info = {}
        self.violations = []
        self.stats = {}
        self.error = None
        self.wall = 0.0


def _run(args):
    name, fn, fargs = args
    r = JobResult(name)
    smt.take_stats()
    t = time.time()
    try:
        out = fn(*fargs)
        r.info = out or {}
        r.violations = r.info.pop("violations", [])
        if r.violations:
            r.status = "violation"
    except Violation as v:
        r.status = "violation"
        r.violations.append((v.what, v.data, v.key))
    except smt.RealCodeFailure as e:
        r.status = "violation"
        r.violations.append((str(e), {}, e.key))
    except smt.Inconclusive as e:
        r.status = "inconclusive"
        r.error = f"{type(e).__name__}: {e}"
    except Exception:  # noqa: BLE001
        r.status = "error"
        r.error = traceback.format_exc()
    r.wall = time.time() - t
    r.stats = smt.take_stats()
    return r


def _child(task, conn):
    # a cache directory of its own: jobs do not see each other's entries
    caching = sys.modules.get("symfem.caching")
    if caching is not None and hasattr(caching, "CACHE_DIR"):
        caching.CACHE_DIR = tempfile.mkdtemp(dir=boot.SCRATCH)
    try:
        conn.send(_run(task))
    finally:
        conn.close()


def pool_run(jobs, procs, job_timeout, deadline):
    """Each job in a forked process of its own: a stuck job is ended at its time limit."""
    ctx = mp.get_context("fork")
    pending = list(reversed(jobs))
    running = []
    results = []
    while pending or running:
        while pending and len(running) < procs:
            task = pending.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(task, b))
            p.start()
            b.close()
            running.append((p, a, task, time.time()))
        mp.connection.wait([r[1] for r in running], timeout=1.0)
        keep = []
        for p, a, task, t0 in running:
            if a.poll():
                try:
                    results.append(a.recv())
                except EOFError:
                    r = JobResult(task[0])
                    r.status, r.error = "error", "job process died"
                    results.append(r)
                p.join()
                a.close()
            elif not p.is_alive():
                r = JobResult(task[0])
                r.status, r.error = "error", f"job process died (exit {p.exitcode})"
                results.append(r)
            elif time.time() - t0 > job_timeout or time.time() > deadline:
                p.kill()
                p.join()
                r = JobResult(task[0])
                r.status, r.error, r.wall = "timeout", "time limit", time.time() - t0
                results.append(r)
            else:
                keep.append((p, a, task, t0))
        running = keep
        if os.environ.get("SYMVER_FAILFAST") and any(r.status == "violation" for r in results):
            for p, a, _, _ in running:
                p.kill()
                p.join()
            break
    return results


def known_keys(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {e["key"]: e["what"] for e in data.get("known", []) if e["property"] == prop}


def main(prop, jobs_fn, level, technique, bounds, assumptions, functions, explanation, job_timeout=600, budget=840):
    """Entry point of every check.

    jobs_fn(tier) -> list of (name, fn, args). A job returns an info dict (obligation counts,
    paths, reach witnesses) or raises Violation.
    """
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None, help="run only jobs whose name contains this text")
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.tier == "thorough":
        job_timeout, budget = 3 * 3600, 6 * 3600
    jobs = jobs_fn(a.tier)
    if a.only:
        jobs = [j for j in jobs if a.only in j[0]]
    results = pool_run(jobs, a.procs, job_timeout, t0 + budget)
    stats = {}
    for r in results:
        smt.merge_stats(stats, r.stats)
    known = known_keys(prop)
    rep_dir = os.path.join(boot.VERIF, "evidence", "replay")
    os.makedirs(rep_dir, exist_ok=True)
    for old in os.listdir(rep_dir):
        if old.startswith(f"{prop}-"):
            os.remove(os.path.join(rep_dir, old))
    violations = []
    seen_known = {}
    for r in results:
        for n, (what, data, key) in enumerate(r.violations):
            if key is not None and key in known:
                seen_known[key] = known[key]
                continue
            path = os.path.join(rep_dir, f"{prop}-{len(violations)}.json")
            with open(path, "w") as f:
                json.dump(
                    {"property": prop, "job": r.name, "what": what, "input": data, "key": key,
                     "rerun": f"python {sys.argv[0]} --tier {a.tier} --only '{r.name}'"},
                    f, indent=1, default=str)
            violations.append((r.name, what, path))
    for k, w in known.items():
        # listed findings are announced whether or not this tier's jobs reached them
        print(f"KNOWN-FINDING: property={prop} {w}")
    bad = [r for r in results if r.status in ("inconclusive", "error", "timeout")]
    if a.v:
        for r in sorted(results, key=lambda r: -r.wall)[:25]:
            print(f"  {r.wall:7.2f}s {r.status:10s} {r.name} q={r.stats.get('queries')} "
                  f"z3={r.stats.get('solver_s', 0):.2f} {r.info}")
    for name, what, path in violations:
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {name}: {what}")
    for r in bad[:10]:
        print(f"UNDECIDED {r.status} in {r.name}: {r.error}", file=sys.stderr)
    obligations = sum(r.info.get("obligations", 0) for r in results)
    info = {}
    for r in results:
        for k, v in r.info.items():
            if isinstance(v, (int, float)):
                info[k] = info.get(k, 0) + v
    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": level,
        "coverage": {
            "explanation": explanation,
            "technique": technique,
            "functions_encoded": functions,
            "bounds": bounds(a.tier) if callable(bounds) else bounds,
            "jobs": len(results),
            "jobs_ok": sum(r.status == "ok" for r in results),
            "undecided": [{"job": r.name, "why": f"{r.status}: {str(r.error)[-300:]}"} for r in bad],
            "obligations": obligations,
            "queries": stats.get("queries", 0),
            "discharged_unsat": stats.get("unsat", 0),
            "sat": stats.get("sat", 0),
            "unknown": stats.get("unknown", 0),
            "solver_s": round(stats.get("solver_s", 0.0), 2),
            "totals": info,
            "job_names": [r.name for r in results][:500],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": assumptions,
        "violations": [{"job": n, "what": w, "replay": p} for n, w, p in violations],
    }
    if a.only is None:
        with open(os.path.join(boot.VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop} {a.tier}: {len(results)} jobs, {obligations} obligations, {stats.get('queries', 0)} queries, "
          f"{stats.get('solver_s', 0.0):.1f}s solver, {time.time() - t0:.1f}s wall, "
          f"{len(violations)} violations, {len(bad)} inconclusive/errors")
    if violations:
        sys.exit(1)
    # jobs without an answer are reported above and listed in the evidence; a run that decided too little is no answer
    if len(bad) * 5 > len(results):
        sys.exit(3)
    if not results or obligations == 0:
        print("ERROR: nothing was checked", file=sys.stderr)
        sys.exit(3)
    sys.exit(0)
