#!/opt/venv/bin/python
"""check.py <ID> [--tier quick|thorough] [--replay FILE] [--only SUBSTR]

Runs the harnesses of one property: symbolic execution of /repo's current
source, SMT verdicts, replay of counterexamples on the unpatched code."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
# z3 lives in the tooling venv; appended so that wilson's own dependencies win
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
import warnings
warnings.simplefilter("ignore")

from vlib import load  # noqa: E402


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == pid]


def worker(a):
    pid, i, tier, seed, deadline = a
    from vlib import run
    mod = importlib.import_module("props." + pid)
    h = HS[i]
    t = time.time()
    try:
        r = run.explore(h["name"], h["func"], stubs=h.get("stubs"),
                        max_paths=h.get("max_paths", 400),
                        ne_flips=h.get("ne_flips", 4),
                        timeout_ms=h.get("timeout_ms", 60000), seed=seed,
                        deadline=deadline, ne_depth=h.get("ne_depth", 1),
                        floats=h.get("floats", False),
                        known=[k for k in known_findings(pid)
                               if k["harness"] == h["name"]])
    except Exception:
        return dict(name=h["name"], violations=[], known=[], inconclusive=[
            f"{h['name']}: internal error: {traceback.format_exc()[-1500:]}"],
            stats={}, witnesses={}, functions=[], wall=time.time() - t)
    s = r.stats
    return dict(name=r.name, violations=r.violations, known=r.known,
                inconclusive=r.inconclusive,
                witnesses=r.witnesses, functions=sorted(r.functions),
                wall=r.wall, stats=dict(
                    paths=s.paths, queries=s.queries, solver_s=s.solver_s,
                    obligations=s.obligations, trivial=s.trivial, both_sides=s.both_sides,
                    unexplored=s.unexplored, max_vars=s.max_vars,
                    samples=s.samples))


HS = []


def in_parallel(jobs, n, deadline):
    """Results of all jobs; what has not finished at the deadline, or a while
    after the first violation, is given up."""
    results = []
    with mp.get_context("fork").Pool(min(n, len(jobs)), initializer=limit,
                                     maxtasksperchild=1) as pool:
        it = pool.imap_unordered(worker, jobs, chunksize=1)
        end = deadline + 40
        while len(results) < len(jobs):
            try:
                r = it.next(timeout=max(.1, end - time.time()))
            except mp.TimeoutError:
                break
            results.append(r)
            if r["violations"]:
                end = min(end, time.time() + 90)
        pool.terminate()
    done = {r["name"] for r in results}
    for j in jobs:
        if HS[j[1]]["name"] not in done:
            results.append(dict(
                name=HS[j[1]]["name"], violations=[], known=[], inconclusive=[
                    HS[j[1]]["name"] + ": not finished"], stats={},
                witnesses={}, functions=[], wall=0))
    order = {HS[j[1]]["name"]: n for n, j in enumerate(jobs)}
    return sorted(results, key=lambda r: order[r["name"]])


def limit():
    """No worker takes the memory of the others."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ar = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    pid = ar.id
    try:
        load.modules()
    except Exception as e:
        traceback.print_exc()
        print(f"ERROR property={pid}: the package cannot be imported: {e!r}")
        return 2
    from vlib import patch
    patch.snapshot()
    mod = importlib.import_module("props." + pid)
    HS[:] = mod.harnesses(ar.tier)
    if ar.replay:
        return do_replay(pid, ar.replay)
    sel = [i for i, h in enumerate(HS) if not ar.only or ar.only in h["name"]]
    # long ones first
    sel.sort(key=lambda i: -HS[i].get("cost", 1))
    budget = 780 if ar.tier == "quick" else 3 * 3600
    deadline = t0 + budget
    jobs = [(pid, i, ar.tier, seed, deadline) for i in sel]
    if ar.j == 1 or len(jobs) == 1:
        results = [worker(j) for j in jobs]
    else:
        results = in_parallel(jobs, ar.j, deadline)
    viol = [v for r in results for v in r["violations"]]
    known = [v for r in results for v in r["known"]]
    inc = [x for r in results for x in r["inconclusive"]]
    seen_known = {v["finding"] for v in known}
    rdir = os.path.join(HERE, "replays")
    lines = []
    if viol:
        os.makedirs(rdir, exist_ok=True)
    for n, v in enumerate(viol):
        p = os.path.join(rdir, f"{pid}-{n}.json")
        with open(p, "w") as f:
            json.dump(dict(v, property=pid, tier=ar.tier), f, indent=1,
                      default=str)
        lines.append(f"VIOLATION property={pid} replay={p}")
        print(f"  {v['harness']}: {v['label']}: {v['detail']}")
    for k in known_findings(pid):
        if k["id"] in seen_known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        else:
            print(f"note: known finding {k['id']} did not show up in this run")
    for x in inc:
        print("INCONCLUSIVE " + x)
    if ar.v:
        for r in sorted(results, key=lambda r: -r["wall"]):
            st = {k: v for k, v in r['stats'].items() if k != 'samples'}
            print(f"  {r['name']}: {r['wall']:.1f}s {st} "
                  f"wit={len(r['witnesses'])}")
    wall = time.time() - t0

    def tot(k):
        return sum(r["stats"].get(k, 0) for r in results)
    funcs = sorted({f for r in results for f in r["functions"]})
    obl = tot("obligations")
    if not ar.no_evidence and not ar.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        samples = [s for r in results for s in r["stats"].get("samples", [])]
        ev = {
            "property": pid, "tier": ar.tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": (
                    "Bounded symbolic execution of the functions listed, "
                    "encoded from /repo's current source during this run; "
                    "every assertion on every explored path was put to z3 as "
                    "the negated property over all values of the symbolic "
                    "inputs. A pass is an unsat answer on each. Stated "
                    "bounds apply; nothing outside them is claimed."),
                "functions_encoded": funcs,
                "n_functions": len(funcs),
                "harnesses": [
                    {"name": r["name"], "paths": r["stats"].get("paths", 0),
                     "assertions": r["stats"].get("obligations", 0),
                     "queries": r["stats"].get("queries", 0),
                     "solver_s": round(r["stats"].get("solver_s", 0), 2),
                     "symbolic_variables": r["stats"].get("max_vars", 0),
                     "reachability_witnesses": r["witnesses"],
                     "wall_s": round(r["wall"], 1)} for r in results],
                "paths": tot("paths"), "assertions": obl,
                "assertions_decided": obl - sum(
                    1 for x in inc if "exception" not in x),
                "constant_or_identically_satisfied_after_normalisation":
                    tot("trivial"),
                "cancelling_in_normal_form_but_given_to_the_solver_uncancelled":
                    tot("both_sides"),
                "queries": tot("queries"),
                "solver_s": round(tot("solver_s"), 2),
                "branches_left_unexplored": tot("unexplored"),
                "bounds": mod.BOUNDS,
                "samples": samples[:12],
                "inconclusive": inc[:20],
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
            "wall_s": round(wall, 2),
            "violations": len(viol),
        }
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid}: {len(results)} harnesses, {tot('paths')} paths, {obl} "
          f"assertions, {tot('queries')} queries, solver {tot('solver_s'):.1f}"
          f" s, wall {wall:.1f} s")
    for l in lines:
        print(l)
    if viol:
        return 1
    # what could not be decided is printed and recorded in the evidence; the
    # run as a whole is an error when that is half of the harnesses or more
    bad = sum(1 for r in results if r["inconclusive"])
    return 2 if 2 * bad >= len(results) and bad else 0


COMMON_ASSUMPTIONS = [
    "Floating-point arithmetic is modelled by exact arithmetic; constants in "
    "the code are taken at their exact binary value. Two sides count as equal "
    "when they differ by less than 1e-6 of the largest term.",
    "EFT/basis definitions (git submodule wilson/wcxf/bases, empty here) are "
    "those of vlib/bases.json.",
    "numpy/math calls made by wilson are replaced by symbolic counterparts; "
    "every reported violation is replayed with the real ones.",
]


def do_replay(pid, path):
    from vlib import run
    with open(path) as f:
        v = json.load(f)
    if v.get("tier"):
        HS[:] = importlib.import_module("props." + pid).harnesses(v["tier"])
    for h in HS:
        if h["name"] == v["harness"]:
            failed, e = run.replay(h["func"], v["assign"], v["choices"],
                                   v["scales"], h.get("stubs"))
            for l, d in failed[:10]:
                print(f"  {l}: {d}")
            if e is not None:
                print("  " + "".join(traceback.format_exception(e)[-3:]))
            if failed or e is not None:
                print(f"VIOLATION property={pid} replay={path}")
                return 1
            print("not reproduced")
            return 0
    print("no such harness")
    return 2


if __name__ == "__main__":
    sys.exit(main())
