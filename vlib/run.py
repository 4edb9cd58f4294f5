"""Explore a harness symbolically, discharge its assertions with the solver,
replay candidate counterexamples on the unpatched code."""
import json
import os
import re
import random
import sys
import time
import traceback

import numpy as np

from . import ctx as C
from . import load, patch, sym
from .sym import EncodingError

REPO = load.REPO


class Result:
    def __init__(self, name):
        self.name = name
        self.violations = []      # dicts
        self.known = []
        self.known_spec = []
        self.inconclusive = []    # strings
        self.stats = C.Stats()
        self.witnesses = {}
        self.functions = set()
        self.bounds = ""
        self.wall = 0.0


def start_coverage(store):
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, "vcov")
    except ValueError:
        return None
    pre = os.path.join(REPO, "wilson") + os.sep

    def cb(code, off):
        f = code.co_filename
        if f.startswith(pre):
            if code.co_name[0] != "<":
                store.add(f[len(pre):] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, cb)
    mon.set_events(tool, mon.events.PY_START)
    mon.restart_events()
    return tool


def stop_coverage(tool):
    if tool is not None:
        sys.monitoring.set_events(tool, 0)
        sys.monitoring.free_tool_id(tool)


def from_repo(tb):
    """Did the exception come out of wilson's code (and not from the engine)?"""
    pre = os.path.join(REPO, "wilson") + os.sep
    return any(f.filename.startswith(pre) for f in traceback.extract_tb(tb))


def replay(func, assign, choices, scales, stubs=None, seed=1):
    """Run the harness on the unpatched code with these values.
    Returns (failed list, exception or None)."""
    patch.clear_caches()
    c = C.Ctx("conc", C.Stats(), assign=assign, choices=choices,
              scales=scales, seed=seed)
    C.CUR[0] = c
    try:
        with patch.concrete(stubs(c) if stubs else None), \
                np.errstate(all="ignore"):
            func(c)
    except C.Infeasible:
        return [], None
    except Exception as e:
        return c.failed, e
    finally:
        C.CUR[0] = None
        patch.clear_caches()
    return c.failed, None


def explore(name, func, stubs=None, max_paths=400, ne_flips=6, timeout_ms=60000,
            seed=1, deadline=None, ne_depth=1, known=(), floats=False):
    res = Result(name)
    res.known_spec = list(known)
    st = res.stats
    t0 = time.time()
    sym.FLOAT[0] = floats
    queue = [((), 0)]
    ne_queue = []
    rnd = random.Random(seed)
    tool = start_coverage(res.functions)
    skipped = 0
    try:
        while queue or ne_queue:
            if not queue:
                # sample of the "value happens to be exactly zero" branches
                rnd.shuffle(ne_queue)
                take = ne_queue[:ne_flips]
                skipped += len(ne_queue) - len(take)
                ne_queue = []
                queue = take
                ne_flips -= len(take)
                if not queue:
                    break
            prefix, depth = queue.pop()
            if st.paths >= max_paths or (deadline and time.time() > deadline):
                res.inconclusive.append(
                    f"{name}: path or time limit reached after {st.paths} paths")
                break
            st.paths += 1
            sym.reset()
            patch.clear_caches()
            c = C.Ctx("sym", st, decisions=prefix, solver_timeout=timeout_ms,
                      seed=seed)
            C.CUR[0] = c
            exc = None
            try:
                with patch.symbolic(stubs(c) if stubs else None), \
                        np.errstate(all="ignore"):
                    func(c)
            except C.Infeasible:
                pass
            except EncodingError as e:
                tb = traceback.extract_tb(e.__traceback__)
                at = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb
                      if "/wilson/" in f.filename][-1:]
                res.inconclusive.append(f"{name}: encoding: {e} at {at}")
                break
            except Exception as e:
                exc = e
            finally:
                C.CUR[0] = None
            for a, ne in c.alts:
                if ne:
                    if depth < ne_depth:
                        ne_queue.append((a, depth + 1))
                    else:
                        skipped += 1
                else:
                    queue.append((a, depth))
            C.CUR[0] = c
            if exc is not None:
                handle_exception(res, c, name, func, stubs, exc)
                if res.violations or res.inconclusive:
                    break
            cands = c.solve()
            for k, v in c.witnesses.items():
                res.witnesses[k] = res.witnesses.get(k, False) or v
            if len(st.samples) < 4:
                for g in c.goals:
                    if g.kind == "eq" and g.diff is not None:
                        st.samples.append(f"{name}: {g.label}")
                        break
            for g, m in cands:
                handle_candidate(res, c, name, func, stubs, g, m)
                if len(res.violations) >= 3:
                    break
            C.CUR[0] = None
            if res.violations:
                break
    finally:
        C.CUR[0] = None
        stop_coverage(tool)
        patch.clear_caches()
    st.unexplored += skipped
    for k, ok in res.witnesses.items():
        if not ok:
            res.inconclusive.append(f"{name}: vacuous: {k} never non-zero")
    res.wall = time.time() - t0
    return res


def report(res, v):
    """File a confirmed violation under known findings or violations."""
    for k in res.known_spec:
        if re.fullmatch(k["label"], v["label"]) and \
                re.search(k.get("detail", ""), v["detail"]) and \
                all(v["choices"].get(c) == x
                    for c, x in k.get("choices", {}).items()):
            res.known.append(dict(v, finding=k["id"]))
            return
    res.violations.append(v)


def handle_exception(res, c, name, func, stubs, exc):
    tb = "".join(traceback.format_exception(exc)[-4:])
    g = C.Goal("completes without exception", None, 0, False)
    g.kind = "const"
    assign = None
    try:
        r, m = c._check(model=True)
        assign = c.assignment(g, m)
    except Exception:
        pass
    if assign is not None or not c.path:
        failed, e2 = replay(func, assign or {}, c.choices, {}, stubs)
        if e2 is not None and (from_repo(e2.__traceback__)):
            last = traceback.extract_tb(e2.__traceback__)[-1]
            report(res, {
                "harness": name, "label": f"exception {type(e2).__name__}",
                "detail": f"{type(e2).__name__}: {e2} at "
                          f"{os.path.basename(last.filename)}:{last.lineno}",
                "assign": assign or {}, "choices": c.choices, "scales": {}})
            return
        if failed:
            l, d = failed[0]
            report(res, {
                "harness": name, "label": l, "detail": d,
                "assign": assign or {}, "choices": c.choices, "scales": {}})
            return
    res.inconclusive.append(f"{name}: exception in symbolic execution only: {tb}")


def handle_candidate(res, c, name, func, stubs, g, m):
    import z3
    if m is z3.unknown:
        m = None
        unknown = True
    else:
        unknown = False
    try:
        assign = c.assignment(g, m)
    except C.Proved:
        return
    if assign is None:
        res.inconclusive.append(
            f"{name}: {g.label}: " + ("solver gave no answer" if unknown else
                                      "abstract counterexample could not be "
                                      "turned into a concrete one"))
        return
    scales = c.scales_at(assign)
    failed, e = replay(func, assign, c.choices, scales, stubs)
    same = [x for x in failed if x[0] == g.label]
    # another assertion failing at this point counts unless it may be rounding
    other = [x for x in failed if scales.get(x[0], 1) > 0]
    if same or other:
        l, d = (same or other)[0]
        report(res, {"harness": name, "label": l, "detail": d,
                               "assign": assign, "choices": c.choices,
                               "scales": {l: scales.get(l, 0)},
                               "n_failed": len(failed)})
    elif e is not None and from_repo(e.__traceback__):
        report(res, {"harness": name,
                               "label": f"exception {type(e).__name__}",
                               "detail": f"{type(e).__name__}: {e}",
                               "assign": assign, "choices": c.choices,
                               "scales": {}})
    else:
        res.inconclusive.append(
            f"{name}: {g.label}: counterexample not reproduced on the real "
            f"code ({e!r})")
