"""Matching of the SMEFT onto the WET at one loop; symmetries."""
from vlib.h import *

from . import M01, flavour, tw

BOUNDS = ("All 2499 real degrees of freedom of the Warsaw up basis symbolic "
          "at once, to first order in the coefficients (linearity: any size, "
          "without the coefficients entering the electroweak input "
          "relations); loop_order absent, None, 0, 1 or 2; the parameter sets "
          "of M01; one matching scale per harness; CP conjugation and one "
          "generic rephasing of all nine fermion fields.")
ASSUMPTIONS = ["ckmutil (CKM parametrisation) at fixed parameters, or "
               "uninterpreted."]
EPS = M01.EPS


def params(which, loop):
    gp, p = M01.given(which)
    if loop is not None:
        gp = dict(gp or {}, loop_order=loop)
    return gp, p


def match(C, mu, p):
    return M("match.smeft").match_all(C, mu, p)


def symmetry(what, which, loop, mu):
    def f(c):
        gp, p = params(which, loop)
        eps = c.small(EPS)
        C = {k: v * eps for k, v in M01.smeft(c).items()}
        a, b = flavour.covariance(
            c, what, lambda x: match(x, mu, dict(gp or {})), C, "SMEFT",
            "WET")
        a = c.first("transformed", a, eps)
        b = c.first("matched", b, eps)
        c.eq("", a, b, tol=1e-10, floor=1e-2, keys="strict")
        c.witness("matched", a)
    return H(f"{what}, {'loop' if loop else 'tree'}", f,
             stubs=flavour.stubs, floats=True, cost=60 if loop else 30)


def linear(which, mu):
    """Without the coefficients entering the electroweak input relations the
    one-loop matching conditions are linear."""
    def f(c):
        gp, p = params(which, 1)
        lam = c.real("lambda", 0.1, 100.)
        C = M01.smeft(c, without=M01.EW)
        a = match({k: v * lam for k, v in C.items()}, mu, dict(gp))
        b = match(dict(C), mu, dict(gp))
        c.eq("scaled", a, {k: v * lam for k, v in b.items()}, keys="strict")
        c.witness("b", b)
    return H(f"linear, parameters {which}", f, floats=True, cost=60)


def nothing(c):
    """No coefficients: no WET coefficients, at any scale."""
    gp, _ = params(c.choice("parameters", list(M01.SETS)), 1)
    C = c.choice("coefficients", [{}, {"phiD": 0, "lq1_1223": 0.0}])
    got = match(dict(C), c.real("mu", 60., 1e4), gp)
    c.ok("coefficients", len(got) > 2000)
    c.eq("no coefficients", got, {k: 0 for k in got}, tol=1e-12, scale=1)


def order(c):
    """The loop contribution is added for loop_order=1 only."""
    eps = c.small(EPS)
    C = {k: v * eps for k, v in M01.smeft(
        c, only=M01.some("Warsaw up", 2)).items()}
    w = c.choice("parameters", ["defaults", "some"])
    x = c.choice("loop_order", ["absent", 0, 2, 1] if w == "some" else
                 [None, 1.0])
    gp, _ = M01.given(w)
    tree = match(dict(C), 90., None if gp is None else dict(gp))
    q = dict(gp or {})
    if x != "absent":
        q["loop_order"] = x
    inq = dict(q)
    got = match(dict(C), 90., q)
    c.ok("parameters", q == inq)
    if x != 1:
        c.eq("tree level", c.first("got", got, eps),
             c.first("tree", tree, eps), keys="strict", tol=1e-9, floor=1e-2)
    else:
        a, b = c.first("got", got, eps), c.first("tree", tree, eps)
        c.ok("keys", set(a) == set(b))
        k = M("match.smeft_loop")
        u = M("util")
        p = dict(M("run.smeft.smpar").p)
        p.update(gp or {})
        L = k.match_all_array(M01.array(C), p, scale=90.)
        L = M("translate.wet").rotate_down(L, p)
        L = u.smeftutil.arrays2wcxf(u.wet_jms.unscale_dict_wet(L))
        L = c.first("loop", {k: L[k] for k in a}, eps)
        c.eq("sum", a, {k: b[k] + L[k] for k in a}, tol=1e-9, floor=1e-2)
    c.witness("got", got)


def harnesses(tier):
    out = []
    for what in ("CP", "phase"):
        out.append(symmetry(what, "given", None, 80.))
        out.append(symmetry(what, "given", 1, 120.))
    out.append(linear("some", 91.))
    if tier != "quick":
        out.append(linear("defaults", 200.))
    out.append(H("no coefficients", nothing, stubs=tw.stubs, floats=True, cost=20))
    out.append(H("loop_order", order, floats=True, cost=60))
    return out
