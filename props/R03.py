"""Standard Model parameters in the SMEFT: the extraction inverts the
prediction."""
import math

import numpy as np

from vlib.h import *
from vlib import sym
from vlib.ctx import coef_scale, Encoder

from . import T01

BOUNDS = ("Every Wilson coefficient that enters (phi, phiBox, phiD, phiG, "
          "phiW, phiB, uphi, dphi, ephi) symbolic at once, up to about a tenth "
          "of 1/v^2; phiWB at five values; two sets of physical parameters; Higgs "
          "potential: VEV and mass at 3 points, "
          "m_h^2/v^2 changed by up to 10 % by phiBox.")
ASSUMPTIONS = ["Square roots of perfect squares are rewritten "
               "after their sign was proved."]

P = {0: {}, 1: dict(GF=1.3e-5, alpha_e=.0085, alpha_s=.11, Vus=.21,
                    Vub=.0041, Vcb=.039, gamma=1.0, m_e=.3, m_mu=.9,
                    m_tau=2.5, m_u=.011, m_c=.7, m_d=.02, m_s=.08, m_b=3.1,
                    m_t=158., m_W=78.1, m_Z=90., m_h=117.)}


def potential(c, v, mh2, small):
    """phi, phiBox, phiD; e = mh^2/v^2 (1 - 2 Ckin v^2) is the independent
    variable instead of phiBox."""
    s = M("run.smeft.smpar")
    sign = c.choice("phi", [0, 1, -1])
    C = {"phiD": c.real("phiD", -small, small), "phi": 0.}
    if sign:
        C["phi"] = c.real("phi", small / 1e4, small) if sign > 0 else \
            c.real("phi", -small, -small / 1e4)
    L = s.vMh2_to_m2Lambda(v, mh2, dict(phi=0., phiBox=0., phiD=0.))["Lambda"]
    e = c.real("e", L * .9, L * 1.1)
    C["phiBox"] = C["phiD"] / 4 - (e - L) / (2 * mh2)
    return C, e


def wilson_coefficients(c, v, mh2, small=1e-6):
    C, e = potential(c, v, mh2, small)
    C["phiWB"] = c.choice("phiWB", [0., 1e-6, -1e-6, 3e-7, -2.5e-6])
    for k in ("phiG", "phiW", "phiB"):
        C[k] = c.real(k, -small, small)
    for k in ("uphi", "dphi", "ephi"):
        C[k] = c.carray(k, (3, 3), bound=small)
    C["llphiphi"] = c.array(np.diag([1e-16, 3e-16, 7e-16]).astype(complex))
    return C, e


class Root:
    """sqrt that knows the roots of perfect squares; that they are not
    negative is asserted."""

    def __init__(self, c):
        self.c, self.roots = c, []

    def __call__(self, x):
        if type(x) is not sym.Sym:
            return math.sqrt(x)
        if x.is_const():
            return math.sqrt(float(x))
        for e in self.roots:
            if type(x) is sym.Sym and size(x - e * e) < 1e-10 * size(x):
                self.c.ok("square root", e >= 0)
                return e
        return sym.sqrt(x)


def size(x):
    return coef_scale(sym.terms(x), Encoder())


def higgs(n):
    v, mh, small = [(246.22, 125.1, 1e-6), (180., 340., 2e-6),
                    (1000., 70., 1e-8)][n]

    def f(c):
        s = M("run.smeft.smpar")
        C, r = potential(c, v, mh ** 2, small)
        d = s.vMh2_to_m2Lambda(v, mh ** 2, C)
        c.ok("keys", set(d) == {"m2", "Lambda"})
        # minimum of the potential and mass, from the Lagrangian
        c.eq("stationary", d["m2"],
             d["Lambda"] / 2 * v ** 2 - 3 / 4 * C["phi"] * v ** 4)
        kin = C["phiBox"] - C["phiD"] / 4
        c.eq("mass", d["Lambda"] * v ** 2 - 3 * C["phi"] * v ** 4,
             mh ** 2 * (1 - 2 * kin * v ** 2))
        s.sqrt.roots = [r]
        e = s.m2Lambda_to_vMh2(d["m2"], d["Lambda"], C)
        c.eq("v", e["v"], v)
        c.eq("Mh2", e["Mh2"], mh ** 2)
        c.witness("m2", d["m2"])
        for a in ((-v, mh ** 2), (v, -mh ** 2), (0., mh ** 2), (v, 0.)):
            c.raises("non-positive", ValueError,
                     lambda: s.vMh2_to_m2Lambda(*a, C))
    return H(f"Higgs potential {n}", f, cost=5, stubs=lambda c: {
        (M("run.smeft.smpar"), "sqrt"): Root(c)})


def no_vacuum(c):
    """Potentials without a minimum at positive v^2 are refused."""
    s = M("run.smeft.smpar")
    C = {"phi": 0., "phiBox": c.real("phiBox", -1e-7, 1e-7),
         "phiD": c.real("phiD", -1e-7, 1e-7)}
    m2 = c.real("m2", 100., 2e4)
    L = c.real("Lambda", .05, 2.)
    c.raises("m2 < 0", ValueError, lambda: s.m2Lambda_to_vMh2(-m2, L, C))
    c.raises("Lambda < 0", ValueError, lambda: s.m2Lambda_to_vMh2(m2, -L, C))
    C["phi"] = c.real("phi", 1e-5, 1e-4)
    c.assume(L * L < 11 * C["phi"] * m2)
    c.raises("no extremum", ValueError, lambda: s.m2Lambda_to_vMh2(m2, L, C))


class SVD:
    """ckmutil.diag.msvd for matrices proved to be equal to given ones."""

    def __init__(self, c, known):
        self.c, self.known = c, known   # up, down, lepton mass matrices
        self.real = M("run.smeft.smpar").ckmutil.diag.msvd

    def __call__(self, m):
        if not self.c.symbolic:
            return self.real(m)
        val = np.array([[complex(sym.c_complex(sym.terms(x).get((), 0)))
                         for x in r] for r in m])
        k = min(self.known, key=lambda k: abs(val - k).sum())
        self.c.eq("mass matrix", m, self.c.array(k), scale=1, tol=1e-7)
        return [self.c.array(x) for x in self.real(k)]


def stubs(pt, basis):
    def f(c):
        s = M("run.smeft.smpar")
        p = dict(s.p, **P[pt])
        K = s.ckmutil.ckm.ckm_tree(p["Vus"], p["Vub"], p["Vcb"], p["gamma"])
        m = {q: np.diag([p["m_" + x] for x in y]) + 0j for q, y in
             dict(u=("u", "c", "t"), d=("d", "s", "b"),
                  e=("e", "mu", "tau")).items()}
        if basis == "Warsaw":
            m["u"] = K.conj().T @ m["u"]
        else:
            m["d"] = K @ m["d"]
        out = {(s, "sqrt"): Root(c), (s, "p"): p,
               (s.ckmutil.diag, "msvd"): SVD(c, list(m.values())),
               (s.ckmutil.diag, "mtakfac"): lambda m: (None, None)}
        return out
    return f


def roundtrip(pt, basis, plain=False):
    """smpar(smeftpar(C)) are the physical parameters, whatever C."""
    def f(c):
        s = M("run.smeft.smpar")
        v2 = 1 / math.sqrt(2) / s.p["GF"]
        C, r = wilson_coefficients(c, math.sqrt(v2), s.p["m_h"] ** 2)
        if plain:
            C.update(phiW=0., phiB=0.)
        d = s.smeftpar(91.1876, C, basis)
        c.ok("keys", set(d) == {"m2", "Lambda", "g", "gp", "gs", "Gu", "Gd",
                                "Ge"})
        p, v = s.p, math.sqrt(v2)
        for k, x in (("gs", "phiG"), ("g", "phiW")):
            bar = {"gs": math.sqrt(4 * math.pi * p["alpha_s"]),
                   "g": 2 * p["m_W"] / v}[k]
            c.eq(k, d[k], bar * (1 - C[x] * v2))
        M0 = M("run.smeft.smpar").ckmutil.diag.msvd.known
        for k, x, m in zip(("Gu", "Gd", "Ge"), ("uphi", "dphi", "ephi"), M0):
            c.eq(k, d[k], c.array(m) * (math.sqrt(2) / v) + C[x] * (v2 / 2))
        C.update(d)
        s.sqrt.roots = [r]
        q = s.smpar(C)
        c.ok("all parameters", set(q) == set(s.p))
        for k in q:
            if k != "m_Z":
                c.eq(k, q[k], s.p[k])
        g, gp = 2 * p["m_W"] / v, d["gp"] / (1 - C["phiB"] * v2)
        if plain:
            z = (g * g + gp * gp)
            c.eq("m_Z", q["m_Z"], math.sqrt(z) / 2 * v * (
                1 + C["phiWB"] * v2 * g * gp / z) * (1 + C["phiD"] * v2 / 4))
            c.eq("e", g * gp / math.sqrt(z) * (1 - C["phiWB"] * v2 * g * gp
                                               / z),
                 math.sqrt(4 * math.pi * p["alpha_e"]))
        c.witness("Gu", C["Gu"])
        c.witness("gs", C["gs"])
    return H(f"parameters, point {pt}, {basis}" + ", m_Z" * plain, f,
             stubs=stubs(pt, basis), cost=10)


def harnesses(tier):
    out = [higgs(n) for n in range(3)] + [H("no vacuum", no_vacuum)]
    for pt in (0, 1):
        for b in ("Warsaw", "Warsaw up"):
            out.append(roundtrip(pt, b))
            out.append(roundtrip(pt, b, True))
    return out
