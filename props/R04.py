"""Running in the WET: the solution of the QCD and QED evolution equations."""
import math

import numpy as np

from vlib.h import *
from vlib import sym
from vlib.sym import Sym

BOUNDS = ("All coefficients of a sector symbolic at once (the flavour "
          "conserving sector in several parts), any ratio of alpha_s at the "
          "two scales between 1/5 and 5, all sectors of WET, WET-4 and WET-3, "
          "two sets of masses and couplings.")
ASSUMPTIONS = ["alpha_s and quark masses at the scales (rundec) are arbitrary "
               "inputs; numpy's eigenvalue routine runs on the numbers of the "
               "anomalous dimensions; exponents that differ by less than "
               "1e-8 count as equal."]

EFTS = {"WET": 5, "WET-4": 4, "WET-3": 3}
PAR = {0: {}, 1: dict(alpha_s=.11, alpha_e=.0075, m_b=4.5, m_c=1.5, m_s=.11,
                      m_u=.003, m_d=.006, m_e=.0006, m_mu=.12, m_tau=1.9)}
SCALES = (91.1876, 2.)
# d1 d2 d3 d1 has the flavour of the conjugates of the rest of sector sb
CONJUGATE = ("VddLL_1231", "VddRR_1231")
QUARKS = ("m_b", "m_c", "m_s", "m_u", "m_d")
STATE = {}


def names(eft, sector):
    return list(basis(eft, "JMS").sectors[sector])


class QCD:
    """alpha_s and the quark masses at the two scales."""

    def __init__(self):
        self.bad = []

    def check(self, ok, what):
        if not ok:
            self.bad.append(what)

    def alpha_s(self, scale, f, alphasMZ=0.1185, loop=3):
        self.check(f == STATE["f"], "flavours")
        self.check(alphasMZ == STATE["par"]["alpha_s"], "alpha_s(MZ)")
        return STATE["alpha_s"][scale]

    def mass(self, who):
        def f(m, scale, f, alphasMZ=0.1185, loop=3):
            self.check(f == STATE["f"], "flavours")
            self.check(alphasMZ == STATE["par"]["alpha_s"], "alpha_s(MZ)")
            k = [q for q in who if STATE["par"][q] == m]
            self.check(len(k) == 1, "mass of " + "/".join(who))
            return STATE["m"][scale][k[0] if k else who[0]]
        return f


def stubs(c):
    q = M("util.qcd")
    r = QCD()
    STATE["qcd"] = r
    return {(q, "alpha_s"): r.alpha_s, (q, "m_b"): r.mass(["m_b"]),
            (q, "m_c"): r.mass(["m_c"]),
            (q, "m_s"): r.mass(["m_s", "m_u", "m_d"]),
            (M("run.wet.rge"), "log"): Log(c)}


class Log:
    """log(1 / eta) as unknown L."""

    def __init__(self, c):
        self.c = c

    def __call__(self, x):
        if type(x) is not Sym:
            return math.log(x)
        if STATE["L"] is None:
            STATE["L"] = self.c.real("L", -2., 2.)
        (m, a), = x.t.items()
        (v, e), = m
        assert a == 1 and v == STATE["eta"] and abs(e) == 1
        return STATE["L"] * (-e)


def setup(c, f, par, eta):
    """Parameters at the scales; eta = alpha_s(in) / alpha_s(out)."""
    d = M("parameters").p
    p = dict({k: d[k] for k in d}, **PAR[par])
    a = .118 if par == 0 else .3
    m0 = {q: p[q] * (1.3 - .1 * i) for i, q in enumerate(QUARKS)}
    m1 = {q: p[q] * (.7 + .05 * i) for i, q in enumerate(QUARKS)}
    STATE.update(f=f, par=p, alpha_s={SCALES[0]: a, SCALES[1]: a / eta},
                 m=dict(zip(SCALES, (m0, m1))), L=None)


def scale(k, mu):
    """Dipoles evolve with the other operators of their dimension after a
    change of normalisation by masses and couplings."""
    n = k.split("_")[0]
    p = dict(STATE["par"], **STATE["m"][mu])
    g = (STATE["alpha_s"][mu] * (4 * math.pi)) ** .5
    e = math.sqrt(4 * math.pi * p["alpha_e"])
    if n in ("G", "Gtilde"):
        return g
    if n in ("uG", "dG", "ugamma", "dgamma", "egamma"):
        m = p[{"u": ("m_u", "m_c"), "d": ("m_d", "m_s", "m_b"),
               "e": ("m_e", "m_mu", "m_tau")}[n[0]][
                   max(int(x) for x in k.split("_")[1]) - 1]]
        return g / m if n[1:] == "G" else g ** 2 / (e * m)
    return 1.


def matrices(eft, sector):
    """Anomalous dimensions (transposed: rows are what changes) for the
    coefficients the theory has; None for invariant sectors."""
    D, adm = M("run.wet.definitions"), M("run.wet.adm")
    cl = D.sectors[sector]
    mine = names(eft, sector)
    if cl == "inv":
        return mine, None, None
    p = dict(STATE["par"], **STATE["m"][SCALES[0]])
    arg = [STATE["f"]] + [p["m_" + x] for x in
                          ("u", "d", "s", "c", "b", "e", "mu", "tau")]
    keys = D.coeffs[sector]
    i = [keys.index(k) for k in keys if k in mine]
    out = [np.asarray(getattr(adm, f"adm_{t}_{cl}")(*arg), complex).T[i][:, i]
           for t in "se"]
    return [keys[j] for j in i], out[0], out[1]


def runner(d, eft, par, **k):
    WC = M("wcxf").WC
    w = WC(eft, "JMS", SCALES[0], WC.dict2values(d))
    return w, M("run.wet.classes").WETrunner(
        w, parameters=dict(PAR[par]) if par else None, **k)


def derivative(c, f, eta):
    """f(eta) and eta d/deta f(eta), f gives a dictionary."""
    if not c.symbolic:
        h = 1e-3
        a, b, p, q = [f(eta * math.exp(n * h)) for n in (1, -1, 2, -2)]
        y = f(eta)
        return y, {k: (8 * (a[k] - b[k]) - (p[k] - q[k])) / (12 * h)
                   for k in y}
    y = f(eta)
    L = None if STATE["L"] is None else next(iter(STATE["L"].t))[0][0]

    def d(x):
        out = {}
        for m, a in sym.terms(x).items():
            for v, e in m:
                if v == STATE["eta"]:
                    sym.add_into(out, {m: sym.c_mul(a, float(e))})
                elif v == L:
                    r = tuple(z for z in m if z[0] != v) + \
                        (((v, e - 1),) if e != 1 else ())
                    sym.add_into(out, {tuple(sorted(r)):
                                       sym.c_mul(a, -float(e))})
        return Sym.make(out)
    return y, {k: d(x) for k, x in y.items()}


def solution(eft, sector, par, part=0, n=1):
    """The result solves the coupled evolution equations for all ratios
    of alpha_s."""
    f = EFTS[eft]

    def harness(c):
        eta = c.real("eta", .2, 5.)
        if c.symbolic:
            STATE["eta"] = next(iter(eta.t))[0][0]
        setup(c, f, par, eta)
        fl = realflags(eft, "JMS")
        mine = names(eft, sector)
        keys, S, E = matrices(eft, sector)
        c.ok("coefficients of the sector", set(keys) == set(mine))
        some = chunks(mine, n)[part]
        d = coeffs(c, sub(fl, some))
        # other sectors must not play a role
        other = [k for k in fl if k not in mine]
        other = other[::max(1, len(other) // 12)]
        d.update(coeffs(c, sub(fl, other)))
        b0 = 11 - 2 * f / 3
        kappa = STATE["par"]["alpha_e"] / (
            2 * b0 * STATE["alpha_s"][SCALES[0]])

        def result(eta, **order):
            setup(c, f, par, eta)
            w, r = runner(d, eft, par, **order)
            out = r.run(SCALES[1], sectors=(sector,))
            c.ok("metadata", (out.eft, out.basis, out.scale) ==
                 (eft, "JMS", SCALES[1]))
            c.ok("one sector", set(out.dict) <= set(mine))
            for k, x in d.items():
                c.eq(f"input {k}", w.dict[k], x)
            return {k: out.dict.get(k, 0) for k in mine}

        def mix(k, x):
            return conj(x) if k in CONJUGATE else x

        def scaled(out):
            return {k: mix(k, out[k]) * scale(k, SCALES[1]) for k in keys}
        C0 = {k: mix(k, d.get(k, 0)) * scale(k, SCALES[0]) for k in keys}
        one = result(1.)
        for k in keys:
            a = mix(k, one[k]) * scale(k, SCALES[1])
            c.eq(f"initial {k}", a, C0[k], floor=1e-3)
        if S is None:
            out = result(eta)
            for k in keys:
                c.eq(f"invariant {k}", out[k], d.get(k, 0))
            return
        y, dy = derivative(c, lambda t: scaled(result(t, qed_order=0)), eta)
        check(c, "QCD", keys, y, dy, S / (2 * b0), None, None)
        z, dz = derivative(c, lambda t: scaled(result(t)), eta)
        # to first order in alpha_e
        q = {k: (z[k] - y[k]) / kappa for k in keys}
        dq = {k: (dz[k] - dy[k]) / kappa for k in keys}
        check(c, "QED", keys, q, dq, S / (2 * b0), E, {
            k: y[k] * eta for k in keys})
        for k in keys:
            if fl[k]:
                c.eq(f"real {k}", z[k].imag if type(z[k]) is Sym
                     else complex(z[k]).imag, 0, floor=1e-3)
        still = result(eta, qed_order=0, qcd_order=0)
        for k in keys:
            c.eq(f"no running {k}", mix(k, still[k]) * scale(k, SCALES[1]),
                 C0[k], floor=1e-3)
        for x in STATE["qcd"].bad:
            c.ok("parameters: " + x, False)
        for k in some[:3]:
            c.witness(k, z[k])
    return H(f"{eft} {sector}, parameters {par}" +
             (f", part {part + 1}/{n}" if n > 1 else ""), harness, stubs=stubs,
             floats=True, ne_flips=0, cost=len(names(eft, sector)) ** 2 / n)


def sample(eft, n, off=0):
    """Some coefficients of every sector."""
    out = []
    for s in basis(eft, "JMS").sectors:
        k = names(eft, s)
        out += k[off % len(k)::max(1, len(k) // n)][:n]
    return out


def routes(eft, n, off):
    """Selecting sectors and continuous solutions give the same values;
    parameters that are not given have default values."""
    f = EFTS[eft]

    def harness(c):
        setup(c, f, 1, .7)
        D = M("run.wet.definitions")
        fl = realflags(eft, "JMS")
        some = sample(eft, n, off)
        d = coeffs(c, sub(fl, some))
        par = dict(PAR[1])
        WC = M("wcxf").WC
        w = WC(eft, "JMS", SCALES[0], WC.dict2values(d))
        r = M("run.wet.classes").WETrunner(w, parameters=par)
        before = dict(M("parameters").p)
        whole = r.run(SCALES[1])
        c.ok("known names", set(whole.dict) <= set(fl))
        secs = list(basis(eft, "JMS").sectors)
        union = {}
        for i, s in enumerate(secs):
            if i % 3 == off % 3:
                one = r.run(SCALES[1], sectors=(s,)).dict
                c.ok(f"only {s}", set(one) <= set(names(eft, s)))
                for k in names(eft, s):
                    c.eq(f"{s} alone: {k}", one.get(k, 0),
                         whole.dict.get(k, 0))
                if s not in D.sectors:
                    c.ok(f"sector {s} known", False)
        two = tuple(secs[(7 * off + i) % len(secs)] for i in range(3))
        three = r.run(SCALES[1], sectors=two).dict
        for k in fl:
            c.eq(f"three sectors: {k}", three.get(k, 0),
                 whole.dict.get(k, 0)
                 if any(k in names(eft, s) for s in two) else 0)
        c.raises("same scale", ValueError,
                 lambda: r.run_continuous(SCALES[0]))
        sol = r.run_continuous(SCALES[1], sectors=two)
        c.ok("range", (sol.scale_min, sol.scale_max) ==
             (SCALES[1], SCALES[0]))
        y = sol.fun(SCALES[1])
        for k in fl:
            c.eq(f"continuous: {k}", y.get(k, 0), three.get(k, 0))
        up = WC(eft, "JMS", SCALES[1], WC.dict2values(d))
        sol = M("run.wet.classes").WETrunner(up, parameters=par)\
            .run_continuous(SCALES[0])
        c.ok("upward range", (sol.scale_min, sol.scale_max) ==
             (SCALES[1], SCALES[0]))
        for k, x in d.items():
            c.eq(f"input {k}", w.dict[k], x)
        c.ok("parameters unmodified", par == PAR[1] and
             before == dict(M("parameters").p))
        # coefficients that are missing are zero
        again = WC(eft, "JMS", SCALES[0], WC.dict2values(
            {k: d[k] for k in some[::2]}))
        zero = WC(eft, "JMS", SCALES[0], WC.dict2values(
            {k: d[k] if i % 2 == 0 else 0. for i, k in enumerate(some)}))
        a = M("run.wet.classes").WETrunner(again, parameters=par)\
            .run(SCALES[1]).dict
        b = M("run.wet.classes").WETrunner(zero, parameters=par)\
            .run(SCALES[1]).dict
        for k in fl:
            c.eq(f"missing is zero: {k}", a.get(k, 0), b.get(k, 0))
        for x in STATE["qcd"].bad:
            c.ok("parameters: " + x, False)
        c.witness("out", whole.dict[some[0]])
    return H(f"{eft}, ways to run {off}", harness, stubs=stubs,
             floats=True, ne_flips=0, cost=10 ** 5)


def check(c, what, keys, y, dy, A, B, s):
    """dy = A y + B s"""
    for i, k in enumerate(keys):
        rhs = 0
        size = 1e-3
        for j in np.nonzero(A[i])[0]:
            rhs = rhs + y[keys[j]] * A[i, j]
            size = max(size, abs(A[i, j]))
        if B is not None:
            for j in np.nonzero(B[i])[0]:
                rhs = rhs + s[keys[j]] * B[i, j]
                size = max(size, abs(B[i, j]))
        c.eq(f"{what} {k}", dy[k], rhs, floor=size)


def harnesses(tier):
    out = []
    D = M("run.wet.definitions")
    for eft in EFTS:
        for i in range(3):
            out.append(routes(eft, 2, i))
        for s in basis(eft, "JMS").sectors:
            if s in D.sectors:
                n = -(-len(names(eft, s)) // 40)
                for par in ((0, 1) if tier == "thorough" or n == 1 else
                            (EFTS[eft] % 2,)):
                    for i in range(n):
                        out.append(solution(eft, s, par, i, n))
    return out
