"""Symmetries the SMEFT gains at special values of its couplings."""
import numpy as np

from vlib.h import *

from . import R01, T01, weyl_smeft

BOUNDS = ("All coefficients of the sectors concerned symbolic, of any size, as "
          "well as the gauge and Higgs couplings that the symmetry leaves "
          "free; Yukawa matrices at a generic complex point, as far as the "
          "symmetry leaves them free.")
ASSUMPTIONS = ["The memoised einsum of beta.py is replaced by einsum."]

TWO = [("G", "Gtilde"), ("W", "Wtilde"), ("phiG", "phiGtilde"),
       ("phiW", "phiWtilde"), ("phiB", "phiBtilde"), ("phiWB", "phiWtildeB")]
BOSONS = [x for t in TWO for x in t] + ["phi", "phiBox", "phiD"]
DIPOLES = ["uG", "uW", "uB", "dG", "dW", "dB", "eW", "eB"]
DIM4 = ["g", "gp", "gs", "Lambda", "m2"]


def point(c, Y, d, **k):
    """The arrays for the given coefficient arrays and couplings."""
    C = T01.zeros(c)
    C.update(d)
    C.update({n: k.get(n, 0) for n in DIM4})
    C.update({n: c.array(Y.get(n, np.zeros((3, 3)))) for n in
              ("Gu", "Gd", "Ge")})
    return C


def values(c, fams, bound=1.):
    """Symbolic arrays with the right symmetries for these families."""
    u = M("util").smeftutil
    fl, fam = R01.families()
    d = coeffs(c, sub(fl, [k for n in fams for k in fam[n]]), bound=bound)
    C = u.wcxf2arrays_symmetrized(d)
    return {n: C[n] for n in fams}


def couplings(c, *names):
    return {n: c.real(n, -2., 2.) for n in names}


def run(c, Y, d, k):
    return R01.rhs(point(c, Y, d, **k), corrected=R01.known_defect())


def H_(x):
    return np.conj(x).T if not hasattr(x, "conj") else x.conj().T


def exchange_fermions(x):
    return x.transpose(2, 3, 0, 1)


SAME = ["G", "Gtilde", "W", "Wtilde", "phiG", "phiGtilde", "phiW", "phiWtilde",
        "phiB", "phiBtilde", "phi", "phiBox", "phiD", "phiq3", "phil3", "qq1",
        "qq3", "ll", "lq1", "lq3", "le", "ee", "qe", *DIM4]
MINUS = ["phiWB", "phiWtildeB", "phiq1", "phil1", "phie"]
PAIRS = [("uphi", "dphi", 1), ("uG", "dG", 1), ("uW", "dW", 1),
         ("uB", "dB", 1), ("phiu", "phid", -1), ("uu", "dd", 1),
         ("eu", "ed", 1), ("lu", "ld", 1), ("qu1", "qd1", 1),
         ("qu8", "qd8", 1), ("Gu", "Gd", 1)]
TURN = ["ud1", "ud8", "quqd1", "quqd8"]


def turned(C):
    """u_R -> -d_R, d_R -> u_R, Higgs field -> its conjugate."""
    o = {n: C[n] for n in SAME if n in C}
    o.update({n: -C[n] for n in MINUS if n in C})
    for a, b, s in PAIRS:
        for x, y in ((a, b), (b, a)):
            if x in C:
                o[y] = s * C[x]
    for n in TURN:
        if n in C:
            o[n] = exchange_fermions(C[n])
    if "phiud" in C:
        o["phiud"] = H_(C["phiud"])
    return o


def up_down(fams, pt):
    """Without hypercharge and lepton Yukawa couplings right-handed up and
    down quarks can be exchanged."""
    def f(c):
        Y = R01.yukawas(pt)
        Y = {"Gu": Y["Gu"], "Gd": Y["Gd"]}
        d = values(c, fams)
        k = couplings(c, "g", "gs", "Lambda", "m2")
        a = turned(run(c, Y, d, k))
        b = run(c, {"Gu": Y["Gd"], "Gd": Y["Gu"]}, turned(d), k)
        # not if the lepton-Higgs coupling would be exchanged as well
        for n in a:
            c.eq(n, b[n], a[n], tol=1e-8, floor=1.)
        c.witness("running", b[turned(d) and list(turned(d))[0]])
    return H(f"up and down: {fams[0]}, point {pt}", f, stubs=R01.stubs,
             floats=True, ne_flips=0, cost=10)


def hermitian(c, name):
    x = c.carray(name, (3, 3))
    return (x + H_(x)) / 2


def custodial(pt):
    """Without hypercharge, equal Yukawa couplings of up and down quarks:
    right-handed quarks are doublets of another SU(2)."""
    def f(c):
        G = R01.yukawas(pt)["Gu"]
        k = couplings(c, "g", "gs", "Lambda", "m2")
        d = values(c, ["G", "Gtilde", "W", "Wtilde", "phiG", "phiGtilde", "phiW",
                       "phiWtilde", "phiB", "phiBtilde", "phi", "phiBox",
                       "phiq3", "phil3", "uphi", "uG", "uW", "uB"])
        d.update({"d" + n: d["u" + n] for n in ("phi", "G", "W", "B")})
        x = hermitian(c, "phid")
        d.update(phid=x, phiu=-x, phiud=2 * x)
        b = run(c, {"Gu": G, "Gd": G}, d, k)
        for n in ("phi", "G", "W", "B"):
            c.eq(n, b["u" + n], b["d" + n], tol=1e-8, floor=1.)
        c.eq("Yukawa", b["Gu"], b["Gd"], tol=1e-8, floor=1.)
        c.eq("phiu", b["phiu"], -b["phid"], tol=1e-8, floor=1.)
        c.eq("phiud", b["phiud"], 2 * b["phid"], tol=1e-8, floor=1.)
        for n in ("phiq1", "phil1", "phie", "phiD", "phiWB", "phiWtildeB"):
            c.eq(n, b[n], 0 * b[n], tol=1e-8, floor=1.)
        c.witness("running", b["phid"])
    return H(f"custodial symmetry, point {pt}", f, stubs=R01.stubs,
             floats=True, ne_flips=0, cost=10)


LEPTON = {"phiq1": "phil1", "phiq3": "phil3", "phid": "phie", "dphi": "ephi",
          "dW": "eW", "dB": "eB"}


def fourth_colour(pt, adjoint):
    """Only weak gauge bosons, only down-type Yukawa couplings, the same for
    leptons: leptons are quarks of a fourth colour."""
    def f(c):
        G = R01.yukawas(pt)["Gd"]
        k = couplings(c, "g", "Lambda", "m2")
        d = values(c, [*LEPTON] if adjoint else
                   [*LEPTON, "W", "Wtilde", "phiW", "phiWtilde", "phiB",
                    "phiBtilde", "phiWB", "phiWtildeB", "phi", "phiBox", "phiD",
                    "phiu"])
        r = -3 if adjoint else 1
        d.update({b: r * d[a] for a, b in LEPTON.items()})
        b = run(c, {"Gd": G, "Ge": G}, d, k)
        b0 = run(c, {"Gd": G, "Ge": G}, {}, k)
        for x, y in LEPTON.items():
            c.eq(y, b[y], r * b[x], tol=1e-8, floor=1.)
        c.eq("Ge", b["Ge"] - b0["Ge"], r * (b["Gd"] - b0["Gd"]), tol=1e-8,
             floor=1.)
        if adjoint:
            for n in BOSONS + DIM4 + ["phiu", "phiud", "uphi", "uG", "uW", "uB"]:
                c.eq(n, b[n], b0[n], tol=1e-8, floor=1.)
        c.witness("running", b["ephi"])
    return H(f"leptons as fourth colour{', adjoint' * adjoint}, point {pt}", f,
             stubs=R01.stubs, floats=True, ne_flips=0, cost=10)


def duality(part, parts):
    """Field strengths and dipoles of one helicity mix among themselves: an
    operator and its dual are real and imaginary part of one."""
    def f(c):
        Y = R01.yukawas(0)
        k = couplings(c, *DIM4)
        fams = ([x for t in TWO for x in t] + DIPOLES)
        inp = [[x for t in TWO for x in t]] + [[x] for x in DIPOLES]
        d = values(c, sum(inp[part::parts], []))
        e = {n: v * 1j for n, v in d.items() if n in DIPOLES}
        for a, b in TWO:
            if a in d:
                e[a], e[b] = -d[b], d[a]
        x, y = run(c, Y, d, k), run(c, Y, e, k)
        for n in DIPOLES:
            c.eq(n, y[n], 1j * x[n], tol=1e-8, floor=1.)
        for a, b in TWO:
            c.eq(a, y[a], -x[b], tol=1e-8, floor=1.)
            c.eq(b, y[b], x[a], tol=1e-8, floor=1.)
        c.witness("running", y[inp[part][0]])
    return H(f"duality {part + 1}/{parts}", f, stubs=R01.stubs, floats=True,
             ne_flips=0, cost=10)


def harnesses(tier):
    points = (0,) if tier == "quick" else (0, 1)
    inputs = [BOSONS, ["uphi", "dphi"], ["uG", "dG"], ["uW", "dW"],
              ["uB", "dB"], ["phiu", "phid", "phiud"], ["phiq1", "phiq3"],
              ["phil1", "phil3", "phie"], ["qq1"], ["qq3"], ["uu", "dd"],
              ["ud1"], ["ud8"], ["qu1", "qd1"], ["qu8", "qd8"], ["quqd1"],
              ["quqd8"]]
    return [up_down(f, p) for f in inputs for p in points] + \
        [custodial(p) for p in points] + \
        [fourth_colour(p, a) for a in (False, True) for p in points] + \
        [duality(i, 3) for i in range(3)]
