"""Currents, field strength operators and dipoles run as their charges say: one
formula for all fermions, in terms of hypercharges and Casimir invariants."""
import numpy as np

from vlib.h import *

from . import R01, R08, T01
from .weyl_smeft import OPS

BOUNDS = ("All coefficients of the three-boson operators, the Higgs-field "
          "strength operators and the dipoles symbolic, of any size, and all "
          "gauge and Higgs couplings and a common factor of the Yukawa "
          "matrices, which are otherwise fixed at a generic complex point. "
          "Influence of currents and dipoles on four-fermion operators: R06.")
ASSUMPTIONS = ["The memoised einsum of beta.py is replaced by einsum."]

CF3, CA3, CF2, CA2, YH = 4 / 3, 3., 3 / 4, 2., 1 / 2
# hypercharge of doublet and singlet, isospin sign, colours
FERMIONS = {"u": (1 / 6, 2 / 3, 1, 3), "d": (1 / 6, -1 / 3, -1, 3),
            "e": (-1 / 2, -1., -1, 1)}
PARTNER = {"u": "d", "d": "u", "e": None}
# leading coefficients of the gauge couplings' running
B1 = -(2 / 3 * 3 * (6 * (1 / 6) ** 2 + 3 * (2 / 3) ** 2 + 3 * (1 / 3) ** 2
                    + 2 / 4 + 1) + 1 / 3 * 2 / 4)
B2 = 11 / 3 * 2 - 2 / 3 * 1 / 2 * 3 * 4 - 1 / 3 / 2
B3 = 11 / 3 * 3 - 2 / 3 * 1 / 2 * 3 * 4
TWO = [t for t in R08.TWO]
BOSE = [x for t in TWO for x in t]
INPUTS = [BOSE, ["uG", "dG"], ["uW", "dW"], ["uB", "dB"], ["eW", "eB"]]


def H_(x):
    return x.conj().T if hasattr(x, "conj") else np.conj(x).T


def formula(C, x, Y):
    """Everything linear in these operators. x: couplings, Y: Yukawas."""
    g, gp, gs, L, m2 = (x[n] for n in ("g", "gp", "gs", "Lambda", "m2"))
    y2 = x["y"] * x["y"]
    GH = sum(n * np.trace(Y[f] @ Y[f].conj().T).real
             for f, (_, _, _, n) in FERMIONS.items()) * y2
    # an operator and its dual: real and imaginary part
    Z = {a: C.get(a, 0) + 1j * C.get(b, 0) for a, b in TWO}
    D = {f: {X: C.get(f + X) for X in "GWB" if f + X in C} for f in FERMIONS}
    G = {f: Y[f] * x["y"] for f in FERMIONS}
    zero = np.zeros((3, 3))

    def d(f, X):
        v = D[f].get(X)
        return zero if v is None else v

    def tr(f, X):
        return np.trace(d(f, X) @ H_(G[f]))
    phi2 = 6 * L + 2 * GH - 9 / 2 * g * g - 3 / 2 * gp * gp
    out = {}
    Zd = {"G": (12 * CA3 - 3 * B3) * gs * gs * Z["G"],
          "W": (12 * CA2 - 3 * B2) * g * g * Z["W"],
          "phiG": (phi2 - 2 * B3 * gs * gs) * Z["phiG"],
          "phiB": (phi2 + (2 - 2 * B1) * gp * gp) * Z["phiB"]
          + 6 * YH * g * gp * Z["phiWB"],
          "phiW": (phi2 + (2 - 2 * B2) * g * g) * Z["phiW"]
          + 2 * YH * g * gp * Z["phiWB"] - 15 * g * g * g * Z["W"],
          "phiWB": (phi2 - 4 * L + (9 - B2) * g * g
                    + (1 - B1) * gp * gp) * Z["phiWB"]
          + 4 * YH * g * gp * (Z["phiB"] + Z["phiW"])
          + 6 * YH * gp * g * g * Z["W"]}
    for f, (yd, ys, e, n) in FERMIONS.items():
        if n == 3:
            Zd["phiG"] = Zd["phiG"] - 4 * gs * tr(f, "G")
        Zd["phiB"] = Zd["phiB"] - 4 * n * (yd + ys) * gp * tr(f, "B")
        Zd["phiW"] = Zd["phiW"] - 2 * n * g * tr(f, "W")
        Zd["phiWB"] = Zd["phiWB"] + e * n * (2 * g * tr(f, "B")
                                             + 4 * gp * (yd + ys) * tr(f, "W"))
    for a, b in TWO:
        out[a], out[b] = np.real(Zd[a]), np.imag(Zd[a])
    V = np.real(Z["phiW"]), np.real(Z["phiB"]), np.real(Z["phiWB"])
    out["g"] = -8 * g * m2 * V[0]
    out["gp"] = -8 * gp * m2 * V[1]
    out["gs"] = -8 * gs * m2 * np.real(Z["phiG"])
    # the gauge bosons' masses depend on their kinetic terms
    quartic = 9 * g * g * V[0] + 3 * gp * gp * V[1] + 3 * g * gp * V[2]
    out["Lambda"] = 4 * m2 * quartic
    out["phi"] = 2 * L * quartic - 3 * (g * g + gp * gp) * (
        gp * gp * V[1] + g * gp * V[2] + g * g * V[0]) - 6 * g ** 4 * V[0]
    for f, (yd, ys, e, n) in FERMIONS.items():
        q = PARTNER[f]
        c3 = CF3 if n == 3 else 0
        Yf = G[f]
        K, R = Yf @ H_(Yf), H_(Yf) @ Yf
        P = G[q] @ H_(G[q]) if q else zero
        legs = -3 * CF2 * g * g + \
            (-3 * ys ** 2 + 8 * ys * yd - 3 * yd ** 2) * gp * gp
        same = legs + 2 * c3 * gs * gs
        W = (same + (6 * CF2 - B2) * g * g) * d(f, "W") + \
            g * gp * (3 * yd - ys) * d(f, "B") + \
            2 * c3 * g * gs * d(f, "G") - \
            (g * Z["phiW"] - e * gp * (yd + ys) * Z["phiWB"]) * Yf
        B = (same + (6 * ys ** 2 - 4 * ys * yd + 6 * yd ** 2 - B1) * gp * gp) \
            * d(f, "B") + 4 * CF2 * g * gp * (3 * yd - ys) * d(f, "W") + \
            4 * c3 * gp * gs * (yd + ys) * d(f, "G") - \
            (2 * gp * (yd + ys) * Z["phiB"] - e * 3 / 2 * g * Z["phiWB"]) * Yf
        # doublet and singlet self-energies, Higgs exchange
        new = {"W": W, "B": B}
        if n == 3:
            new["G"] = (legs + (10 * CF3 - 4 * CA3 - B3) * gs * gs) \
                * d(f, "G") + 8 * CF2 * g * gs * d(f, "W") + \
                4 * gp * gs * (yd + ys) * d(f, "B") - \
                4 * gs * Z["phiG"] * Yf + 3 * CA3 * gs * gs * Z["G"] * Yf
        for X in new:
            c = d(f, X)
            w = X == "W"
            v = GH * c + (K + P) / 2 @ c + 2 * c @ R + \
                (0 if w else 2) * K @ c + (2 if w else -2) * P @ c
            if q:
                v = v - d(q, X) @ H_(G[q]) @ Yf
            out[f + X] = new[X] + v
        u = (9 * g * g * Z["phiW"] + 12 * (yd ** 2 + ys ** 2) * gp * gp
             * Z["phiB"] - 6 * e * yd * g * gp * Z["phiWB"]
             + 24 * c3 * gs * gs * Z["phiG"]) * Yf
        s = 6 * (yd + ys)
        u = u - gp * (s * gp * gp - 3 * e * g * g) * d(f, "B") \
            + g * (e * s * gp * gp - 9 * g * g) * d(f, "W")
        for X, k in (("B", s * gp), ("G", 12 * c3 * gs)):
            if X in new:
                u = u - k * (d(f, X) @ R + K @ d(f, X))
        u = u - 3 * g * (d(f, "W") @ R - K @ d(f, "W")) - 12 * g * P @ d(f, "W")
        if q:
            u = u - 6 * g * d(q, "W") @ H_(G[q]) @ Yf
        out[f + "phi"] = u
    return out


CURRENTS = [["phiBox", "phiD"], ["phil1", "phil3", "phie"],
            ["phiq1", "phiq3", "phiu", "phid", "phiud"]]
DOUBLET = {"q": "ud", "l": "e"}


def currents(C, x, Y):
    """Everything linear in the operators with two Higgs fields and one or two
    derivatives."""
    g, gp, L, m2 = (x[n] for n in ("g", "gp", "Lambda", "m2"))
    zero = np.zeros((3, 3))
    one = np.eye(3)
    G = {f: Y[f] * x["y"] for f in FERMIONS}
    K = {f: y @ H_(y) for f, y in G.items()}
    R = {f: H_(y) @ y for f, y in G.items()}
    GH = sum(n * np.trace(K[f]).real for f, (_, _, _, n) in FERMIONS.items())
    box, D = C.get("phiBox", 0), C.get("phiD", 0)

    def c(n):
        v = C.get("phi" + n)
        return zero if v is None else v
    ud = {"u": H_(c("ud")), "d": c("ud")}
    j1 = sum(n * (2 * YF * np.trace(c(F + "1")) + sum(
        FERMIONS[s][1] * np.trace(c(s)) for s in ss))
        for F, YF, n, ss in (("q", 1 / 6, 3, "ud"), ("l", -1 / 2, 1, "e")))
    j3 = 3 * np.trace(c("q3")) + np.trace(c("l3"))
    xi = 4 / 3 * YH * (box + D) + 8 / 3 * j1
    e2 = e3 = e4 = 0
    for f, (yd, ys, e, n) in FERMIONS.items():
        F = "q" if n == 3 else "l"
        t1, t3, t = (np.trace(c(F + "1") @ K[f]), np.trace(c(F + "3") @ K[f]),
                     np.trace(c(f) @ R[f]))
        e2 = e2 - 2 * n * t3
        e3 = e3 + n * (e * (t - t1) + 3 * t3)
        e4 = e4 + 4 * n * e * (t - t1)
    t = 2 * np.real(np.trace(c("ud") @ H_(G["d"]) @ G["u"]))
    e2, e3, e4 = e2 + 3 * t, e3 - 3 * t, e4 + 6 * t
    g2, p2 = g * g, gp * gp
    out = {
        "phiBox": (12 * L + 4 * GH - 4 * g2 - 16 / 3 * YH ** 2 * p2) * box
        + 20 / 3 * YH ** 2 * p2 * D + 2 * g2 * j3 + 4 / 3 * YH * p2 * j1
        - 2 * e3,
        "phiD": (6 * L + 4 * GH + 9 / 2 * g2 - 10 / 3 * YH ** 2 * p2) * D
        + 80 / 3 * YH ** 2 * p2 * box + 16 / 3 * YH * p2 * j1 - 2 * e4,
        "m2": 4 * m2 * m2 * (D - 2 * box),
        "Lambda": 4 * m2 * ((10 / 3 * g2 - 16 * L) * box
                            + (6 * L + 3 / 2 * (p2 - g2)) * D + 2 * e2
                            + 4 / 3 * g2 * j3),
        "phi": L * (20 / 3 * g2 - 40 * L) * box
        + (3 * L * (p2 - g2) + 12 * L * L - 3 / 4 * (g2 + p2) * (g2 + p2)) * D
        + 8 / 3 * L * g2 * j3 + 4 * L * e2,
        "phiud": (2 * box - D) * H_(G["u"]) @ G["d"]
        - 2 * H_(G["u"]) @ G["d"] @ c("d") + 2 * c("u") @ H_(G["u"]) @ G["d"]
        + 3 * R["u"] @ c("ud") + 3 * c("ud") @ R["d"]
        + (2 * GH - 3 * p2) * c("ud")}

    def anti(a, b):
        return a @ b + b @ a
    for F, ss in DOUBLET.items():
        yd = 1 / 6 if F == "q" else -1 / 2
        a, b = c(F + "1"), c(F + "3")
        A = yd / 2 * xi * p2 * one + (4 / 3 * YH ** 2 * p2 + 2 * GH) * a
        B = 2 / 3 * g2 * (box / 4 + j3) * one + \
            ((1 / 3 - 3 * CA2) * g2 + 2 * GH) * b
        for f in ss:
            e = FERMIONS[f][2]
            A = A + e / 2 * (box + D) * K[f] - G[f] @ c(f) @ H_(G[f]) + \
                2 * anti(K[f], a) - 9 / 2 * e * anti(K[f], b)
            B = B - box / 2 * K[f] - 3 / 2 * e * anti(K[f], a) + \
                anti(K[f], b)
        out[f"phi{F}1"], out[f"phi{F}3"] = A, B
    for f, (yd, ys, e, n) in FERMIONS.items():
        F, q, y = "q" if n == 3 else "l", PARTNER[f], G[f]
        a, b, s = c(F + "1"), c(F + "3"), c(f)
        out["phi" + f] = ys / 2 * xi * p2 * one + \
            (4 / 3 * YH ** 2 * p2 + 2 * GH) * s - e * (box + D) * R[f] - \
            2 * H_(y) @ a @ y + 4 * anti(R[f], s)
        mass = (D / 2 - box) * y - e * (a @ y - y @ s) + 3 * b @ y
        u = (10 / 3 * g2 * box + 3 / 2 * (p2 - g2) * D + 4 / 3 * g2 * j3
             + 2 * e2) * y + (6 * yd * p2 - 3 * e * g2) * y @ s + \
            6 * ys * p2 * (a - e * b) @ y + (D - 6 * box) * y @ R[f] - \
            2 * e * (a @ y @ R[f] - y @ R[f] @ s)
        if q:
            m = H_(y) @ G[q] @ ud[f]
            out["phi" + f] = out["phi" + f] + e * (m + H_(m))
            mass = mass - G[q] @ ud[f]
            u = u + 3 * g2 * G[q] @ ud[f] + 6 * b @ K[q] @ y - \
                2 * K[q] @ G[q] @ ud[f]
        out["G" + f] = 2 * m2 * mass
        out[f + "phi"] = u + 2 * L * mass
    return out


def response(fams, pt):
    def f(c):
        Y0 = R01.yukawas(pt)
        Y = {f: Y0["G" + f] for f in FERMIONS}
        x = R08.couplings(c, "g", "gp", "gs", "Lambda", "m2", "y")
        d = R08.values(c, fams)
        C = T01.zeros(c)
        C.update({n: v for n, v in x.items() if n != "y"})
        C.update({n: v * x["y"] for n, v in Y0.items()})
        b0 = R01.rhs(C)
        want = (currents if "phiBox" in d or "phil1" in d or "phiud" in d
                else formula)(d, x, Y)
        C.update(d)
        b = R01.rhs(C)
        for n in b:
            if n in OPS and fams[0] not in R08.BOSONS:
                continue
            v = b[n] - b0[n]
            c.eq(n, v, want.get(n, 0 * v), tol=1e-8, floor=1.)
        c.witness("running", b[fams[0]])
    return H(f"{fams[0]}.., point {pt}", f, stubs=R01.stubs, floats=True,
             ne_flips=0, cost=20)


def harnesses(tier):
    points = (0,) if tier == "quick" else (0, 1)
    return [response(f, p) for f in INPUTS + CURRENTS for p in points]
