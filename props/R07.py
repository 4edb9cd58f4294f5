"""The renormalisable couplings and the operators without derivatives run as
the general one-loop formulas say."""
import numpy as np

from vlib.h import *

from . import R01, T01, functional

BOUNDS = ("All entries of phi, uphi, dphi, ephi and llphiphi symbolic, of any size, and "
          "the gauge couplings, Lambda, m2 and a common factor of the Yukawa "
          "matrices, which are otherwise fixed at a generic complex point. "
          "Running through phiBox, phiD, currents, dipoles and field strengths "
          "as initial values is not decided here.")
ASSUMPTIONS = ["The memoised einsum of beta.py is replaced by einsum."]
YUKAWA = ("Gu", "Gd", "Ge")


def couplings(c):
    return {n: c.real(n, -2., 2.) for n in functional.COUPLINGS}


def point(c, x, pt):
    C = T01.zeros(c)
    C.update({n: v for n, v in x.items() if n != "y"})
    C.update({n: v * x["y"] for n, v in R01.yukawas(pt).items()})
    return C


def product(x, m):
    out = 1
    for n in m:
        out = out * x[n]
    return out


def renormalisable(pt):
    def f(c):
        x = couplings(c)
        b = R01.rhs(point(c, x, pt))
        E = functional.expansion("constant", R01.yukawas(pt),
                                 functional.constant)
        for n in ("Lambda", "m2", *YUKAWA):
            want = sum(product(x, m) * E[m][n] for m in E if n in E[m])
            c.eq(n, b[n], want, tol=1e-8, floor=1.)
        for n, v in gauge().items():
            c.eq(n, b[n], v * product(x, (n,) * 3), tol=1e-8, floor=1.)
        for n in M("util").smeftutil.C_keys:
            if n in b and n not in ("Lambda", "m2", *YUKAWA, *gauge()):
                c.eq(n, b[n], 0 * b[n], tol=1e-8, floor=1.)
        c.witness("running", b["Lambda"])
    return H(f"renormalisable couplings, point {pt}", f, stubs=R01.stubs,
             floats=True, ne_flips=0, cost=5)


def gauge():
    """From the representations: -11/3 C(G) + 2/3 S(F) + 1/3 S(S), Weyl
    fermions and complex scalars."""
    f = functional
    S = {}
    for n in ("g", "gp"):
        F, T = [(F, T) for g, F, T in f.GEN if g == n][0]
        S[n] = 2 / 3 * (f.COLOURS * np.diag(F @ F)).sum().real + \
            1 / 6 * np.trace(T @ T).real
    return {"g": S["g"] - 22 / 3, "gp": S["gp"],
            "gs": 2 / 3 * f.QUARKS.sum() / 2 - 11}


def response(name, pt, part, parts):
    def f(c):
        Y = R01.yukawas(pt)
        x = couplings(c)
        C, C0 = point(c, x, pt), point(c, x, pt)
        def sym(u):
            return u[::-1] if name == "llphiphi" else u
        units = [()] if name == "phi" else \
            [(i, j) for i in range(3) for j in range(3)][part::parts]
        fn = functional.dimension5 if name == "llphiphi" else \
            lambda D: functional.linear(D, [name])
        zero = {n: np.zeros((3, 3), complex) for n in ("uphi", "dphi", "ephi")}
        want = {}
        A = c.carray(name, (3, 3)) if name != "phi" else None
        mask = np.zeros((3, 3))
        for u in units:
            if name == "phi":
                C["phi"] = v = c.real("phi")
            else:
                v = A[u]
                mask[u] = 1
                if u[0] > sym(u)[0]:
                    continue
            for z in ((1.,) if name == "phi" else (1., 1j)):
                r = v if name == "phi" else np.real(v) if z == 1. else \
                    np.imag(v)
                e = z if name == "phi" else np.zeros((3, 3), complex)
                if name != "phi":
                    e[u] = e[sym(u)] = z
                E = functional.expansion(
                    "linear", Y, lambda D: fn(
                        dict(D, **dict({"phi": 0., **zero}, **{name: e}))))
                for m in E:
                    for n, y in E[m].items():
                        want[n] = want.get(n, 0) + r * product(x, m) * y
        if name != "phi":
            for i, j in units:
                A[i, j] = A[min((i, j), sym((i, j)))]
            C[name] = A * mask
        b, b0 = R01.rhs(C), R01.rhs(C0)
        for n in b:
            d = b[n] - b0[n]
            c.eq(n, d, want.get(n, 0 * d), tol=1e-8, floor=1.)
        c.witness("running", np.ravel(b[name])[0] if name != "phi" else
                  b["phi"])
    return H(f"{name}, point {pt}, {part + 1}/{parts}", f, stubs=R01.stubs,
             floats=True, ne_flips=0, cost=20)


def harnesses(tier):
    points = (0,) if tier == "quick" else (0, 1)
    return [renormalisable(p) for p in points] + \
        [response("phi", p, 0, 1) for p in points] + \
        [response(n, p, i, 5) for n in ("uphi", "dphi", "ephi")
         for p in points for i in range(5)] + \
        [response("llphiphi", p, 0, 1) for p in points]
