"""Anomalous dimensions of the WET."""
from functools import lru_cache

from vlib.h import *

from . import weyl

BOUNDS = ("Every entry of the QCD and QED anomalous dimensions of every sector "
          "of WET, WET-4 and WET-3, for all values of the coefficients and of "
          "all fermion masses.")
ASSUMPTIONS = ["One-loop gauge boson exchange as derived in props/weyl.py; "
               "coefficients in the normalisation the evolution uses (dipoles "
               "over mass)."]

EFTS = {"WET": 5, "WET-4": 4, "WET-3": 3}
# d1 d2 d3 d1 has the flavour of the conjugates of the rest of sector sb
CONJUGATE = ("VddLL_1231", "VddRR_1231")
MASS = {("u", 0): "u", ("d", 0): "d", ("d", 1): "s", ("u", 1): "c",
        ("d", 2): "b", ("e", 0): "e", ("e", 1): "mu", ("e", 2): "tau"}


def heaviest(name):
    s, _, g = name.partition("_")
    return s[0], max(int(x) for x in g) - 1


@lru_cache(maxsize=None)
def expected(eft, sector):
    keys = tuple(basis(eft, "JMS").sectors[sector])
    return weyl.table(keys, EFTS[eft], CONJUGATE)


def dimensions(eft, sector):
    f = EFTS[eft]

    def harness(c):
        D, adm = M("run.wet.definitions"), M("run.wet.adm")
        mine = list(basis(eft, "JMS").sectors[sector])
        want, left = expected(eft, sector)
        c.ok("sector closed", not left)
        m = {k: c.real("m_" + n, .001, 10.) for k, n in MASS.items()}
        C = {k: c.cplx(k) for k in mine}
        cl = D.sectors[sector]
        keys = D.coeffs[sector]
        c.ok("names", set(mine) <= set(keys) and len(set(keys)) == len(keys))
        for g in "se":
            A = None
            if cl != "inv":
                A = np.asarray(getattr(adm, f"adm_{g}_{cl}")(
                    f, *[m[k] for k in MASS]))
                c.ok("size", A.shape == (len(keys),) * 2)
            for j in mine:
                got = ref = 0
                for i in mine:
                    if A is not None:
                        x = A[keys.index(i), keys.index(j)]
                        if not (is_number(x) and x == 0):
                            got = got + x * C[i]
                    y = want.get((g, i, j), 0)
                    if isinstance(y, dict):
                        y = sum(float(x) * m[k] for k, x in y.items()) / \
                            m[heaviest(j)]
                    elif not isinstance(y, complex):
                        y = float(y)
                    if not (is_number(y) and y == 0):
                        ref = ref + y * C[i]
                c.eq(f"{g} {j}", got, ref, floor=1., tol=1e-9)
                if not (is_number(ref) and ref == 0):
                    c.witness(f"{g} {j}", got)
    return H(f"{eft} {sector}", harness, ne_flips=0,
             cost=len(basis(eft, "JMS").sectors[sector]) ** 2)


def is_number(x):
    return isinstance(x, (int, float, complex, np.number))


def harnesses(tier):
    return [dimensions(e, s) for e in EFTS
            for s in basis(e, "JMS").sectors]
