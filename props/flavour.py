"""Symmetries every part of the code must respect: CP conjugation and
rephasing of the fermion fields, with the CKM matrix transforming along."""
from fractions import Fraction

from vlib import sym
from vlib.h import *

from . import T01, jms, tw

# exact unit complex numbers, a different one for every fermion field
_PYTH = {"u": [(3, 4, 5), (5, -12, 13), (8, 15, 17)],
         "d": [(-7, 24, 25), (20, 21, 29), (12, -35, 37)],
         "e": [(9, 40, 41), (-28, 45, 53), (11, 60, 61)]}
KIND = {"q": "u", "u": "u", "d": "d", "l": "e", "e": "e", "n": "e"}
TILDE = ("Gtilde", "Wtilde", "phiGtilde", "phiBtilde", "phiWtilde",
         "phiWtildeB")


def unit(c, f, i):
    a, b, n = _PYTH[f][i]
    if c.symbolic:
        return sym.Sym({(): sym.CQ(Fraction(a, n), Fraction(b, n))})
    return complex(a / n, b / n)


def phase(c, fields, ind):
    """Phase of a coefficient when f = unit * f'."""
    out = 1
    for f, i in zip(fields, ind):
        u = unit(c, KIND[f[0]], i)
        out = out * (conj(u) if "*" in f else u)
    return out


def fields_of(k, eft):
    n = k.split("_")[0]
    return (T01.FIELDS if eft == "SMEFT" else jms.FIELDS).get(n, [])


def rephased(c, C, eft):
    return {k: v if "_" not in k else v * phase(c, fields_of(k, eft), idx(k))
            for k, v in C.items()}


def cp(c, C):
    return {k: -v if k in TILDE else conj(v) for k, v in C.items()}


def stubs(c):
    """The CKM matrix, transformed as c.transform says."""
    m = tw.ckm_mod()
    if tw._TREE[0] is None:
        tw._TREE[0] = m.ckm_tree

    def tree(*a, **k):
        V = np.array(tw._TREE[0](*a, **k))
        t = getattr(c, "transform", None)
        if t == "CP":
            V = V.conj()
        if t != "phase":
            return c.array(V)
        W = c.array(V.astype(complex))
        for i in range(3):
            for j in range(3):
                W[i, j] = complex(V[i, j]) * conj(unit(c, "u", i)) * \
                    unit(c, "d", j)
        return W
    return {(m, "ckm_tree"): tree}


def covariance(c, what, calc, C, src, dst):
    """calc(transformed C) = transformed calc(C)."""
    c.transform = None
    a = calc(C)
    c.transform = what
    if what == "CP":
        return calc(cp(c, C)), cp(c, a)
    return calc(rephased(c, C, src)), rephased(c, a, dst)
