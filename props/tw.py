"""Shared by the WET translator properties: symbolic parameters."""
import itertools

from vlib import sym
from vlib.h import *
from vlib.sym import Sym

from . import Q01

NUM = {"GF": (1e-5, 1.3e-5), "alpha_e": (0.005, 0.01), "alpha_s": (0.1, 0.13),
       "m_b": (4, 4.4), "m_c": (1.2, 1.4), "m_s": (0.08, 0.11),
       "m_u": (0.001, 0.003), "m_d": (0.003, 0.006), "m_e": (0.0004, 0.0006),
       "m_mu": (0.1, 0.11), "m_tau": (1.7, 1.8), "m_W": (79, 82),
       "m_Z": (90, 92), "m_h": (120, 130), "Vus": (0.2, 0.3),
       "Vub": (0.002, 0.005), "Vcb": (0.03, 0.05), "gamma": (0.9, 1.4)}
_TREE = [None]
# largest and smallest modulus of the CKM matrix elements
ABS = [[(1, .9), (.35, .15), (.01, .001)], [(.35, .15), (1, .9), (.08, .02)],
       [(.03, .003), (.08, .02), (1, .9)]]


def ckm_mod():
    return M("translate.wet").ckmutil.ckm


def stubs(c):
    m = ckm_mod()
    if _TREE[0] is None:
        _TREE[0] = m.ckm_tree
    s = dict(Q01.stubs(c))
    s[m, "ckm_tree"] = lambda *a, **k: ckm(c, *a, **k)
    return s


def ckm(c, *a, **k):
    """A matrix that may be any function of the four parameters."""
    if not c.symbolic:
        return _TREE[0](*a, **k)
    if k:
        a = a + tuple(k[x] for x in ("Vus", "Vub", "Vcb", "gamma")[len(a):])
    name = "V(" + ",".join(str(x.key()) if type(x) is Sym else repr(float(x))
                           for x in a) + ")"
    if not hasattr(c, "vs"):
        c.vs = {}
    if name not in c.vs:
        v = c.array(np.zeros((3, 3), dtype=complex))
        for i in range(3):
            for j in range(3):
                v[i, j] = c.cplx(f"V{len(c.vs)}_{i + 1}{j + 1}", *ABS[i][j])
        c.vs[name] = v
    return c.vs[name].copy()


def parameters(c, which="all"):
    """Input parameters: none, some, or all given (symbolic)."""
    if which is None:
        return None
    keys = NUM if which == "all" else which
    return {k: c.real("p_" + k, *NUM[k]) for k in keys}


def scale(c):
    return c.real("mu", 1.5, 300.)


def tr(eft, a, b, C, mu, p, sectors=None):
    return M("wcxf.classes").Translator[eft, a, b].function(
        C, scale=mu, parameters=p, sectors=sectors)
