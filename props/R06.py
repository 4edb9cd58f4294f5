"""SMEFT anomalous dimensions of four-fermion operators and currents."""
import numpy as np

from vlib.h import *

from . import R01, T01, weyl_smeft

BOUNDS = ("Every family of four-fermion operators, baryon number violating "
          "ones included, and currents as input, its coefficients with "
          "representative flavour indices (all equal, equal in every kind of "
          "pair, all different) and any values; all gauge couplings and sizes "
          "of the three Yukawa matrices, at a generic complex point in flavour "
          "space (other flavour indices follow from R01).")
ASSUMPTIONS = ["One-loop exchange of gauge and Higgs bosons as derived in "
               "props/weyl_smeft.py.", "The memoised einsum of beta.py is "
               "replaced by einsum."]

# flavour patterns
PICK = [(0, 0, 0, 0), (0, 0, 1, 2), (0, 1, 2, 0), (0, 1, 1, 2), (0, 1, 0, 1),
        (0, 1, 1, 0), (0, 0, 1, 1), (0, 2, 1, 1), (1, 2), (0, 0), (2, 1, 0, 0)]
FAMILIES = [*weyl_smeft.OPS, *weyl_smeft.CURRENTS, *weyl_smeft.DIPOLES,
            *weyl_smeft.CUBIC]
DIM4 = ("g", "gp", "gs", "Lambda", "m2")


def family(name, point, part, parts):
    def f(c):
        u = M("util").smeftutil
        fl, fam = R01.families()
        names = tuple(k for n in FAMILIES for k in fam[n])
        mine = [k for k in fam[name] if idx(k) in PICK][part::parts]
        d = coeffs(c, sub(fl, mine))
        Y = R01.yukawas(point)
        x = {n: c.real(n, -2., 2.) for n in ("g", "gp", "gs", "Gu", "Gd", "Ge",
                                             "Lambda", "m2")}

        def rhs(d):
            C = T01.zeros(c)
            C.update(u.wcxf2arrays_symmetrized(d))
            C.update(x)
            C.update({n: Y[n] * x[n] for n in Y})
            return R01.rhs(C, corrected=R01.known_defect())
        b = rhs(d)
        got = u.arrays2wcxf_nonred(b)
        four = name in weyl_smeft.OPS
        if four:
            b0 = rhs({})
            got.update(matrices({n: b[n] - b0[n] for n in Y}))
        want = {}
        for k in mine:
            for p, n, cc, y in weyl_smeft.derivative(names, k, Y):
                real = fl.get(n, False)
                if cc and (real or fl[k]):
                    continue        # the Hermitian conjugate of another term
                if real and not fl[k]:
                    v = 2 * np.real(y * d[k])
                else:
                    v = y * d[k]
                    v = v.conjugate() if cc else v
                for q in p:
                    v = v * x[q]
                want[n] = want.get(n, 0) + v
        if four:                        # everything
            out = [*u.all_wcs, *matrices(Y)]
            for k in DIM4:
                c.eq(k, b[k], b0[k], tol=1e-8, floor=1.)
        else:                           # four-fermion operators
            out = [n for n in names if n.split("_")[0] in weyl_smeft.OPS]
        for n in out:
            c.eq(n, got.get(n, 0), want.get(n, 0), tol=1e-8, floor=1.)
        for n in out:
            if n in want:
                c.witness("running", got[n])
                break
    return H(f"{name}, point {point}, {part + 1}/{parts}", f, stubs=R01.stubs,
             floats=True, ne_flips=0, cost=20)


def matrices(Y):
    return {f"{n}_{i + 1}{j + 1}": Y[n][i, j] for n in Y for i in range(3)
            for j in range(3)}


def harnesses(tier):
    points = (0,) if tier == "quick" else (0, 1)
    out = []
    for n in FAMILIES:
        if n in weyl_smeft.CUBIC:
            continue
        k = 2 if n in weyl_smeft.OPS else 1
        out += [family(n, p, i, k) for p in points for i in range(k)]
    return out
