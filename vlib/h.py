"""Helpers shared by the property harnesses."""
import importlib

import numpy as np

from . import load


def M(name):
    """wilson submodule by name."""
    load.load()
    return importlib.import_module("wilson." + name if name else "wilson")


def basis(eft, b):
    return M("wcxf.classes").Basis[eft, b]


def realflags(eft, b, sectors=None):
    """{name: is_real} in basis order."""
    out = {}
    for s, wcs in basis(eft, b).sectors.items():
        if sectors is None or s in sectors:
            for k, v in wcs.items():
                out[k] = bool(v and v.get("real"))
    return out


def coeffs(c, flags, prefix="", bound=1.0):
    """A symbolic value for every coefficient: complex or real as flagged."""
    return {k: (c.real(prefix + k, -bound, bound) if r
                else c.cplx(prefix + k, bound)) for k, r in flags.items()}


def by_family(flags):
    fam = {}
    for k in flags:
        fam.setdefault(k.split("_")[0], []).append(k)
    return fam


def chunks(x, n):
    x = list(x)
    k = max(1, -(-len(x) // n))
    return [x[i:i + k] for i in range(0, len(x), k)]


def sub(flags, names):
    return {k: flags[k] for k in names}


def H(name, func, **k):
    return dict(name=name, func=func, **k)


def idx(k):
    return tuple(int(i) - 1 for i in k.split("_")[1])


# ---------------------------------------------------------------- symmetries
# symmetry class -> list of (index permutation, conjugate?, sign)
REL = {
    0: [], 1: [], 3: [], 8: [],
    2: [((1, 0), True, 1)],
    9: [((1, 0), False, 1)],
    4: [((2, 3, 0, 1), False, 1), ((1, 0, 3, 2), True, 1)],
    41: [((2, 3, 0, 1), False, 1)],
    5: [((1, 0, 3, 2), True, 1)],
    6: [((2, 3, 0, 1), False, 1), ((1, 0, 3, 2), True, 1),
        ((2, 1, 0, 3), False, 1)],
    7: [((1, 0, 2, 3), False, 1)],
    71: [((1, 0, 2, 3), False, -1)],
}
# operator symmetries, from the operator definitions (not from wilson's code)
SMEFT_CLASS = {}
for _c, _s in {
    0: "phiWB phiD phiWtilde phiB phiW Wtilde G phi W phiGtilde phiG "
       "phiWtildeB phiBox Gtilde phiBtilde",
    1: "uW dphi phiud uphi eW dB ephi uB dG dW eB uG",
    2: "phid phiq3 phil1 phiu phiq1 phil3 phie",
    3: "lequ3 ledq lequ1 quqd1 duue quqd8 duql",
    4: "ll dd uu qq3 qq1",
    5: "ed eu qu1 ud8 qd8 le ud1 lq1 qd1 lq3 qe ld lu qu8",
    6: "ee", 7: "qque", 8: "qqql", 9: "llphiphi"}.items():
    for _k in _s.split():
        SMEFT_CLASS[_k] = _c
WET_CLASS = {}
for _c, _s in {
    0: "G Gtilde",
    1: "ugamma dG dgamma uG egamma",
    3: "TedRR SdudRL SuddLL SnueduRL V1udduLR SedRR VnueduLR SduuRL SnueduRR "
       "S1udRR TeuRR VnueduLL SduuRR SduuLL S1udduRR SeuRL SeuRR V8udduLR "
       "TnueduRR SedRL SduuLR S8udduRR S8udRR",
    4: "VuuRR VddLL VddRR VuuLL",
    5: "VdeLR VnuuLR VnueLL V8uuLR VeuLR V8ddLR V1uuLR VedLL VedLR VedRR "
       "V1udRR V1udLR V1udLL VeuRR V1ddLR VueLR V8udLR VnudLL V1duLR VnudLR "
       "V8udRR VeuLL V8udLL VeeLR VnuuLL VnueLR V8duLR",
    6: "VnunuLL VeeRR VeeLL", 41: "S1ddRR S8ddRR S8uuRR SeeRR S1uuRR",
    71: "SuudRL SuudLR SdduRL"}.items():
    for _k in _s.split():
        WET_CLASS[_k] = _c


def conj(x):
    return x.conjugate() if hasattr(x, "conjugate") else x


def orbit(cls, i):
    """{index: (conj, sign)} reachable from index tuple i."""
    out = {i: (False, 1)}
    todo = [i]
    while todo:
        j = todo.pop()
        cj, sj = out[j]
        for p, c, s in REL[cls]:
            k = tuple(j[q] for q in p)
            if k not in out:
                out[k] = (cj ^ c, sj * s)
                todo.append(k)
    return out


def check_sym(c, label, cls, a, n=3):
    """a fulfils the symmetry relations of class cls."""
    if cls == 8:
        for p in range(3):
            for r in range(3):
                for s in range(3):
                    for t in range(3):
                        c.eq(f"{label}: C_prst+C_rpst=C_sprt+C_srpt "
                             f"{p}{r}{s}{t}",
                             a[p, r, s, t] + a[r, p, s, t],
                             a[s, p, r, t] + a[s, r, p, t])
        return
    if cls == 0:
        if hasattr(a, "imag"):
            c.eq(f"{label}: real", a, a.real)
        return
    for i in np.ndindex(*a.shape):
        for p, cc, s in REL[cls]:
            j = tuple(i[q] for q in p)
            if any(x >= m for x, m in zip(j, a.shape)):
                continue
            b = a[j]
            c.eq(f"{label}: {''.join(map(str, i))}~{''.join(map(str, j))}",
                 a[i], s * (conj(b) if cc else b))
