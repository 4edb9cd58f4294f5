"""Higgs-Warsaw up basis."""
import math

from vlib.h import *

BOUNDS = ("All 1635 coefficients symbolic (modulus up to 1) at three points of "
          "the SM parameters (defaults, partly and completely overridden).")
ASSUMPTIONS = ["SM parameters at fixed points; ckmutil's CKM matrix taken at "
               "these points."]
P2 = {"alpha_e": 1 / 130., "m_Z": 90.0, "GF": 1.1e-5, "m_h": 126., "alpha_s":
      0.12, "Vus": 0.3, "Vub": 0.02, "Vcb": 0.1, "gamma": -0.7}
PARS = [None, {"m_h": 130.0, "Vcb": 0.05}, P2]
A, B, W = "Higgs-Warsaw up", "Warsaw up", "Warsaw"


def tr(a, b, C, par, sectors=None):
    m = M("wcxf.classes")
    return m.Translator["SMEFT", a, b].function(
        C, scale=160, parameters=par, sectors=sectors)


def small(k):
    return "_" not in k or len(k.split("_")[1]) < 4


def trip(a, b):
    def f(c):
        fl = realflags("SMEFT", a)
        if W in (a, b):
            # four-fermion coefficients with several quark doublets are
            # left to the Warsaw <-> Warsaw up check
            fl = {k: r for k, r in fl.items() if small(k) or
                  k.split("_")[0] in ("ll", "lu", "lq1", "ledq", "duql")}
        w = coeffs(c, fl)
        par = c.choice("parameters", PARS)
        inp = dict(w)
        keep = None if par is None else dict(par)
        x = tr(a, b, w, par)
        c.eq("input", w, inp, keys="strict")
        c.ok("parameters unchanged", par == keep)
        fb = realflags("SMEFT", b)
        c.ok("basis coefficients", set(x) <= set(fb))
        inx = dict(x)
        y = tr(b, a, x, par)
        c.eq("input back", x, inx, keys="strict")
        c.ok("basis coefficients back", set(y) <= set(realflags("SMEFT", a)))
        c.eq("back", y, w)
        for k in sorted(set(fl) & set(fb)) if W not in (a, b) else ():
            if k not in MIXED:
                c.eq(f"same {k}", x.get(k, 0), w[k])
        # hermitian coefficients stay hermitian
        for k in x:
            if fb[k] and k not in ("G", "W"):
                c.eq(f"real {k}", getattr(x[k], "imag", 0), 0,
                     tol=1e-9, scale=1)
        c.witness("x", x)
    return H(f"{a} -> {b} -> {a}", f, ne_flips=0, cost=20 if W in (a, b) else 5)


MIXED = {"phi", "phiBox", "phiD", "ll_1221"}


def partial(a, b):
    """Coefficients that are not given count as zero; the result is linear."""
    def f(c):
        fl = realflags("SMEFT", a)
        par = c.choice("parameters", PARS[2:])
        names = sorted(k for k in fl if small(k) or k == "ll_1221")
        w = coeffs(c, sub(fl, names))
        tot = {}
        G = chunks(names, 10)
        full = tr(a, b, {k: w[k] for k in names}, par)
        for g in G:
            for k, v in tr(a, b, {k: w[k] for k in g}, par).items():
                tot[k] = tot.get(k, 0) + v
        c.eq("sum of the parts", tot, full)
        z = {k: 0 for k in names}
        c.eq("zero", tr(a, b, z, par), {})
        c.eq("empty", tr(a, b, {}, par), {})
        t = c.real("t")
        c.eq("scaled", tr(a, b, {k: t * w[k] for k in names}, par),
             {k: t * v for k, v in full.items()})
    return H(f"linear {a} -> {b}", f, ne_flips=0)


def physical(c):
    """The coefficients of the Higgs basis are the corrections to couplings
    that the Warsaw basis Lagrangian gives at first order, with alpha_e, G_F
    and m_Z (and m_h) as inputs: the couplings g (1 + a), g' (1 + b) and the
    vacuum expectation value v (1 + D/2) follow from the inputs, everything
    else from them."""
    fl = {k: r for k, r in realflags("SMEFT", B).items()
          if small(k) or k == "ll_1221"}
    W = coeffs(c, fl)
    par = c.choice("parameters", PARS)
    H = tr(B, A, dict(W), par)
    p = dict(M("parameters").p)
    p.update(par or {})
    pi, sqrt = math.pi, math.sqrt
    v2 = 1 / (sqrt(2) * p["GF"])
    e2 = 4 * pi * p["alpha_e"]
    gz2 = 4 * p["m_Z"]**2 / v2           # g^2 + g'^2
    s2 = (1 - sqrt(1 - 4 * e2 / gz2)) / 2
    c2 = 1 - s2
    x, y, r = gz2 * c2, gz2 * s2, gz2 * sqrt(s2 * c2)     # g^2, g'^2, g g'
    gs2 = 4 * pi * p["alpha_s"]
    lam = p["m_h"]**2 / (2 * v2)
    eps, HD = W["phiWB"], W["phiD"]
    # G_F from muon decay: (1 + D) v2 = vev^2
    D = W["phil3_11"] + W["phil3_22"] - W["ll_1221"] / 2
    # m_Z^2 = gZ^2 vev^2 / 4 (1 + HD / 2)
    gz = -(D + HD / 2) / 2
    # e^2 = gZ^2 s^2 c^2 (1 - (g^2 + g'^2) / (g g') eps)
    ds2 = (gz2 / r * eps - 2 * gz) * s2 * c2 / (c2 - s2)
    # e = g g' / gZ (1 - g g' / gZ^2 eps),
    # m_Z = (g^2 (1 + 2 a) + g'^2 (1 + 2 b) + 2 g g' eps) ...
    a = -(x * (D + HD / 2) / 2 + r * eps) / (x - y)

    def e(n, v, **kw):
        c.eq(n, H.get(n, 0), v, **kw)
    for i in range(3):
        for j in range(3):
            k = f"_{i+1}{j+1}"
            e("deltagWqR" + k, -W["phiud" + k] / 2)
            if j < i:
                continue
            d = 1 if i == j else 0

            def z(T3, Q):
                return (gz * (T3 - Q * s2) - Q * ds2) * d
            e("deltagWlL" + k, W["phil3" + k] + a * d)
            e("deltagZeL" + k, z(-1/2, -1) - (W["phil1" + k]
                                             + W["phil3" + k]) / 2)
            e("deltagZeR" + k, z(0, -1) - W["phie" + k] / 2)
            e("deltagZuL" + k, z(1/2, 2/3) - (W["phiq1" + k]
                                              - W["phiq3" + k]) / 2)
            e("deltagZuR" + k, z(0, 2/3) - W["phiu" + k] / 2)
            e("deltagZdR" + k, z(0, -1/3) - W["phid" + k] / 2)
    # left-handed down quarks: in their mass basis
    K = ckm(p)
    S = [[W[f"phiq1_{min(i,j)+1}{max(i,j)+1}"]
          + W[f"phiq3_{min(i,j)+1}{max(i,j)+1}"] for j in range(3)]
         for i in range(3)]
    for i in range(3):
        for j in range(i):
            S[i][j] = conj(S[i][j])
    for i in range(3):
        for j in range(i, 3):
            w = 0
            for m in range(3):
                for n in range(3):
                    w = w - K[m, i].conjugate() * S[m][n] * K[n, j] / 2
            d = 1 if i == j else 0
            e(f"deltagZdL_{i+1}{j+1}",
              w + (gz * (-1/2 + s2 / 3) + ds2 / 3) * d)
    # Higgs couplings to vector bosons: W3 = c Z + s A, B = c A - s Z
    for t in ("", "tilde"):
        w, b = W["phiW" + t], W["phiB" + t]
        m = W["phiW" + t + "B"] * sqrt(s2 * c2)
        e("cgg" + t, 4 / gs2 * W["phiG" + t])
        e("czz" + t, 4 / gz2 * (c2 * w + s2 * b + m))
        e("cgammagamma" + t, 4 / e2 * (s2 * w + c2 * b - m))
        e("czgamma" + t, 2 / sqrt(gz2 * e2) * (
            2 * sqrt(s2 * c2) * (w - b)
            - (c2 - s2) * W["phiW" + t + "B"]))
    e("czBox", (HD / 2 + D) / x)
    # m_Z^2(h), canonical h; czBox contributes by the equations of motion
    c.eq("hZZ", H["deltacz"] + x * H["czBox"],
         W["phiBox"] + HD / 4 - D / 2)
    e("deltalambda3", 3 * lam * (W["phiBox"] - HD / 4) - lam * D / 2
      - W["phi"])


def ckm(p):
    """Standard parametrisation from |Vus|, |Vub|, |Vcb| and gamma."""
    import ckmutil.ckm
    return np.array(ckmutil.ckm.ckm_tree(p["Vus"], p["Vub"], p["Vcb"],
                                         p["gamma"]))


def harnesses(tier):
    return [trip(A, B), trip(B, A), trip(A, W), trip(W, A),
            partial(A, B), partial(B, A),
            H("couplings of the Lagrangian", physical, ne_flips=0)]
