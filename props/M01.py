"""Tree-level matching of the SMEFT onto the WET."""
from vlib.h import *
from vlib.sym import Sym

from . import Q01, jms, tw

BOUNDS = ("All 2499 real degrees of freedom of the SMEFT Warsaw (up) basis "
          "symbolic at once; agreement to first order in the coefficients "
          "(exact derivative at zero) or, where they enter linearly, exactly "
          "for any size; three sets of input parameters, one of them the "
          "defaults; vanishing input: all parameters symbolic.")
ASSUMPTIONS = ["ckmutil (CKM parametrisation) at fixed parameters, or "
               "uninterpreted."]

EPS = 1e-12
# coefficients that redefine the electroweak input relations
EW = ("ll_1221", "phil3_11", "phil3_22", "phiWB", "phiD")
SETS = {
    "defaults": None,
    "given": dict(GF=1.18e-5, alpha_e=1 / 125., alpha_s=0.12, m_W=79.5,
                  m_Z=90.8, m_h=124., m_t=171., m_b=3., m_c=.6, m_s=.06,
                  m_u=.001, m_d=.003, m_e=.0005, m_mu=.1, m_tau=1.7,
                  Vus=.23, Vub=4e-3, Vcb=.041, gamma=1.1),
    "some": dict(m_W=80.9, Vus=.22, gamma=-1.3, alpha_e=0.0079),
}


def given(w):
    p = dict(M("run.smeft.smpar").p)
    p.update(SETS[w] or {})
    return None if SETS[w] is None else dict(SETS[w]), p


def ein(spec, *a):
    """einsum for object arrays that may hold symbolic numbers."""
    return np.einsum(spec, *a)


def oracle(c, C, p):
    """JMS coefficients (up basis, sum over all indices) from contact terms
    and Z and W exchange between the shifted currents."""
    d = c.array(np.eye(3))
    e = np.sqrt(4 * np.pi * p["alpha_e"])
    dG = -0.5 * (2 * C["phil3"][0, 0] + 2 * C["phil3"][1, 1]
                 - C["ll"][0, 1, 1, 0] - C["ll"][1, 0, 0, 1])
    dG = dG.real if hasattr(dG, "real") else dG
    i2 = np.sqrt(2) * p["GF"] + dG                 # 1/v^2, from muon decay
    v2 = 1 / (np.sqrt(2) * p["GF"])
    s02 = e ** 2 / (4 * p["m_W"] ** 2 * i2)
    s0 = np.sqrt(e ** 2 / (4 * p["m_W"] ** 2) * v2)
    c0 = np.sqrt(1 - s0 ** 2)
    s2 = s02 + s0 * c0 * v2 * C["phiWB"]
    v = v2 ** 0.5
    Z = 4 * (i2 - C["phiD"] / 2)                  # g_Z^2/m_Z^2
    W = 2 * i2                                    # g^2/2/m_W^2
    g = {"nuL": (.5, C["phil1"] - C["phil3"]),
         "eL": (-.5 + s2, C["phil1"] + C["phil3"]),
         "eR": (s2, C["phie"]),
         "uL": (.5 - 2 / 3 * s2, C["phiq1"] - C["phiq3"]),
         "uR": (-2 / 3 * s2, C["phiu"]),
         "dL": (-.5 + s2 / 3, C["phiq1"] + C["phiq3"]),
         "dR": (s2 / 3, C["phid"])}
    g = {k: d * x - y * (v2 / 2) for k, (x, y) in g.items()}
    wl = d + C["phil3"] * v2
    wq = d + C["phiq3"] * v2
    wr = C["phiud"] * (v2 / 2)

    def z(a, b):
        return ein("pr,st->prst", g[a], g[b]) * Z

    T = lambda s, x: ein(s + "->prst", x)
    o = {}
    ll, qq1, qq3 = C["ll"], C["qq1"], C["qq3"]
    for k, ch in (("VnunuLL", "nuL"), ("VeeLL", "eL"), ("VeeRR", "eR")):
        x = C["ee"] if k[-1] == "R" else ll
        x = x - z(ch, ch) / 2
        o[k] = (x + T("ptsr", x) + T("srpt", x) + T("stpr", x)) / 4
    o["VnueLL"] = ll + T("stpr", ll) - z("nuL", "eL") - \
        ein("pt,rs->prst", wl, conj(wl)) * W
    o["VnuuLL"] = C["lq1"] + C["lq3"] - z("nuL", "uL")
    o["VnudLL"] = C["lq1"] - C["lq3"] - z("nuL", "dL")
    o["VeuLL"] = C["lq1"] - C["lq3"] - z("eL", "uL")
    o["VedLL"] = C["lq1"] + C["lq3"] - z("eL", "dL")
    o["VnueduLL"] = 2 * C["lq3"] - ein("pr,ts->prst", wl, conj(wq)) * W
    o["VuuLL"] = qq1 + qq3 - z("uL", "uL") / 2
    o["VddLL"] = qq1 + qq3 - z("dL", "dL") / 2
    w8 = 2 * (T("ptsr", qq3) + T("srpt", qq3)) - \
        ein("pt,rs->prst", wq, conj(wq)) * W
    o["V1udLL"] = qq1 + T("stpr", qq1) - qq3 - T("stpr", qq3) + w8 / 3 - \
        z("uL", "dL")
    o["V8udLL"] = 2 * w8
    o["VuuRR"] = C["uu"] - z("uR", "uR") / 2
    o["VddRR"] = C["dd"] - z("dR", "dR") / 2
    o["VeuRR"] = C["eu"] - z("eR", "uR")
    o["VedRR"] = C["ed"] - z("eR", "dR")
    o["V1udRR"] = C["ud1"] - z("uR", "dR")
    o["V8udRR"] = C["ud8"]
    for k, x, a, b in (("VnueLR", "le", "nuL", "eR"),
                       ("VeeLR", "le", "eL", "eR"),
                       ("VnuuLR", "lu", "nuL", "uR"),
                       ("VnudLR", "ld", "nuL", "dR"),
                       ("VeuLR", "lu", "eL", "uR"),
                       ("VedLR", "ld", "eL", "dR"),
                       ("VueLR", "qe", "uL", "eR"),
                       ("VdeLR", "qe", "dL", "eR"),
                       ("V1uuLR", "qu1", "uL", "uR"),
                       ("V1udLR", "qd1", "uL", "dR"),
                       ("V1duLR", "qu1", "dL", "uR"),
                       ("V1ddLR", "qd1", "dL", "dR")):
        o[k] = C[x] - z(a, b)
    for k in ("uuLR", "duLR"):
        o["V8" + k] = C["qu8"]
    for k in ("udLR", "ddLR"):
        o["V8" + k] = C["qd8"]
    o["VnueduLR"] = -ein("pr,ts->prst", wl, conj(wr)) * W
    o["V1udduLR"] = -ein("pr,ts->prst", wq, conj(wr)) * W
    o["SedRL"] = o["SnueduRL"] = C["ledq"]
    o["SeuRR"], o["SnueduRR"] = -C["lequ1"], C["lequ1"]
    o["TeuRR"], o["TnueduRR"] = -C["lequ3"], C["lequ3"]
    o["S1udRR"], o["S8udRR"] = C["quqd1"], C["quqd8"]
    o["S1udduRR"] = -T("stpr", C["quqd1"])
    o["S8udduRR"] = -T("stpr", C["quqd8"])
    q = C["qqql"]
    o["SuddLL"] = o["SduuLL"] = T("srpt", q) - T("rspt", q) + T("rpst", q)
    o["SduuLR"] = -C["qque"] - T("rpst", C["qque"])
    o["SduuRL"], o["SdudRL"] = C["duql"], -C["duql"]
    o["SduuRR"] = C["duue"]
    r = v / np.sqrt(2)
    for f, s in (("e", -1), ("u", 1), ("d", -1)):
        o[f + "gamma"] = (C[f + "W"] * (s * s0) + C[f + "B"] * c0) * r
        if f != "e":
            o[f + "G"] = C[f + "G"] * r
    o["G"], o["Gtilde"] = C["G"], C["Gtilde"]
    return o


def rotated(c, o, p):
    """d_L from the Warsaw-up to the mass basis."""
    V = M("match.smeft_loop").ckmutil.ckm.ckm_tree(
        p["Vus"], p["Vub"], p["Vcb"], p["gamma"])
    return {k: x if np.ndim(x) == 0 else
            jms.rotate(x, jms.FIELDS[k], {"dL": V}) for k, x in o.items()}


def nonredundant(o):
    """Coefficients of the WCxf basis: the term of each operator."""
    out = {}
    for k in realflags("WET", "JMS"):
        n = k.split("_")[0]
        x = o.get(n, 0)
        if "_" not in k or np.ndim(x) == 0:
            out[k] = x
        else:
            out[k] = x[idx(k)] * jms.multiplicity(n, idx(k))
    return out


def smeft(c, without=(), only=None, basis="Warsaw up"):
    f = realflags("SMEFT", basis)
    return coeffs(c, {k: r for k, r in f.items() if k not in without and
                      (only is None or k in only)})


def array(C):
    return M("util").smeftutil.wcxf2arrays_symmetrized(C)


def first_order(which):
    """Contact terms plus Z and W exchange, to first order."""
    def f(c):
        gp, p = given(which)
        eps = c.small(EPS)
        x = smeft(c)
        C = {k: v * eps for k, v in x.items()}
        inp, inq = dict(C), None if gp is None else dict(gp)
        got = M("match.smeft").match_all(C, 80., gp)
        c.eq("input", C, inp, keys="strict")
        c.ok("parameters", gp == inq)
        o, o0 = oracle(c, array(inp), p), oracle(c, array({}), p)
        o = {k: o[k] - o0[k] for k in o}
        want = c.first("expected", nonredundant(rotated(c, o, p)), eps)
        got = c.first("matched", got, eps)
        c.ok("keys", set(got) <= set(want))
        c.eq("", got, want, tol=1e-9, floor=1e-2)
        c.witness("matched", got)
    return H(f"first order, parameters {which}", f, floats=True, cost=30)


def homogeneous(which):
    """Without the coefficients entering the electroweak input relations the
    matching conditions are linear."""
    def f(c):
        gp, p = given(which)
        lam = c.real("lambda", 0.1, 100.)
        C = smeft(c, without=EW)
        m = M("match.smeft")
        a = m.match_all({k: v * lam for k, v in C.items()}, 80., gp)
        b = m.match_all(C, 160., gp)
        c.eq("scaled", a, {k: v * lam for k, v in b.items()}, keys="strict")
        c.witness("b", b)
    return H(f"linear, parameters {which}", f, floats=True, cost=30)


def nothing(c):
    """No coefficients, any parameters: no WET coefficients."""
    p = {k: c.real("p_" + k, *v) for k, v in tw.NUM.items()}
    p["m_t"] = c.real("p_m_t", 160., 180.)
    if c.flag("loop_order given"):
        p["loop_order"] = 0
    C = c.choice("coefficients", [{}, {"phiD": 0}, {"lq1_1223": 0.0}])
    got = M("match.smeft").match_all(dict(C), c.real("mu", 60., 1e4), p)
    c.ok("coefficients", len(got) > 2000)
    c.eq("no coefficients", got, {k: 0 for k in got})


def some(basis, n):
    """n coefficients of every operator."""
    out = []
    for fam, L in by_family(realflags("SMEFT", basis)).items():
        h = sum(map(ord, fam))
        out += [L[(h + 7 * i) % len(L)] for i in range(n)]
    return out


def route(src, dst, n):
    """The other matchers: translations around Warsaw up -> JMS."""
    def f(c):
        gp, p = given(c.choice("parameters", list(SETS)))
        eps = c.small(EPS)
        C = {k: v * eps for k, v in smeft(c, basis=src, only=some(src, n))
             .items()}
        mu = c.real("mu", 60., 200.)
        inp, inq = dict(C), None if gp is None else dict(gp)
        m = M("wcxf.classes")
        got = m.Matcher["SMEFT", src, "WET", dst].function(C, mu, gp)
        c.eq("input", C, inp, keys="strict")
        c.ok("parameters", gp == inq)
        if src == "Warsaw":
            C = m.Translator["SMEFT", "Warsaw", "Warsaw up"].function(
                C, scale=mu, parameters=gp, sectors=None)
        want = M("match.smeft").match_all(C, mu, gp)
        if dst != "JMS":
            want = tw.tr("WET", "JMS", dst, want, mu, gp)
        z = 1e-14 if dst == "JMS" else 1e-7     # units of G_F and CKM
        c.eq("", c.first("matched", got, eps, z),
             c.first("expected", want, eps, z),
             keys="strict", tol=1e-9, floor=1e-2)
        c.witness("matched", got)
    return H(f"{src} -> {dst}", f, stubs=Q01.stubs, floats=True, cost=40)


def harnesses(tier):
    out = []
    for w in SETS:
        out.append(first_order(w))
        if tier != "quick" or w != "defaults":
            out.append(homogeneous(w))
    out.append(H("no coefficients", nothing, stubs=tw.stubs, cost=5))
    for src in ("Warsaw up", "Warsaw"):
        for dst in ("JMS", "flavio", "EOS", "Bern"):
            if (src, dst) not in (("Warsaw up", "EOS"), ("Warsaw up", "Bern")):
                out.append(route(src, dst, 1 if tier == "quick" else 4))
    return out
