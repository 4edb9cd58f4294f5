"""WET output bases (EOS, formflavor) agree with flavio and Bern."""
import cmath
import math

import numpy as np

from vlib.h import *
from vlib.sym import Sym

from . import tw

BOUNDS = ("All JMS coefficients symbolic at once (modulus up to 1), scale "
          "and all input parameters symbolic or at their defaults; the CKM "
          "matrix an arbitrary matrix, the QCD running arbitrary.")
ASSUMPTIONS = ["rundec and the CKM parametrisation are uninterpreted.",
               "b->s::c1...c6: only inputs within the span of the six "
               "Chetyrkin-Misiak-Muenz operators, where the coefficients are "
               "determined by the Hamiltonian.",
               "formflavor CSLL, CTLL (Delta F=2): rephasing and parity "
               "covariance only, no convention for the operators is assumed."]


def start(c):
    w = coeffs(c, realflags("WET", "JMS"))
    p = tw.parameters(c, c.choice("parameters", ["all", None]))
    return w, p, tw.scale(c)


def par(c, p, mu):
    """(4GF/sqrt2, e, running m_b, V) for these parameters."""
    d = dict(M("parameters").p)
    d.update(p or {})
    q = M("translate.wet").get_parameters(mu, 5, p)
    V = tw.ckm_mod().ckm_tree(d["Vus"], d["Vub"], d["Vcb"], d["gamma"])
    return 2 * math.sqrt(2) * d["GF"], d["alpha_e"], q, V


def num(c, label, x):
    """A plain number, not an array or a tuple."""
    c.ok(label, not isinstance(x, (tuple, list)) and np.shape(x) == ())


def re_im(c, out, name, z):
    """Re{..} and Im{..} entries are the real numbers re(z), im(z)."""
    for f, g in (("Re", "real"), ("Im", "imag")):
        x = out[name.replace("{", f + "{")]
        num(c, name + f, x)
        c.eq(f"{name} {f}", x, getattr(z, g))


def eos(tier):
    def f(c):
        w, p, mu = start(c)
        x = tw.tr("WET", "JMS", "EOS", dict(w), mu, p)
        fl = tw.tr("WET", "JMS", "flavio", dict(w), mu, p)
        be = tw.tr("WET", "JMS", "Bern", dict(w), mu, p)
        N, ae, q, V = par(c, p, mu)
        names = realflags("WET", "EOS")
        c.eq("names", sorted(x), sorted(names))
        lam = V[2, 2] * V[2, 1].conj()
        mb = q["m_b"]
        for l in ("ee", "mumu"):
            for a, b, k in (("9", "9", 1), ("9'", "9p", 1), ("10", "10", 1),
                            ("10'", "10p", 1), ("S", "S", mb),
                            ("S'", "Sp", mb), ("P", "P", mb),
                            ("P'", "Pp", mb)):
                re_im(c, x, f"b->s{l}::{{c{a}}}", k * fl[f"C{b}_bs{l}"])
            # tensors from Bern 7, 7p and 9, 9p (P = 24 * 9)
            P, Pp = 24 * be[f"9sb{l}"], -24 * be[f"9psb{l}"]
            tp = be[f"7sb{l}"] - 2 * P / 3        # T + T5
            tm = be[f"7psb{l}"] + 2 * Pp / 3      # T - T5
            k = 4 * math.pi / (ae * lam)
            re_im(c, x, f"b->s{l}::{{cT}}", k * (tp + tm) / 2)
            re_im(c, x, f"b->s{l}::{{cT5}}", k * (tp - tm) / 2)
        re_im(c, x, "b->s::{c7}", fl["C7_bs"])
        re_im(c, x, "b->s::{c7'}", fl["C7p_bs"])
        for a, b in (("c8", "C8_bs"), ("c8'", "C8p_bs")):
            num(c, a, x["b->s::" + a])
            c.eq(a, x["b->s::" + a], fl[b].real)
        for u in "uc":
            for l in ("e", "mu", "tau"):
                for a in ("VL", "VR", "SL", "SR", "T"):
                    k = f"{u}b{l}nu{l}::c{a}"
                    c.eq(k, x[k], fl[f"C{a}_b{u}{l}nu{l}"])
        for a in ("1", "2", "3", "4", "5", "1p", "2p", "3p"):
            k = "sbsb::c" + a.replace("p", "'")
            c.eq(k, x[k] * lam**2, be[a + "sbsb"])
        for qq, d in (("sbcu", 1), ("dbcu", 0)):
            v = V[1, 2] * V[0, d].conj()
            for i in range(1, 11):
                for pr in ("", "p"):
                    k = f"{qq}::c{i}" + pr.replace("p", "'")
                    c.eq(k, x[k] * v, be[f"{i}{pr}{qq}"])
        for i in range(1, 7):
            num(c, f"c{i}", x[f"b->s::c{i}"])
            c.eq(f"real c{i}", getattr(x[f"b->s::c{i}"], "imag", 0), 0)
        c.witness("x", x)
    return H("EOS from flavio and Bern", f, stubs=tw.stubs, ne_flips=0)


def jms_key(name, ind, value, fl):
    """Entry of the JMS basis equal to coefficient `ind` of `name`."""
    p, r, s, t = ind
    pos = [((p, r, s, t), False), ((r, p, t, s), True)]
    if name in ("VddLL", "VddRR"):
        pos += [((s, t, p, r), False), ((t, s, r, p), True)]
        pos += [((p, t, s, r), None), ((s, r, p, t), None)]
    for i, cc in pos:
        k = name + "_" + "".join(str(j + 1) for j in i)
        if k in fl and cc is not None:
            return k, value.conjugate() if cc else value
    raise KeyError(name, ind)


def cmm(which, tier):
    """For coefficients that are those of sum_i c_i P_i, the six operators of
    Chetyrkin, Misiak, Muenz, the c_i are returned."""
    def f(c):
        fl = realflags("WET", "JMS")
        p = tw.parameters(c, c.choice("parameters", ["all", None]))
        mu = tw.scale(c)
        N, ae, q, V = par(c, p, mu)
        x = c.rarray("x", (6,), -1, 1)
        c1, c2, c3, c4, c5, c6 = x
        u, cc, d, s, b = 0, 1, 0, 1, 2
        n = N * V[2, 2] * V[2, 1].conj()
        # (s L b)(q L q), same with T^a, (s L b)(q R q), same with T^a
        L1, L8 = c3 + 16 * c5, c4 + 16 * c6
        R1, R8 = c3 + 4 * c5, c4 + 4 * c6
        w = {}

        def put(name, ind, v):
            k, v = jms_key(name, ind, n * v, fl)
            assert k not in w
            w[k] = v

        for qq in (u, cc):
            # Fierz of (s L c)(c L b), (s T c)(c T b) to (s b)(c c):
            # 1 = crossed = 2 T.T + 1/3; T.T = crossed/2 - 1/6
            a1, a8 = L1, L8
            if qq == cc:
                a1 = a1 + c2 / 3 + c1 * (0.5 - 1 / 18)
                a8 = a8 + 2 * c2 - c1 / 3
            put("V1udLL", (qq, qq, s, b), a1)
            put("V8udLL", (qq, qq, s, b), a8)
            put("V1duLR", (s, b, qq, qq), R1)
            put("V8duLR", (s, b, qq, qq), R8)
        for qq in (d, s, b):
            if qq == d:
                put("VddLL", (s, b, d, d), L1 - L8 / 6)
                put("VddLL", (s, d, d, b), L8 / 2)
            else:
                put("VddLL", (s, b, qq, qq), L1 + L8 / 3)
            put("V1ddLR", (s, b, qq, qq), R1)
            put("V8ddLR", (s, b, qq, qq), R8)
        # operators without b -> s change nothing
        other = c.choice("others", [False, True])
        if other:
            S = basis("WET", "JMS").sectors
            w.update(coeffs(c, {k: fl[k] for t in S for k in S[t]
                                if t != "sb"}))
        y = tw.tr("WET", "JMS", "EOS", w, mu, p)
        for i in range(6):
            c.eq(f"c{i + 1}", y[f"b->s::c{i + 1}"], x[i])
        for k in y:
            if k.startswith("b->s") and k[6:] not in (
                    "c1", "c2", "c3", "c4", "c5", "c6"):
                c.eq(f"no {k}", y[k], 0, tol=1e-9, scale=1)
        c.witness("y", y)
    return H("EOS four-quark b->s operators", f, stubs=tw.stubs, ne_flips=0)


def formflavor(tier):
    def f(c):
        w, p, mu = start(c)
        x = tw.tr("WET", "JMS", "formflavor", dict(w), mu, p)
        fl = tw.tr("WET", "JMS", "flavio", dict(w), mu, p)
        N, ae, q, V = par(c, p, mu)
        c.eq("names", sorted(x), sorted(realflags("WET", "formflavor")))
        for d in "sd":
            lam = V[2, 2] * V[2, dict(d=0, s=1)[d]].conj()
            k = N * lam * ae / (4 * math.pi)
            g = {a: k * fl[f"C{a}_b{d}mumu"] * (1 if a[0] in "91" else
                                                q["m_b"])
                 for a in ("9", "10", "9p", "10p", "S", "P", "Sp", "Pp")}
            want = {"VLL": g["9"] - g["10"], "VLR": g["9"] + g["10"],
                    "VRL": g["9p"] - g["10p"], "VRR": g["9p"] + g["10p"],
                    "SRR": g["S"] + g["P"], "SRL": g["S"] - g["P"],
                    "SLR": g["Sp"] + g["Pp"], "SLL": g["Sp"] - g["Pp"]}
            for a, v in want.items():
                c.eq(f"C{a}_b{d}mm", x[f"C{a}_b{d}mm"], v)
            i = {"d": 0, "s": 1}[d] + 1
            c.eq(f"CTRR_b{d}mm", x[f"CTRR_b{d}mm"], w[f"TedRR_22{i}3"])
            c.eq(f"CTLL_b{d}mm", x[f"CTLL_b{d}mm"],
                 w[f"TedRR_223{i}"].conjugate())
            k = N * lam * q["m_b"] / (16 * math.pi**2)
            for a, b in (("CAR", "C7"), ("CAL", "C7p"), ("CGR", "C8"),
                         ("CGL", "C8p")):
                c.eq(f"{a}_{d}b", x[f"{a}_{d}b"], k * fl[f"{b}_b{d}"])
        lam = V[2, 1] * V[2, 0].conj()
        k = N * lam * ae / (2 * math.pi)
        for a, b in (("CVLL", "CL"), ("CVRL", "CR")):
            c.eq(f"{a}_sdnn", x[f"{a}_sdnn"], k / 3 * sum(
                fl[f"{b}_sdnu{l}nu{l}"] for l in ("e", "mu", "tau")))
        # dipoles: photon divided by e, gluon by g_s; R the coefficient of
        # the operator, L that of its hermitian conjugate
        e, gs = (4 * math.pi * ae)**0.5, (4 * math.pi * q["alpha_s"])**0.5
        for a, n, i, j in (("mt", "e", 2, 3), ("em", "e", 1, 2),
                           ("et", "e", 1, 3), ("uu", "u", 1, 1)):
            c.eq("CAR_" + a, x["CAR_" + a] * e, w[f"{n}gamma_{i}{j}"])
            c.eq("CAL_" + a, x["CAL_" + a] * e,
                 w[f"{n}gamma_{j}{i}"].conjugate())
        c.eq("CGR_uu", x["CGR_uu"] * gs, w["uG_11"])
        c.eq("CGL_uu", x["CGL_uu"] * gs, w["uG_11"].conjugate())
        be = tw.tr("WET", "JMS", "Bern", dict(w), mu, p)
        for qq in ("sb", "db", "ds"):
            f2, b2 = 2 * qq[::-1], 2 * qq
            for a, b, k in (("VLL", "1", 1), ("VRR", "1p", 1),
                            ("SLR", "4", 1), ("VLR", "5", -0.5)):
                c.eq(f"C{a}_{f2}", x[f"C{a}_{f2}"], k * N * be[b + b2])
        for a, b, k in (("VLL", "1", 1), ("VRR", "1p", 1),
                        ("SLR", "4", 1), ("VLR", "5", -0.5)):
            c.eq(f"C{a}_cucu", x[f"C{a}_cucu"],
                 k * N * be[b + "cucu"].conjugate())
        c.witness("x", x)
    return H("formflavor from flavio, Bern, JMS", f, stubs=tw.stubs,
             ne_flips=0)


# ------------------------------------------------ rephasing and parity
PHI = {"u": 0.31, "c": 1.23, "d": -0.77, "s": 2.1, "b": 0.58,
       "e": -1.9, "m": 0.93, "t": 2.7, "n": 0}
Q = {"u": "uc", "d": "dsb", "e": "emt"}


def fields(name):
    """Flavour content [(field, barred)] of a JMS four-quark operator with
    four quarks of the same charge."""
    q = Q["d" if "dd" in name else "u"]
    return [(q[int(j) - 1], i % 2 == 0)
            for i, j in enumerate(name.split("_")[1])]


def phase(content):
    """Factor of the coefficient when field q -> exp(i phi_q) q."""
    return cmath.exp(1j * sum(PHI[q] * (1 if bar else -1)
                              for q, bar in content))


def ff_content(k):
    """Flavour content of a formflavor Delta F=2 coefficient: 'bsbs'
    multiplies (s-bar b)^2, 'cucu' multiplies (u-bar c)^2."""
    q = k.split("_")[1]
    return [(q[1], True), (q[0], False)] * 2


def covariance(tier):
    """When the quark fields are multiplied by phases, each Delta F=2
    formflavor coefficient is multiplied by the phase of its operator."""
    def f(c):
        w, p, mu = start(c)
        x = tw.tr("WET", "JMS", "formflavor", dict(w), mu, p)
        v = {}
        for k in w:
            if k.endswith(("2323", "1313", "1212", "3232", "3131",
                           "2121")) and k[0] in "VS" and k.strip("VS18")[:2] \
                    in ("dd", "uu"):
                v[k] = w[k] * phase(fields(k))
        y = tw.tr("WET", "JMS", "formflavor", v, mu, p)
        n = 0
        for k in x:
            q = k.split("_")[1]
            if len(q) == 4 and q[:2] == q[2:]:
                n += 1
                c.eq(f"phase of {k}", y[k], phase(ff_content(k)) * x[k])
        c.ok("all", n == 32)
        c.witness("x", x)
    return H("formflavor: phases of the quark fields", f, stubs=tw.stubs,
             ne_flips=0)


def parity(tier):
    """Exchanging left and right in the input exchanges them in the output."""
    def f(c):
        fl = realflags("WET", "JMS")
        w, p, mu = start(c)
        x = tw.tr("WET", "JMS", "formflavor", dict(w), mu, p)
        v = {}
        for q, n in (("dd", 3), ("uu", 2)):
            for i in range(1, n + 1):
                for j in range(i + 1, n + 1):
                    a, b = f"{i}{j}{i}{j}", f"{j}{i}{j}{i}"
                    for L, R in (("LL", "RR"), ("RR", "LL")):
                        v[f"V{q}{L}_{a}"] = w[f"V{q}{R}_{a}"]
                    for s in "18":
                        v[f"V{s}{q}LR_{a}"] = w[f"V{s}{q}LR_{a}"]
                        for g, h in ((a, b), (b, a)):
                            v[f"S{s}{q}RR_{g}"] = \
                                w[f"S{s}{q}RR_{h}"].conjugate()
        y = tw.tr("WET", "JMS", "formflavor", v, mu, p)
        for k in x:
            q = k.split("_")[1]
            if len(q) == 4 and q[:2] == q[2:]:
                o = k.replace("LL", "xx").replace("RR", "LL").replace(
                    "xx", "RR")
                c.eq(f"parity {k}", y[k], x[o])
        c.witness("x", x)
    return H("formflavor: parity", f, stubs=tw.stubs, ne_flips=0)


def linear(b):
    def f(c):
        fl = realflags("WET", "JMS")
        w = coeffs(c, fl)
        p = tw.parameters(c, ["GF", "alpha_s", "Vus", "m_b"])
        mu = tw.scale(c)
        names = sorted(fl)
        keep = dict(w)
        full = tw.tr("WET", "JMS", b, w, mu, p)
        c.eq("input", w, keep)
        tot = {}
        for g in chunks(names, 5):
            for k, v in tw.tr("WET", "JMS", b, {k: w[k] for k in g},
                              mu, p).items():
                tot[k] = tot.get(k, 0) + v
        c.eq("sum", tot, full)
        t = c.real("t")
        c.eq("scaled", tw.tr("WET", "JMS", b, {k: t * w[k] for k in names},
                             mu, p), {k: t * v for k, v in full.items()})
        for s in basis("WET", b).sectors:
            part = tw.tr("WET", "JMS", b, dict(w), mu, p, [s])
            for k in basis("WET", b).sectors[s]:
                if k in full:
                    c.eq(f"sector {s}: {k}", part.get(k, 0), full[k])
        c.witness("full", full)
    return H(f"linear, sectors: JMS -> {b}", f, stubs=tw.stubs, ne_flips=0)


def harnesses(tier):
    return [eos(tier), cmm(None, tier), formflavor(tier), covariance(tier),
            parity(tier), linear("EOS"), linear("formflavor")]
