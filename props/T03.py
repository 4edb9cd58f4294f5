"""WET bases: translating there and back."""
import math
import re

from vlib.h import *
from vlib.sym import Sym

from . import tw

BOUNDS = ("All coefficients of the basis symbolic at once (modulus up to 1), "
          "scale 1.5..300 GeV, all input parameters symbolic within the "
          "intervals of props/tw.py, or left at their defaults; CKM matrix "
          "and QCD running arbitrary functions of their arguments.")
ASSUMPTIONS = ["rundec and the CKM parametrisation are uninterpreted."]


def given(c):
    w = c.choice("parameters", ["all", "some", None])
    return tw.parameters(c, ["GF", "Vcb", "gamma", "m_mu", "alpha_s"]
                         if w == "some" else w)


def there_and_back(eft, a, b, tier):
    """X -> JMS -> X is the identity; every X coefficient is covered."""
    def f(c):
        w = coeffs(c, realflags(eft, a))
        p = given(c)
        mu = tw.scale(c)
        inp, keep = dict(w), None if p is None else dict(p)
        x = tw.tr(eft, a, b, w, mu, p)
        c.eq("input", w, inp, keys="strict")
        c.ok("parameters", p is None and keep is None or
             list(p.items()) == list(keep.items()))
        inx = dict(x)
        y = tw.tr(eft, b, a, x, mu, p)
        c.eq("intermediate", x, inx, keys="strict")
        fa, fb = realflags(eft, a), realflags(eft, b)
        for k in x:
            if k not in fb:
                c.eq(f"outside the basis {k}", x[k], 0)
        c.eq("back", y, w)
        for k in x:
            if fb.get(k):
                c.eq(f"real {k}", getattr(x[k], "imag", 0), 0, tol=1e-9,
                     scale=1)
        c.witness("x", x)
    return H(f"{eft}: {a} -> {b} -> {a}", f, stubs=tw.stubs,
             ne_flips=0 if tier == "quick" else 2, cost=2 - (eft != "WET"))


def projection(eft, a, b, tier):
    """JMS -> X -> JMS returns a coefficient unchanged or not at all; it is
    returned if the translation of the X coefficients can give it."""
    def f(c):
        fl = realflags(eft, a)
        w = coeffs(c, fl)
        p = given(c)
        mu = tw.scale(c)
        x = tw.tr(eft, a, b, dict(w), mu, p)
        y = tw.tr(eft, b, a, dict(x), mu, p)
        full = tw.tr(eft, b, a, coeffs(c, realflags(eft, b), prefix="x"),
                     mu, p)
        reach = {k for k, v in full.items() if type(v) is Sym}
        c.ok("reached", len(reach & set(fl)) > 500)
        c.ok("basis coefficients", set(x) <= set(realflags(eft, b)))
        for k in w:
            c.eq(k, y.get(k, 0), w[k] if k in reach else 0)
        c.witness("y", y)
    return H(f"{eft}: {a} -> {b} -> {a}", f, stubs=tw.stubs,
             ne_flips=0 if tier == "quick" else 2, cost=2 - (eft != "WET"))


# FlavorKit's letters: fields of the first and second bilinear, JMS names
KIT = {"A": ("ee", ""), "B": ("ed", ""), "C": ("eu", ""), "D": ("dd", "1"),
       "E": ("de", ""), "F": ("dnu", ""), "G": ("Gdu", "")}


def kit_name(k):
    """(possible JMS names, indices, conjugate) of a FlavorKit coefficient:
    letter of the fields, Lorentz structure, chiralities, indices in the order
    (psi, psi-bar) of each bilinear."""
    name, ind = k.split("_")
    i = tuple(int(x) - 1 for x in ind)
    if len(i) == 2:
        n = {"K2": "egamma", "Q1": "dgamma", "Q2": "dG"}[name[:2]]
        return [((n,), i[::-1], False)]
    f, lor, chi = name[0], name[1], name[2:]
    a, b, cc, d = i
    if f == "G":
        # charged current; the bilinears and the conjugate are exchanged
        c2 = chi if lor == "V" else {"LL": "RR", "RL": "RL"}[chi]
        c2 = {"RL": "LR"}.get(c2, c2) if lor == "V" else c2
        return [((f"{lor}nuedu{c2}",), (cc, d, a, b), True)]
    p, n = KIT[f]
    x, y = (p[0], p[1:]) if f != "F" else ("d", "nu")
    same, swap = f"{lor}{{}}{x}{y}{chi}", f"{lor}{{}}{y}{x}{chi[::-1]}"
    out = []
    for num in ("", n):
        out.append(((same.format(num),), (b, a, d, cc), False))
        out.append(((swap.format(num),), (d, cc, b, a), False))
    return out


def kit(c):
    """A FlavorKit coefficient is the one of the JMS operator with the same
    fields, chiralities and flavours."""
    fl = realflags("WET", "FlavorKit")
    jms = set(realflags("WET", "JMS"))
    w = coeffs(c, fl)
    mu = tw.scale(c)
    x = tw.tr("WET", "FlavorKit", "JMS", dict(w), mu, None)
    for k in w:
        n = 0
        for (name,), i, cj in kit_name(k):
            if name not in WET_CLASS or n:
                continue
            for j, (cj2, s) in orbit(WET_CLASS[name], i).items():
                key = name + "_" + "".join(str(q + 1) for q in j)
                if key not in jms or n:
                    continue
                v = w[k].conjugate() if cj ^ cj2 else w[k]
                if k[:2] == "K2":
                    # normalised to m/2 e
                    c.ok(k, k not in x)
                    c.eq(k + " phase", x[key] * w[k].conjugate(),
                         (x[key] * w[k].conjugate()).real)
                else:
                    c.eq(k, x.get(key, 0), s * v)
                n = 1
        c.ok(f"{k} exists", n == 1)


FLAVOURS = {"nue": ("nu", 0), "numu": ("nu", 1), "nutau": ("nu", 2),
            "e": ("e", 0), "mu": ("e", 1), "tau": ("e", 2), "u": ("u", 0),
            "c": ("u", 1), "d": ("d", 0), "s": ("d", 1), "b": ("d", 2)}
# sectors named after lepton flavours; those of flavour-diagonal operators
LFV = ("mutau mue taue tauetaue taumutaumu muemue muemutau etauemu tauetaumu "
       "nunumue nunumutau nunutaue").split()
BLIND = ("dF=0", "ffnunu")


def flavours(s, n=4):
    """The ways to read s as n flavours."""
    if n == 0:
        return [] if s else [[]]
    return [[FLAVOURS[t]] + r for t in FLAVOURS if s.startswith(t)
            for r in flavours(s[len(t):], n - 1)]


def flavio(c):
    """flavio's coefficients of lepton flavour violating, flavour-diagonal and
    neutrino operators are those of the JMS operators with the same fields,
    chiralities and flavours; the latter two divided by 4 GF / sqrt(2)."""
    jms = set(realflags("WET", "JMS"))
    secs = M("wcxf.classes").Basis["WET", "flavio"].sectors
    p = tw.parameters(c, c.choice("parameters", [["GF"], None]))
    fl = {k: r for k, r in realflags("WET", "flavio").items() for s in
          LFV + list(BLIND) if k in secs.get(s, {})}
    w = coeffs(c, fl)
    x = tw.tr("WET", "flavio", "JMS", dict(w), tw.scale(c), p)
    GF = (p or M("parameters").p)["GF"]
    count = 0
    for k in w:
        m = re.match(r"C([VST])([18]?)([LR])([LR])_(.*)", k)
        if not m:
            continue
        blind = any(k in secs[s] for s in BLIND)
        found = False
        for f in flavours(m[5]):
            ty, g = [t for t, _ in f], [i for _, i in f]
            for o in ((0, 1, 2, 3), (2, 3, 0, 1)):
                if not blind:      # named psi, psi-bar
                    o = [o[1], o[0], o[3], o[2]]
                t, i = [ty[q] for q in o], tuple(g[q] for q in o)
                chi = m[3] + m[4] if o[0] < 2 else m[4] + m[3]
                name = m[1] + m[2] + (t[0] + t[2] if t[0] == t[1] and t[2] ==
                                      t[3] else "".join(t)) + chi
                if name not in WET_CLASS or found:
                    continue
                for j, (cj, s) in orbit(WET_CLASS[name], i).items():
                    key = name + "_" + "".join(str(q + 1) for q in j)
                    if key in jms and not found:
                        v = s * (conj(w[k]) if cj else w[k])
                        if blind:
                            v = v * 4 / math.sqrt(2) * GF
                        c.eq(k, x.get(key, 0), v)
                        found = True
                        count += 1
        c.ok(f"{k} exists", found)
    c.ok("coefficients", count > 500)


def harnesses(tier):
    out = [H("FlavorKit names", kit, stubs=tw.stubs, ne_flips=0),
           H("flavio names", flavio, stubs=tw.stubs, ne_flips=0)]
    for eft in ("WET", "WET-4", "WET-3"):
        for b in ("Bern", "flavio", "FlavorKit"):
            if b == "FlavorKit" and eft != "WET":
                continue
            out.append(there_and_back(eft, b, "JMS", tier))
            if eft == "WET":
                out.append(projection(eft, "JMS", b, tier))
    return out
