"""DsixTools files: conversion to and from WCxf."""
from collections import OrderedDict

from vlib.h import *
from vlib import sym

BOUNDS = ("All coefficients of the Warsaw basis symbolic at once (all "
          "complex values, non-zero), any input scale and any reference "
          "scale, all Standard Model parameters; blocks and imaginary parts "
          "present or not.")
ASSUMPTIONS = ["pylha's text format is not part of this: files are the "
               "dictionaries pylha reads and writes; float() of a number is "
               "the number."]


def dt():
    return M("wcxf.converters.dsixtools")


class Pylha:
    """Records what is written, hands over what is to be read."""

    def __init__(self):
        self.out = []

    def dump(self, d, fmt="lha", stream=None):
        self.out.append((d, fmt, stream))
        return d

    def load(self, stream):
        return stream


def stubs(c):
    p = Pylha()
    STATE["pylha"] = p
    return {(dt(), "pylha"): p}


STATE = {}


def point(c, all_=True):
    fl = realflags("SMEFT", "Warsaw")
    d = coeffs(c, fl)
    for k in d:
        c.assume(d[k] != 0)
    return fl, d


def dimension(k):
    return 1 if k.split("_")[0] == "llphiphi" else 2


def values(d):
    """Numbers as in a file: real parts only unless complex."""
    return M("wcxf").WC.dict2values(d)


def wcxf_roundtrip(c):
    """WCxf to arrays in units of the high scale and back."""
    fl, d = point(c)
    WC = M("wcxf").WC
    mu, hi = c.real("mu", 1e2, 1e4), c.real("high", 1e2, 1e4)
    how = c.choice("high scale", ["argument", "before", "none"])
    wc = WC("SMEFT", "Warsaw", mu, values(d))
    io = dt().SMEFTio()
    if how == "before":
        io.set_initial({}, 1., hi)
        io.set_initial_wcxf(wc)
    elif how == "argument":
        io.set_initial_wcxf(wc, scale_high=hi)
    else:
        io.set_initial_wcxf(wc)
        hi = mu
    c.eq("high scale", io.scale_high, hi, tol=0)
    c.eq("input scale", io.scale_in, mu, tol=0)
    C = io.C_in
    for n, cls in SMEFT_CLASS.items():
        if n in C:
            if cls == 0:
                c.eq(f"array {n}", C[n], d[n] * hi ** 2)
                continue
            for k, x in d.items():
                if k.split("_")[0] == n:
                    c.eq(f"array {k}", C[n][idx(k)], x * hi ** dimension(k))
        else:
            c.ok(f"{n} present", False)
    out = io.get_wcxf(C, mu)
    c.ok("kind", (out.eft, out.basis) == ("SMEFT", "Warsaw"))
    c.eq("scale", out.scale, mu, tol=0)
    c.eq("back", out.dict, d)
    c.eq("input", wc.dict, d, tol=0, keys="strict")
    c.witness("out", out.dict)


def util():
    return M("util").smeftutil


def symmetric(d):
    """The full arrays belonging to the coefficients."""
    C = util().symmetrize(util().wcxf2arrays(d))
    return util().add_missing(C)


def file_roundtrip(c):
    """Arrays to a DsixTools file and back, also through symmetrisation;
    zeros, redundant elements and vanishing imaginary parts may be missing."""
    fl, d = point(c)
    C = symmetric(d)
    skip = c.choice("skip redundant", [True, False])
    lha = dt().wc_dict2lha(C, skip_redundant=skip)
    back = dt().wc_lha2dict(lha)
    if skip:
        back = util().symmetrize(back)
    for n in SMEFT_CLASS:
        c.eq(f"{n}", back[n], C[n])
    for b, x in lha["BLOCK"].items():
        keys = [tuple(v[:-1]) for v in x["values"]]
        c.ok(f"block {b}: every entry once", len(keys) == len(set(keys)))
        c.ok(f"block {b}: not empty", len(keys) > 0)
        for v in x["values"]:
            for i in v[:-1]:
                c.ok("indices from one", i >= 1)
            if type(v[-1]) is sym.Sym:
                c.eq(f"block {b} real {v[:-1]}", v[-1].imag, 0)


def smpar(c):
    """The Standard Model parameters in both directions."""
    d = OrderedDict()
    for k in ("g", "gp", "gs", "Lambda", "m2", "Theta", "Thetap", "Thetas"):
        d[k] = c.real(k, .1, 2.)
    for k in ("Gu", "Gd", "Ge"):
        d[k] = c.carray(k, (3, 3))
    lha = dt().sm_dict2lha(d)
    miss = c.choice("missing", [(), ("THETA",), ("IMGU", "IMGD", "IMGE"),
                                ("IMGD",)])
    for k in miss:
        del lha["BLOCK"][k]
    back = dt().sm_lha2dict(lha)
    for k in d:
        want = d[k]
        if k.startswith("Theta") and "THETA" in miss:
            want = 0
        if "IM" + k.upper() in miss:
            want = d[k].real
        c.eq(k, back[k], want)


def files(c):
    """wcxf2dsixtools and dsixtools2wcxf are inverse to each other."""
    fl, d = point(c)
    WC = M("wcxf").WC
    mu = c.real("mu", 1e2, 1e4)
    wc = WC("SMEFT", "Warsaw", mu, values(d))
    out = dt().wcxf2dsixtools(wc, stream=None)
    c.eq("scale in file", dict(out["BLOCK"]["SCALES"]["values"])[1], mu)
    sm = {k: c.real(k, .1, 2.) for k in ("g", "gp", "gs", "Lambda", "m2")}
    sm.update({k: 0. for k in ("Theta", "Thetap", "Thetas")})
    sm.update({k: np.eye(3) for k in ("Gu", "Gd", "Ge")})
    io = dt().SMEFTio()
    order = c.choice("order", [0, 1])
    parts = [out, dt().sm_dict2lha(sm)]
    io.load_initial(tuple(parts[::-1] if order else parts))
    c.eq("scale", io.scale_in, mu)
    back = io.get_wcxf(io.C_in, io.scale_in)
    c.eq("coefficients", back.dict, d)
    for k in ("g", "gp", "gs", "Lambda", "m2"):
        c.eq(k, io.C_in[k], sm[k])
    c.eq("back scale", back.scale, mu)


def missing(c):
    """Missing coefficients and blocks count as zero; the existing ones are
    kept."""
    fl = realflags("SMEFT", "Warsaw")
    fam = by_family(fl)
    k = c.choice("family", list(fam))
    mine = coeffs(c, sub(fl, fam[k][:6]))
    how = c.choice("values", ["complex", "real", "imaginary"])
    for x, real in sub(fl, fam[k][:6]).items():
        if how != "complex" and not real:
            y = c.real(f"{x} part")
            c.assume(y != 0)
            mine[x] = y if how == "real" else 1j * y
    WC = M("wcxf").WC
    mu = c.real("mu", 1e2, 1e4)
    io = dt().SMEFTio()
    io.set_initial_wcxf(WC("SMEFT", "Warsaw", mu, values(mine)))
    lha = dt().wc_dict2lha(io.C_in)
    C = util().symmetrize(dt().wc_lha2dict(lha))
    c.ok("all names", set(C) >= set(SMEFT_CLASS) and
         set(io.C_in) >= set(SMEFT_CLASS))
    io.scale_high = mu
    c.eq("back", io.get_wcxf(C, mu).dict, mine)
    c.ok("only this family", set(lha["BLOCK"]) <= {
        "WC" + k.upper(), "IMWC" + k.upper(), *{b for b, _ in
                                                dt().WC_dict_0f.values()}})


NUMBERS = {"WC1": ["G", "Gtilde", "W", "Wtilde"], "WC2": ["phi"],
           "WC3": ["phiBox", "phiD"],
           "WC4": ["phiG", "phiB", "phiW", "phiWB", "phiGtilde", "phiBtilde",
                   "phiWtilde", "phiWtildeB"]}


def content(c):
    """What is where in the files: the blocks are those of DsixTools, entries
    are numbered by flavour, units are those of the arrays."""
    fl, d = point(c)
    C = symmetric(d)
    lha = dt().wc_dict2lha(C, skip_redundant=c.choice("skip", [True, False]))
    B = {b: {tuple(v[:-1]): v[-1] for v in x["values"]}
         for b, x in lha["BLOCK"].items()}
    names = {}
    for b, l in NUMBERS.items():
        c.ok(f"{b}", set(B[b]) == {(i + 1,) for i in range(len(l))})
        for i, n in enumerate(l):
            c.eq(n, B[b].get((i + 1,), 0), C[n])
            names[b] = 0
    for n, cls in SMEFT_CLASS.items():
        if cls == 0:
            continue
        for pre, part in (("WC", "real"), ("IMWC", "imag")):
            b = pre + n.upper()
            names[b] = 0
            for k, x in B.get(b, {}).items():
                c.eq(f"{b} {k}", x, getattr(C[n][tuple(i - 1 for i in k)],
                                            part))
    c.ok("blocks", set(B) <= set(names))
    s = OrderedDict()
    for k in ("g", "gp", "gs", "Lambda", "m2", "Theta", "Thetap", "Thetas"):
        s[k] = c.real(k, .1, 2.)
    for k in ("Gu", "Gd", "Ge"):
        s[k] = c.carray(k, (3, 3))
    B = {b: {tuple(v[:-1]): v[-1] for v in x["values"]}
         for b, x in dt().sm_dict2lha(s)["BLOCK"].items()}
    for b, l in (("GAUGE", ("g", "gp", "gs")), ("SCALAR", ("Lambda", "m2")),
                 ("THETA", ("Theta", "Thetap", "Thetas"))):
        for i, k in enumerate(l):
            c.eq(k, B[b][i + 1,], s[k])
    for k in ("Gu", "Gd", "Ge"):
        for i in range(3):
            for j in range(3):
                c.eq(f"{k}", B[k.upper()].get((i + 1, j + 1), 0),
                     s[k][i, j].real)
                c.eq(f"{k}", B["IM" + k.upper()].get((i + 1, j + 1), 0),
                     s[k][i, j].imag)


def refused(c):
    WC = M("wcxf").WC
    e, b = c.choice("kind", [("WET", "JMS"), ("SMEFT", "Warsaw up"),
                             ("SMEFT", "Warsaw mass")])
    io = dt().SMEFTio()
    c.raises("refused", ValueError,
             lambda: io.set_initial_wcxf(WC(e, b, 100., {})))
    c.raises("no block", ValueError, lambda: io.load_initial(({},)))


def harnesses(tier):
    k = dict(stubs=stubs)
    return [H("WCxf round trip", wcxf_roundtrip, ne_flips=0, **k),
            H("file content", content, ne_flips=0, **k),
            H("file round trip", file_roundtrip, **k),
            H("Standard Model parameters", smpar, **k),
            H("files", files, ne_flips=0, **k), H("missing", missing, **k),
            H("refused", refused, **k)]
