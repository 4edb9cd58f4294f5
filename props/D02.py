"""SMEFTsim parameter cards."""
import json
import os
import re

from vlib.h import *
from vlib import sym

BOUNDS = ("Every coefficient of the 'Warsaw mass' basis without llphiphi and "
          "baryon number violation, all values, given or not; any cutoff "
          "scale; model sets A and B, both input schemes; all 2500 entries "
          "of each card.")
ASSUMPTIONS = ["Which coefficient a block and a code stand for is the "
               "parameter naming of the SMEFTsim models (smeftsim.json); "
               "rounding to seven digits is not part of the claim."]

with open(os.path.join(os.path.dirname(__file__), "smeftsim.json")) as f:
    LAYOUT = json.load(f)

FAMILY = {"gtil": "Gtilde", "wtil": "Wtilde", "h": "phi", "hb": "phiB",
          "hbtil": "phiBtilde", "hdd": "phiD", "hg": "phiG",
          "hgtil": "phiGtilde", "hw": "phiW", "hwb": "phiWB",
          "hwbtil": "phiWtildeB", "hwtil": "phiWtilde", "hbo": "phiBox",
          "hbox": "phiBox", "eh": "ephi", "uh": "uphi", "dh": "dphi"}
for _k in SMEFT_CLASS:
    FAMILY.setdefault(_k.lower(), _k)
for _k in "l1 l3 e q1 q3 u d ud".split():
    FAMILY["h" + _k] = "phi" + _k


def ss():
    return M("wcxf.converters.smeftsim")


def number(x):
    """The number written in a card entry."""
    if isinstance(x, str):
        return sym.unformat(x)
    return x


def element(i, cls, fam, d):
    """Entry i of the array symmetrised like the operators: coefficient,
    divided by the number of equal operators in the Lagrangian."""
    o = orbit(cls, i)
    k, = [k for k in d if k.split("_")[0] == fam and idx(k) in o]
    cj, s = o[idx(k)]
    same = {i}
    todo = [i]
    while todo:
        j = todo.pop()
        for p, c, _ in REL[cls]:
            n = tuple(j[q] for q in p)
            if not c and n not in same:
                same.add(n)
                todo.append(n)
    return k, cj, len(same)


def expected(name, d, real, lam):
    if name in ("Lambda", "LambdaSMEFT"):
        return lam
    if name == "MW0":
        return 80.387
    fam, part, i = re.match(r"c(.*?)(Ph|Abs)?([0-9x]*)$", name).groups()
    fam = FAMILY[fam.lower()]
    i = tuple(int(x) - 1 for x in i.replace("x", ""))
    if i:
        k, cj, n = element(i, SMEFT_CLASS[fam], fam, d)
    else:
        k, cj, n = fam, False, 1
    x = d[k].conjugate() if cj else d[k]
    if part == "Ph":
        return sym.fn1("angle", x)
    if part == "Abs" and not real[k]:
        return abs(x) * lam ** 2 / n
    return x * lam ** 2 / n


def card(model, part, parts=4):
    def harness(c):
        real = {k: r for k, r in realflags("SMEFT", "Warsaw mass").items()
                if SMEFT_CLASS[k.split("_")[0]] not in (3, 7, 71, 8, 9)
                or k.split("_")[0] in ("ledq", "lequ1", "lequ3", "quqd1",
                                       "quqd8")}
        fam = chunks(sorted(by_family(real)), parts)[part]
        on = c.choice("coefficients", ["given", "every other"])
        d = {}
        for n, (k, r) in enumerate(real.items()):
            if k.split("_")[0] in fam and (on == "given" or n % 2):
                d[k] = c.real(k) if r else c.cplx(k)
            else:
                d[k] = 0.
        scheme = c.choice("scheme", ["alpha", "mw"])
        lam = c.real("Lambda", 100., 10000.)
        WC = M("wcxf").WC
        wc = WC("SMEFT", "Warsaw mass", 1000., WC.dict2values(
            {k: v for k, v in d.items() if type(v) is not float}))
        s = ss()
        out = s.smeftsim_card_fill(s.initialize_smeftsim_card(model), wc,
                                   model, lam, scheme)
        c.ok("only blocks", set(out) == {"Block"})
        c.ok("blocks", set(out["Block"]) == set(LAYOUT[model]))
        for b, names in LAYOUT[model].items():
            got = {}
            for v in out["Block"][b]["values"]:
                n = [j for j, x in enumerate(v) if type(x) is int]
                key = " ".join(str(v[j]) for j in n)
                c.ok(f"{b} {key} once", key not in got)
                got[key] = v[len(n)]
            want = set(names)
            if scheme != "mw":
                want -= {k for k in names if names[k] == "MW0"}
            c.ok(f"{b} entries", set(got) == want)
            for key in want:
                e = expected(names[key], d, real, lam)
                c.eq(f"{b} {key} {names[key]}", number(got[key]), e,
                     tol=1e-5)
    return harness


def harnesses(tier):
    return [H(f"model {m} {p}", card(m, p), max_paths=50, ne_flips=0)
            for m in "AB" for p in range(4)]
