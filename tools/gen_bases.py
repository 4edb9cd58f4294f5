"""Generates vlib/bases.json, the basis definitions that the empty submodule
would provide, from the code of the pinned commit. Run once; the result is
committed and does not depend on later changes to /repo."""
import importlib
import importlib.util
import itertools
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from vlib import load  # noqa: E402

R = load.REPO + "/wilson/"


def rawmod(p):
    s = importlib.util.spec_from_file_location("raw_" + os.path.basename(p)[:-3], R + p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


dd = rawmod("wcxf/converters/dsixtools_definitions.py")
SMEFT0 = ["G", "Gtilde", "W", "Wtilde", "phi", "phiBox", "phiD", "phiG", "phiB",
          "phiW", "phiWB", "phiGtilde", "phiBtilde", "phiWtilde", "phiWtildeB"]
SMEFT2 = ["uphi", "dphi", "ephi", "eW", "eB", "uG", "uW", "uB", "dG", "dW", "dB",
          "phil1", "phil3", "phie", "phiq1", "phiq3", "phiu", "phid", "phiud"]
SMEFT4 = ["ll", "qq1", "qq3", "lq1", "lq3", "ee", "uu", "dd", "eu", "ed", "ud1",
          "ud8", "le", "lu", "ld", "qe", "qu1", "qd1", "qu8", "qd8", "ledq",
          "quqd1", "quqd8", "lequ1", "lequ3"]
SMEFTB = ["duql", "qque", "qqql", "duue"]


def elems(name, dim):
    red = set(dd.redundant_elements.get(name, []))
    van = set(dd.vanishing_im_parts.get(name, []))
    out = {}
    for i in itertools.product(range(3), repeat=dim):
        if i in red:
            continue
        out[name + "_" + "".join(str(j + 1) for j in i)] = int(i in van)
    return out


main = {k: 1 for k in SMEFT0}
for k in SMEFT2:
    main.update(elems(k, 2))
for k in SMEFT4:
    main.update(elems(k, 4))
dL2 = elems("llphiphi", 2)
dB = {}
for k in SMEFTB:
    dB.update(elems(k, 4))
warsaw = {"dB=dL=0": main, "dL=2": dL2, "dB=dL=1": dB}

# Warsaw mass: diagonal real Weinberg operator
wm = {s: dict(v) for s, v in warsaw.items()}
wm["dL=2"] = {f"llphiphi_{i}{i}": 1 for i in (1, 2, 3)}

# Higgs-Warsaw up
hw = {s: dict(v) for s, v in warsaw.items()}
m = hw["dB=dL=0"]
for k in ["phi", "phiBox", "phiD", "phiG", "phiW", "phiB", "phiWB", "phiGtilde",
          "phiWtilde", "phiBtilde", "phiWtildeB"]:
    del m[k]
for k in ["phil1", "phil3", "phie", "phiq1", "phiq3", "phiu", "phid", "phiud"]:
    for x in [x for x in m if x.split("_")[0] == k]:
        del m[x]
for k in ["deltalambda3", "deltacz", "czBox", "cgg", "cgammagamma", "czz",
          "czgamma", "cggtilde", "cgammagammatilde", "czztilde",
          "czgammatilde"]:
    m[k] = 1
for k in ["deltagWlL", "deltagZeL", "deltagZeR", "deltagZuL", "deltagZdL",
          "deltagZuR", "deltagZdR"]:
    for i in range(3):
        for j in range(i, 3):
            m[f"{k}_{i+1}{j+1}"] = int(i == j)
for i in range(3):
    for j in range(3):
        m[f"deltagWqR_{i+1}{j+1}"] = 0

# JMS
coeffs = json.load(open(R + "data/run_wet_definitions_coeffs.json"))
HERM5 = ["VnueLL", "VnuuLL", "VnudLL", "VeuLL", "VedLL", "V1udLL",
         "V8udLL", "VeuRR", "VedRR", "V1udRR", "V8udRR", "VnueLR",
         "VeeLR", "VnuuLR", "VnudLR", "VeuLR", "VedLR", "VueLR", "VdeLR",
         "V1uuLR", "V8uuLR", "V1udLR", "V8udLR", "V1duLR", "V8duLR",
         "V1ddLR", "V8ddLR"]
HERM4 = ["VuuRR", "VddRR", "VuuLL", "VddLL"]
HERM6 = ["VeeLL", "VeeRR", "VnunuLL"]


def jreal(k):
    if "_" not in k:
        return 1
    n, ind = k.split("_")
    if len(ind) != 4:
        return 0
    i, j, kk, l = ind
    conj = (j, i, l, kk)
    orb = {(i, j, kk, l)}
    if n in HERM4 + HERM6:
        orb.add((kk, l, i, j))
    if n in HERM6:
        orb |= {(kk, j, i, l), (i, l, kk, j)}
    elif n not in HERM4 + HERM5:
        return 0
    return int(conj in orb)


jms = {s: {k: jreal(k) for k in v} for s, v in coeffs.items()}


def flavs(name):
    """field content of a JMS coefficient, per index"""
    if name in ("uG", "ugamma"):
        return "uu"
    if name in ("dG", "dgamma"):
        return "dd"
    if name == "egamma":
        return "ee"
    b = name[1:].lstrip("18")
    out = []
    while b and b[-1] in "LR":
        b = b[:-1]
    while b:
        if b.startswith("nu"):
            out.append("n")
            b = b[2:]
        else:
            out.append(b[0])
            b = b[1:]
    if len(out) == 2:
        out = [out[0], out[0], out[1], out[1]]
    if len(out) == 3:      # baryon-number violating: the lepton is implied
        out.append("n" if out.count("d") == 2 else "e")
    assert len(out) == 4, (name, out)
    return out


FL = {"u": ["u", "c"], "d": ["d", "s", "b"], "e": ["e", "mu", "tau"],
      "n": ["n", "n", "n"]}


def has_quark(k, qs):
    if "_" not in k:
        return False
    n, ind = k.split("_")
    return any(FL[f][int(i) - 1] in qs for f, i in zip(flavs(n), ind))


def restrict(d, qs):
    out = {}
    for s, v in d.items():
        w = {k: r for k, r in v.items() if not has_quark(k, qs)}
        if w:
            out[s] = w
    return out


jms4 = restrict(jms, ["b"])
jms3 = restrict(jms, ["b", "c"])
jms2 = restrict(jms, ["b", "c", "s"])
bases = []


def add(eft, basis, sec):
    bases.append({"eft": eft, "basis": basis, "sectors": sec})


for b in ("Warsaw", "Warsaw up"):
    add("SMEFT", b, warsaw)
add("SMEFT", "Warsaw mass", wm)
add("SMEFT", "Higgs-Warsaw up", hw)
add("WET", "JMS", jms)
add("WET-4", "JMS", jms4)
add("WET-3", "JMS", jms3)
add("WET-2", "JMS", jms2)
efts = {"SMEFT": list(warsaw), "WET": list(jms), "WET-4": list(jms4),
        "WET-3": list(jms3), "WET-2": list(jms2)}
d = {"efts": efts, "bases": bases}
placeholders = ["flavio", "Bern"]
for e in ("WET", "WET-4", "WET-3"):
    for b in placeholders:
        add(e, b, {})
wilson = load.load(d)
W = importlib.import_module("wilson.translate.wet")
from wilson import wcxf  # noqa: E402
import random  # noqa: E402
rnd = random.Random(3)
rv = lambda r: rnd.uniform(.5, 1) if r else complex(rnd.uniform(.5, 1), rnd.uniform(.5, 1))

tr = {
    "flavio": (W.JMS_to_flavio, [W.flavio_to_JMS, W.flavio_to_Bern]),
    "Bern": (W.JMS_to_Bern, [W.Bern_to_JMS, W.Bern_to_flavio]),
}
# which sectors of JMS does a key depend on
found = {}
for b, (fwd, backs) in tr.items():
    full = fwd({k: rv(r) for v in jms.values() for k, r in v.items()}, 160.)
    keys = set(full)
    dep = {k: [] for k in keys}
    for s, v in jms.items():
        o = fwd({k: rv(r) for k, r in v.items()}, 160.)
        for k, x in o.items():
            if abs(x) > 0:
                dep[k].append(s)
    found[b] = (keys, dep)
    print(b, len(keys), "no dep", len([k for k in keys if not dep[k]]),
          "multi", [(k, dep[k]) for k in keys if len(dep[k]) > 1][:10])
# keys needed as input
for b, (fwd, backs) in tr.items():
    keys, dep = found[b]
    B = wcxf.Basis["WET", b]
    extra = set()
    allk = set(keys)
    B.sectors = {"x": {k: {} for k in allk}}
    for f in backs:
        while True:
            B._all_wcs = None
            B.sectors = {"x": {k: {} for k in allk}}
            try:
                f({}, 160.)
                break
            except KeyError as e:
                k = e.args[0]
                if k in allk:
                    raise
                allk.add(k)
                extra.add(k)
    print(b, "extra input keys", len(extra), sorted(extra)[:40])
    found[b] += (extra,)

bases = [b for b in bases if b["basis"] not in placeholders]
full = {k: rv(r) for v in jms.values() for k, r in v.items()}
full4 = {k: v for k, v in full.items() if any(k in s for s in jms4.values())}
full3 = {k: v for k, v in full.items() if any(k in s for s in jms3.values())}
for b, (keys, dep, extra) in found.items():
    for e, inp in (("WET", full), ("WET-4", full4), ("WET-3", full3)):
        o = tr[b][0](inp, 160.)
        sec = {}
        for k in sorted(keys):
            if abs(o.get(k, 0)) > 0:
                r = int(complex(o[k]).imag == 0)
                sec.setdefault(dep[k][0], {})[k] = r
        assert set(sec) <= set(efts[e]), (b, e)
        bases.append({"eft": e, "basis": b, "sectors": sec})
for b, f in (("EOS", W.JMS_to_EOS), ("formflavor", W.JMS_to_FormFlavor),
             ("FlavorKit", lambda C, s: W.JMS_to_FlavorKit(C, s))):
    keys = set(f(full, 160.))
    dep = {k: [] for k in keys}
    for s_, v in jms.items():
        if b == "FlavorKit":
            o = f({k: full[k] for k in v}, 160.)
        else:
            o = f({k: full[k] if k in v else 0 for k in full}, 160.)
        for k, x in o.items():
            if abs(x) > 0:
                dep[k].append(s_)
    print(b, len(keys), [k for k in keys if len(dep[k]) != 1][:10])
    sec = {}
    for k in sorted(keys):
        sec.setdefault(dep[k][0] if dep[k] else "dF=0", {})[k] = 0
    bases.append({"eft": "WET", "basis": b, "sectors": sec})
with open(os.path.join(os.path.dirname(__file__), "..", "vlib", "bases.json"), "w") as f:
    json.dump({"efts": efts, "bases": bases}, f, separators=(",", ":"), sort_keys=False)
for b in bases:
    print(b["eft"], b["basis"], len(b["sectors"]), sum(map(len, b["sectors"].values())))
