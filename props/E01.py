"""Conversion to EOS parameters."""
import os
import tempfile

import yaml

from vlib import codec
from vlib.h import *

BOUNDS = ("Eight EOS parameter names covering real, Re/Im and charged-current "
          "(lepton-flavour-universal) kinds; every subset of the corresponding "
          "coefficients present (symbolic presence flags), values any complex "
          "number, SM central values any real number.")
ASSUMPTIONS = ["Lepton flavour universality is a statement on the electron and "
               "muon coefficients; the EOS basis has no 'lnu' coefficients of "
               "its own."]


def sm(c, keys):
    return {k: {"central": c.real("sm " + k), "min": c.real("min " + k),
                "max": c.real("max " + k)} for k in keys}


def check(c, out, smv, want):
    c.ok("the parameters of the SM file, in order", list(out) == list(smv))
    for k, np_ in want.items():
        for q in ("central", "min", "max"):
            c.eq(f"{k} {q}", out[k][q], smv[k]["central"] + np_, tol=1e-12)
        c.ok(f"fields {k}", set(out[k]) == {"central", "min", "max"})


def neutral(c):
    """Real coefficients and those with Re and Im parts."""
    m, e = M("wcxf.classes").WC, M("wcxf.converters.eos")
    wcs = {"b->s::c5": None, "b->s::c7": None, "b->smumu::c9'": None}
    keys = ["b->s::c5", "b->s::c6", "b->s::Re{c7}", "b->s::Im{c7}",
            "b->smumu::Im{c9'}", "b->smumu::Re{c9'}", "b->see::Re{c9}",
            "b->see::Im{c9}"]
    d = {}
    for k in wcs:
        if c.flag("has " + k):
            d[k] = c.real(k) if k.endswith("c5") else c.cplx(k)
    extra = c.flag("other coefficient")
    if extra:
        d["b->s::c8"] = c.cplx("c8")
    w = m("WET", "EOS", 4.2, m.dict2values(d))
    smv = sm(c, keys)
    inp = {k: dict(v) for k, v in smv.items()}
    out = e.wcxf2eos(w, smv)
    want = {}
    for k in keys:
        n = k.replace("Re{", "").replace("Im{", "").replace("}", "")
        v = d.get(n, 0)
        want[k] = v.imag if "Im{" in k else v.real
    check(c, out, smv, want)
    c.eq("SM values untouched", smv, inp, tol=0)
    c.eq("coefficients untouched", w.dict, d, tol=0)


def charged(c):
    """Charged-current coefficients stand for all leptons: electron and muon
    must agree, otherwise ValueError."""
    m, e = M("wcxf.classes").WC, M("wcxf.converters.eos")
    d = {}
    has = {}
    for n in ("enue", "munumu"):
        has[n] = c.flag("has " + n)
        if has[n]:
            d[f"b->u{n}::cVL"] = c.cplx(n)
    if c.flag("tau"):
        d["b->utaunutau::cVL"] = c.cplx("tau")
    keys = ["b->ulnu::Re{cVL}", "b->ulnu::Im{cVL}", "b->ulnu::Re{cVR}",
            "b->s::c5"]
    sel = c.choice("parameters", ["all", "other order", "Re only", "Im only"])
    keys = {"all": keys, "other order": keys[::-1], "Re only": keys[::2],
            "Im only": keys[1::2]}[sel]
    w = m("WET", "EOS", 4.2, m.dict2values(d))
    smv = sm(c, keys)
    a, b = d.get("b->uenue::cVL", 0), d.get("b->umunumu::cVL", 0)
    try:
        out = e.wcxf2eos(w, smv)
    except ValueError:
        c.ok("error only for non-universal coefficients", a != b)
        return
    c.ok("no result for non-universal coefficients", a == b)
    want = {k: 0 for k in keys}
    if sel != "Im only":
        want["b->ulnu::Re{cVL}"] = a.real
    if sel != "Re only":
        want["b->ulnu::Im{cVL}"] = a.imag
    check(c, out, smv, want)


def universal(c):
    """Universal coefficients enter once."""
    m, e = M("wcxf.classes").WC, M("wcxf.converters.eos")
    z = {n: c.cplx(n) for n in ("cVL", "cSL", "cT")}
    d = {f"b->{q}{l}::{n}": v for n, v in z.items()
         for l in ("enue", "munumu") for q in "u"}
    keys = [f"b->ulnu::{p}{{{n}}}" for n in z for p in ("Re", "Im")]
    w = m("WET", "EOS", 4.2, m.dict2values(d))
    smv = sm(c, keys)
    out = e.wcxf2eos(w, smv)
    want = {}
    for n, v in z.items():
        want[f"b->ulnu::Re{{{n}}}"] = v.real
        want[f"b->ulnu::Im{{{n}}}"] = v.imag
    check(c, out, smv, want)
    c.witness("central", out["b->ulnu::Im{cT}"]["central"])


def files(c):
    """SM values come from all parameter files marked as relevant, and from no
    others."""
    e = M("wcxf.converters.eos")
    k = codec.Codec(c)
    want = {}
    with tempfile.TemporaryDirectory() as d:
        for i in range(3):
            kind = c.choice(f"file {i}", ["relevant", "irrelevant",
                                          "no metadata", "no flag"])
            x = c.real(f"x{i}")
            f = {f"p{i}": {"central": x, "min": x, "max": x}}
            if kind != "no metadata":
                f["@metadata@"] = {"title": "t"}
                if kind != "no flag":
                    f["@metadata@"]["wcxf-relevant"] = kind == "relevant"
            if kind == "relevant":
                want[f"p{i}"] = x
            with open(os.path.join(d, f"f{i}.yaml"), "w") as o:
                yaml.safe_dump(k.enc(f), o)
        with open(os.path.join(d, "other.txt"), "w") as o:
            o.write("{")
        r = k.dec(e.get_sm_wcs(d))
    c.ok("parameters", set(r) == set(want))
    for n, x in want.items():
        c.eq(n, r[n]["central"], x, tol=0)


def harnesses(tier):
    k = dict(ne_flips=60, ne_depth=3, max_paths=3000)
    return [H("neutral", neutral, **k), H("charged", charged, **k),
            H("universal", universal, **k), H("files", files, **k)]
