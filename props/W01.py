"""Wilson coefficient values: numbers <-> WCxf value dictionaries."""
import numpy as np

from vlib.h import *

BOUNDS = ("Up to six coefficients with arbitrary distinct or equal names, "
          "real and imaginary parts any real number up to 1e3 in modulus, "
          "scale any number in (1e-3, 1e17); every representation of a value "
          "(number, Re/Im, only Re, only Im, text).")
B = 1e3


def WC():
    return M("wcxf.classes").WC


def values(c):
    """Numbers -> WC -> numbers, exactly."""
    z = {"a": c.cplx("a", B), "b": c.real("b", -B, B), "d": c.cplx("d", B),
         "e": c.cplx("e", 1e-9)}
    inp = dict(z)
    v = WC().dict2values(z)
    c.eq("argument unchanged", z, inp, tol=0, keys="strict")
    c.ok("names kept in order", list(v) == list(inp))
    w = WC()("E", "B", c.real("mu", 1e-3, 1e17), v)
    for k, x in inp.items():
        c.eq(f"value {k}", w.dict[k], x, tol=0)
        c.eq(f"item {k}", w[k], x, tol=0)
        f = v[k]
        if isinstance(f, dict):
            c.ok("Re and Im", set(f) == {"Re", "Im"})
            c.eq(f"Re {k}", f["Re"], x.real, tol=0)
            c.eq(f"Im {k}", f["Im"], x.imag, tol=0)
        else:
            c.eq(f"real {k}", f, x, tol=0)
    c.eq("absent", w["nope"], 0)
    c.ok("absent stays absent", "nope" not in w.dict)
    c.ok("names", list(w.dict) == list(inp))
    c.witness("value", w.dict)


def plain_types(c):
    """Whatever number type goes in, plain Python floats come out (so that the
    result can be written to JSON and YAML)."""
    x = c.real("x", -B, B)
    cases = {
        "np.float64": np.float64(0.25), "np.complex128": np.complex128(1 + 2j),
        "np real complex": np.complex128(3.0), "int": 2, "complex": 1.5 - 2j,
        "float": 0.1, "negative imaginary": -1e-30j, "np.int": np.int64(3)}
    v = WC().dict2values(cases)
    for k, y in v.items():
        parts = y.values() if isinstance(y, dict) else [y]
        for p in parts:
            c.ok(f"plain float {k}", type(p) is float)
        w = WC()("E", "B", 1, {"x": y})
        c.ok(f"value {k}", complex(w["x"]) == complex(cases[k]))
    v = WC().dict2values({"x": x})
    c.eq("x", v["x"], x, tol=0)


def forms(c):
    """Every way a value may be written in a file."""
    re, im = c.real("re", -B, B), c.real("im", -B, B)
    vals, want = {}, {}
    vals["both"], want["both"] = {"Re": re, "Im": im}, (re, im)
    vals["re"], want["re"] = {"Re": re}, (re, 0)
    vals["im"], want["im"] = {"Im": im}, (0, im)
    vals["none"], want["none"] = {}, (0, 0)
    vals["num"], want["num"] = re, (re, 0)
    vals["int"], want["int"] = 3, (3, 0)
    vals["text"], want["text"] = "1e-3", (0.001, 0)
    vals["text parts"], want["text parts"] = {"Re": "2e-4", "Im": "-1e5"}, \
        (2e-4, -1e5)
    order = c.choice("access", ["dict", "item", "df"])
    w = WC()("E", "B", "91.1876", vals)
    c.ok("scale", type(w.scale) is float and w.scale == 91.1876)
    if order == "df":
        w.df
    if order == "item":
        w["im"]
    for k, (a, b) in want.items():
        x = w[k] if order == "item" else w.dict[k]
        c.eq(f"Re {k}", x.real, a, tol=0)
        c.eq(f"Im {k}", x.imag, b, tol=0)
    c.ok("values kept", w.values is vals or dict(w.values) == vals)


def frame(c):
    """The data frame lists every coefficient with its two parts."""
    n = 4
    z = {f"k{i}": c.cplx(f"z{i}", B) for i in range(n)}
    z["r"] = c.real("r", -B, B)
    v = {}
    for k, x in z.items():
        v[k] = {"Re": x.real, "Im": x.imag} if k != "r" else x
    w = WC()("E", "B", 1, v)
    if c.flag("dict first"):
        w.dict
    df = w.df
    c.ok("rows", list(df.index) == list(z))
    c.ok("columns", list(df.columns) == ["Re", "Im"])
    for k, x in z.items():
        c.eq(f"Re {k}", df.loc[k, "Re"], x.real, tol=0)
        c.eq(f"Im {k}", df.loc[k, "Im"], x.imag, tol=0)
    c.eq("dict after", w.dict, z, tol=0, keys="strict")


def names(c):
    """Arbitrary names: each one keeps its own value; a later one of the same
    name wins, as in any dictionary."""
    ns = [c.name(f"n{i}") for i in range(3)]
    q = c.name("q")
    zs = [c.cplx(f"z{i}", B) for i in range(3)]
    d = {}
    for n, z in zip(ns, zs):
        d[n] = z
    w = WC()("E", "B", 1, WC().dict2values(d))
    got = w[q]
    want = 0
    for n, z in zip(ns, zs):
        if n == q:
            want = z
    c.eq("value by name", got, want, tol=0)
    got = w.dict
    c.ok("number of names", len(got) == len(d))
    for n, z in d.items():
        c.eq("value", got[n], z, tol=0)


def independence(c):
    """Two WC instances do not influence each other; instances are
    distinguishable."""
    a, b = c.cplx("a", B), c.cplx("b", B)
    va, vb = WC().dict2values({"x": a}), WC().dict2values({"x": b, "y": a})
    w1 = WC()("E", "B", 1, va)
    w1.dict
    w2 = WC()("E", "B", 1, vb)
    w2.dict
    c.eq("first", w1["x"], a, tol=0)
    c.eq("second", w2["x"], b, tol=0)
    c.eq("first has no y", w1["y"], 0)
    c.ok("hash constant", hash(w1) == hash(w1))
    c.ok("hash distinct", hash(w1) != hash(w2))
    c.ok("same instance equal", w1 == w1)
    c.ok("usable as key", {w1: 1, w2: 2}[w1] == 1)


def harnesses(tier):
    return [H("values", values, ne_flips=50, ne_depth=5), H("types", plain_types),
            H("forms", forms), H("frame", frame), H("names", names, ne_flips=50, ne_depth=5),
            H("independence", independence, ne_flips=20, ne_depth=4)]
