"""Writing a WC object to JSON or YAML and reading it back."""
import io

from vlib import codec
from vlib.h import *

BOUNDS = ("Up to 4 coefficients, names including non-identifier characters, "
          "values any real or complex number up to 1e3, scale any positive "
          "number; json and yaml; string and stream; default and non-default "
          "formatting arguments.")
ASSUMPTIONS = ["json and yaml treat every finite non-zero double alike "
               "(symbolic numbers travel through them as tokens)."]
NAMES = ["C_1", "b->s::c7", "phiBox", "lequ3_1123"]


def roundtrip(c):
    m = M("wcxf.classes")
    z = {k: (c.real(k, -1e3, 1e3) if i == 2 else c.cplx(k, 1e3))
         for i, k in enumerate(NAMES)}
    mu = c.real("mu", 1e-3, 1e17)
    extra = c.choice("extra", [{}, {"metadata": {"generator": "me", "n": 2}}])
    w = m.WC("SMEFT", "Warsaw", mu, m.WC.dict2values(z), **extra)
    used = c.flag("values accessed before")
    if used:
        w.dict
        w.df
    fmt = c.choice("fmt", ["json", "yaml", "JSON", "YAML", None])
    kw = c.choice("kw", [{}, {"indent": 4}, {"default_flow_style": True}])
    if "indent" in kw and (fmt or "json").lower() == "yaml":
        kw = {}
    if "default_flow_style" in kw and (fmt or "json").lower() == "json":
        kw = {}
    kw = dict(kw)
    if fmt:
        kw["fmt"] = fmt
    back = c.choice("via", ["string", "stream", "written stream"])
    if back == "written stream":
        st = io.StringIO()
        w.dump(st, **kw)
        st.seek(0)
        r = m.WC.load(st)
    else:
        t = w.dump(**kw)
        c.ok("text", isinstance(t, str))
        c.ok("format", t.lstrip().startswith("{") or
             (fmt or "json").lower() == "yaml")
        r = m.WC.load(t if back == "string" else io.StringIO(t))
    c.ok("eft", r.eft == "SMEFT")
    c.ok("basis", r.basis == "Warsaw")
    c.eq("scale", r.scale, mu, tol=0)
    c.eq("values", r.dict, z, tol=0, keys="strict")
    c.ok("metadata", getattr(r, "metadata", None) == extra.get("metadata"))
    c.ok("nothing else", {k for k in vars(r) if k[0] != "_"} ==
         {"eft", "basis", "scale", "values"} | set(extra))
    c.eq("original", w.dict, z, tol=0, keys="strict")
    c.witness("values", r.dict)


def bad_format(c):
    m = M("wcxf.classes")
    w = m.WC("SMEFT", "Warsaw", c.real("mu", 1, 2), {"phi": c.real("x")})
    for f in ("xml", "", "yml"):
        c.raises(f"format {f!r}", ValueError, lambda: w.dump(fmt=f))


def basis_files(c):
    """EFT and Basis files."""
    from .W02 import registries
    with registries() as m:
        fmt = c.choice("fmt", ["json", "yaml"])
        e = m.EFT("E1", {"s": {}, "t": {}})
        b = m.Basis("E1", "B1", {"s": {"w1": {"real": True, "tex": "x"},
                                       "w2": None}, "t": {}})
        te, tb = e.dump(fmt=fmt), b.dump(fmt=fmt)
        m.EFT.clear_all()
        m.Basis.clear_all()
        e2, b2 = m.EFT.load(te), m.Basis.load(tb)
        c.ok("eft", e2.eft == "E1" and dict(e2.sectors) == {"s": {}, "t": {}})
        c.ok("registered", m.EFT["E1"] is e2 and m.Basis["E1", "B1"] is b2)
        c.ok("basis", b2.eft == "E1" and b2.basis == "B1" and
             {k: dict(v) for k, v in b2.sectors.items()} ==
             {k: dict(v) for k, v in b.sectors.items()})
        c.ok("coefficients", b2.all_wcs == ["w1", "w2"])


def convert(c):
    """YAML <-> JSON conversion keeps the content."""
    m = M("wcxf.classes")
    y = M("wcxf.converters.yamljson")
    z = {k: c.cplx(k, 1e3) for k in NAMES[:3]}
    mu = c.real("mu", 1e-3, 1e17)
    w = m.WC("SMEFT", "Warsaw", mu, m.WC.dict2values(z))
    src = c.choice("from", ["json", "yaml"])
    i, o = io.StringIO(w.dump(fmt=src)), io.StringIO()
    r = (y.convert_yaml if src == "json" else y.convert_json)(i, o)
    c.ok("status", not r)
    t = o.getvalue()
    c.ok("format", t.lstrip().startswith("{") == (src == "yaml"))
    v = m.WC.load(t)
    c.eq("values", v.dict, z, tol=0, keys="strict")
    c.eq("scale", v.scale, mu, tol=0)
    c.ok("eft, basis", (v.eft, v.basis) == ("SMEFT", "Warsaw"))
    o2 = io.StringIO()
    (y.convert_json if src == "json" else y.convert_yaml)(io.StringIO(t), o2)
    v = m.WC.load(o2.getvalue())
    c.eq("and back", v.dict, z, tol=0, keys="strict")


def wilson_object(c):
    """A Wilson instance made from a file or a WC object has its values."""
    W = M("classes").Wilson
    m = M("wcxf.classes")
    z = {"phi": c.real("phi", -1e3, 1e3), "uG_12": c.cplx("uG_12", 1e3)}
    mu = c.real("mu", 1e-3, 1e17)
    w = m.WC("SMEFT", "Warsaw", mu, m.WC.dict2values(z))
    how = c.choice("how", ["dict", "from_wc", "json", "yaml"])
    if how == "dict":
        x = W(z, mu, "SMEFT", "Warsaw")
    elif how == "from_wc":
        x = W.from_wc(w)
    else:
        x = W.load_wc(io.StringIO(w.dump(fmt=how)))
    c.eq("values", x.wc.dict, z, tol=0, keys="strict")
    c.eq("scale", x.wc.scale, mu, tol=0)
    c.ok("eft, basis", (x.wc.eft, x.wc.basis) == ("SMEFT", "Warsaw"))
    c.raises("unknown coefficient", AssertionError,
             lambda: W({"phi": 1, "nope": z["phi"]}, mu, "SMEFT", "Warsaw"))
    c.raises("unknown basis", ValueError,
             lambda: W({"phi": 1}, mu, "SMEFT", "nope"))
    c.raises("unknown EFT", ValueError,
             lambda: W({"phi": 1}, mu, "nope", "Warsaw"))


def harnesses(tier):
    st = dict(stubs=codec.stubs("wcxf.classes", "wcxf.converters.yamljson"),
              ne_flips=12 if tier == "quick" else 300, ne_depth=3,
              max_paths=5000)
    return [H("WC round trip", roundtrip, cost=5, **st),
            H("format", bad_format, **st),
            H("EFT and basis files", basis_files, **st),
            H("convert", convert, **st), H("Wilson", wilson_object, **st)]
