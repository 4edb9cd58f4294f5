"""Matching between the WET variants at the quark thresholds."""
from vlib.h import *

from . import jms

BOUNDS = ("All coefficients of the basis symbolic at once, or any one of "
          "four subsets; any scale; all parameters None, empty or given.")
ASSUMPTIONS = []
STEPS = [("WET", "WET-4"), ("WET-4", "WET-3"), ("WET-3", "WET-2")]
# quark integrated out at each step
HEAVY = {"WET-4": ("d", 2), "WET-3": ("u", 1), "WET-2": ("d", 1)}


def subset(c, fl, every=True):
    L = list(fl)
    return {"all": L, "one": L[7:8], "few": L[::37], "none": [],
            "tail": L[-40:]}[c.choice(
                "given", ["all"] * every + ["few", "one", "none", "tail"])]


def step(a, b, basis):
    """Common coefficients are unchanged, nothing else is returned."""
    def f(c):
        m = M("wcxf.classes")
        fl, fb = realflags(a, basis), realflags(b, basis)
        L = subset(c, fl)
        C = coeffs(c, sub(fl, L))
        extra = c.flag("coefficient of another basis")
        if extra:
            C["notthere"] = c.cplx("extra")
        inp = dict(C)
        p = c.choice("parameters", [None, {}, {"m_b": 4.2, "Vcb": .041}])
        mu = c.real("mu", 1., 5.)
        got = m.Matcher[a, basis, b, basis].function(C, mu, p)
        c.eq("input", C, inp, keys="strict")
        want = {k: inp[k] for k in L if k in fb}
        c.ok("coefficients returned", set(got) == set(want))
        c.eq("", got, want, tol=0)
        if len(L) > 100:
            c.witness("got", got)
    return H(f"{basis}: {a} -> {b}", f)


def objects(a, b, basis):
    """Matching WC objects and Wilson coefficient sets."""
    def f(c):
        m = M("wcxf.classes")
        fl, fb = realflags(a, basis), realflags(b, basis)
        C = coeffs(c, sub(fl, subset(c, fl, False)))
        mu = c.real("mu", 1., 5.)
        w = m.WC(a, basis, mu, m.WC.dict2values(C))
        p = c.choice("parameters", [None, {"m_b": 4.2}])
        r = w.match(b, basis, parameters=p) if p else w.match(b, basis)
        c.ok("eft", r.eft == b and r.basis == basis)
        c.eq("scale", r.scale, mu, tol=0)
        c.eq("values", r.dict, {k: v for k, v in C.items() if k in fb}, tol=0)
        c.ok("names", set(r.dict) <= set(C) & set(fb))
        c.ok("source", w.eft == a and w.basis == basis)
        c.eq("source values", w.dict, C, tol=0, keys="strict")
        r.validate()
    return H(f"{basis}: {a} -> {b}, objects", f)


def content(c):
    """A coefficient survives a threshold iff it does not contain the quark
    integrated out; those of the lower theory all come from the higher."""
    for a, b in STEPS:
        f, i = HEAVY[b]
        gone = {k for k in realflags(a, "JMS") if "_" in k and any(
            x[0] == f and j == i and x[:2] != "nu"
            for x, j in zip(jms.FIELDS[k.split("_")[0]], idx(k)))}
        C = coeffs(c, realflags(a, "JMS"), prefix=a)
        got = M("wcxf.classes").Matcher[a, "JMS", b, "JMS"].function(
            dict(C), 2., None)
        for k in C:
            c.eq(f"{b} {k}", got.get(k, 0), 0 if k in gone else C[k], tol=0)
        c.ok(f"{b} all", set(got) == set(realflags(b, "JMS")))
        for basis in ("flavio", "Bern"):
            if (a, basis, b, basis) in M("wcxf.classes").Matcher.instances:
                c.ok(f"{b} {basis}", set(realflags(b, basis)) <=
                     set(realflags(a, basis)))


def chain(basis):
    """Several thresholds: the end result depends on the coefficients of the
    last theory only."""
    def f(c):
        m = M("wcxf.classes")
        fl = realflags("WET", basis)
        C = coeffs(c, fl)
        r = dict(C)
        last = "WET"
        for a, b in STEPS:
            if (a, basis, b, basis) in m.Matcher.instances:
                r = m.Matcher[a, basis, b, basis].function(r, 2., None)
                last = b
        c.ok("steps", last != "WET")
        want = {k: C[k] for k in realflags(last, basis)}
        c.eq("", r, want, tol=0, keys="strict")
    return H(f"{basis}: chain", f)


def harnesses(tier):
    out = [H("threshold content", content)]
    for basis in ("flavio", "Bern", "JMS"):
        out.append(chain(basis))
        for a, b in STEPS:
            if b != "WET-2" or basis == "JMS":
                out += [step(a, b, basis), objects(a, b, basis)]
    return out
