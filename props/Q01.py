"""Running QCD coupling and quark masses."""
import itertools

from vlib import sym
from vlib.h import *
from vlib.sym import Sym

BOUNDS = ("scale, reference mass, alpha_s(MZ) any positive (or, where stated, "
          "any) numbers; flavour number 3..6 and invalid ones; loop 1..5; "
          "sequences of up to 3 calls sharing the caches.")
ASSUMPTIONS = [
    "The compiled rundec library is an uninterpreted function of its arguments "
    "and of the threshold settings at the time of the call; that it solves the "
    "RG equations is not examined."]


def q():
    return M("util.qcd")


class FakeTh:
    Mth = muth = nf = None


class FakeCRunDec:
    calls = None

    def __init__(self):
        self.nfMmu = FakeTh()

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *a: uf(name, a)


def flat(a):
    out = []
    for x in a:
        if isinstance(x, FakeTh):
            out += ["th", x.Mth, x.muth, x.nf]
        else:
            out.append(x)
    return tuple(out)


def conc_uf(name, a):
    """A deterministic positive number for a call with these arguments."""
    import math
    t = sum(map(ord, name)) * 0.37
    for i, x in enumerate(a):
        if isinstance(x, str):
            continue
        t += (i + 1.7) * math.sin(complex(x if x is not None else -7).real
                                  * (1 + 0.13 * i) + i)
    return 0.3 + 0.2 * math.sin(t)


def uf(name, a):
    a = flat(a)
    a = tuple(int(x) if isinstance(x, (int, float)) and x == int(x) else x
              for x in a)
    if not any(type(x) is Sym for x in a):
        return conc_uf(name, a)
    return sym.atom("rundec." + name, a, 0.001, 1e3,
                    lambda *v: conc_uf(name, v), positive=True)


class FakeRundec:
    CRunDec = FakeCRunDec


def stubs(c):
    return {(q(), "rundec"): FakeRundec}


MZ = 91.1876


# ------------------------------------------------ what each function stands for
def th(m, nf):
    t = FakeTh()
    t.Mth = t.muth = m
    t.nf = nf
    return t


def spec_as(mu, f, a, loop):
    if f == 5:
        return a if mu == MZ else uf("AlphasExact", (a, MZ, mu, 5, loop))
    if f == 6:
        return uf("AlL2AlH", (a, MZ, th(170, 6), mu, loop))
    if f == 4:
        return uf("AlH2AlL", (a, MZ, th(4.8, 5), mu, loop))
    asmc = uf("AlH2AlL", (a, MZ, th(4.8, 5), 1.3, loop))
    return uf("AlH2AlL", (asmc, 1.3, th(1.3, 4), mu, loop))


def spec_mb(m, mu, f, a, loop):
    if f == 5 and mu == m:
        return m
    as0 = spec_as(m, 5, a, loop)
    if f == 5:
        return uf("mMS2mMS", (m, as0, spec_as(mu, 5, a, loop), 5, loop))
    if f == 4:
        return uf("mH2mL", (m, as0, m, th(4.8, 5), mu, loop))
    if f == 6:
        return uf("mL2mH", (m, as0, m, th(170, 6), mu, loop))
    mc = 1.3
    mbmc = uf("mH2mL", (m, as0, m, th(4.8, 5), mc, loop))
    return uf("mH2mL", (mbmc, spec_as(mc, 4, a, loop), mc, th(mc, 4), mu,
                        loop))


def spec_mc(m, mu, f, a, loop):
    if f == 4 and mu == m:
        return m
    as0 = spec_as(m, 4, a, loop)
    if f == 4:
        return uf("mMS2mMS", (m, as0, spec_as(mu, 4, a, loop), 4, loop))
    if f == 3:
        return uf("mH2mL", (m, as0, m, th(1.3, 4), mu, loop))
    return uf("mL2mH", (m, as0, m, th(4.8, 5), mu, loop))


def spec_ms(m, mu, f, a, loop):
    if f == 3 and mu == 2:
        return m
    as0 = spec_as(2, 3, a, loop)
    if f == 3:
        return uf("mMS2mMS", (m, as0, spec_as(mu, 3, a, loop), 3, loop))
    if f == 4:
        return uf("mL2mH", (m, as0, 2, th(1.3, 4), mu, loop))
    msmc = uf("mL2mH", (m, as0, 2, th(1.3, 4), 1.3, loop))
    return uf("mL2mH", (msmc, spec_as(1.3, 4, a, loop), 1.3, th(4.8, 5), mu,
                        loop))


FUN = {"alpha_s": (3, 4, 5, 6), "m_b": (3, 4, 5, 6), "m_c": (3, 4, 5),
       "m_s": (3, 4, 5)}


def alphas_rule(c):
    f = c.choice("f", [3, 4, 5, 6])
    loop = c.choice("loop", [1, 2, 3, 4, 5])
    a = c.real("alphasMZ", 0.05, 0.3)
    mu = c.real("mu", 0.5, 1e4)
    r = q().alpha_s(mu, f, alphasMZ=a, loop=loop)
    c.eq("alpha_s", r, spec_as(mu, f, a, loop))
    c.ok("positive", r > 0)
    r2 = q().alpha_s(mu, f, a, loop)
    c.eq("again", r2, r)
    c.witness("alpha_s", r)


def mass_rule(name, spec):
    def f(c):
        fl = c.choice("f", FUN[name])
        loop = c.choice("loop", [1, 2, 3, 4, 5])
        a = c.real("alphasMZ", 0.05, 0.3)
        mu = c.real("mu", 0.5, 1e4)
        m = c.real("m", 0.01, 10.0)
        g = getattr(q(), name)
        r = g(m, mu, fl, alphasMZ=a, loop=loop)
        c.eq(name, r, spec(m, mu, fl, a, loop))
        c.witness(name, r)
    return H("rule " + name, f, stubs=stubs, ne_flips=60, ne_depth=3,
             max_paths=2000)


def reference(c):
    """At the scale where a quantity is given, it is what was given."""
    a, m = c.real("a", 0.05, 0.3), c.real("m", 0.01, 10.0)
    loop = c.choice("loop", [1, 2, 3, 4, 5])
    k = dict(alphasMZ=a, loop=loop)
    c.eq("alpha_s(MZ)", q().alpha_s(MZ, 5, **k), a, tol=0)
    c.eq("m_b(m_b)", q().m_b(m, m, 5, **k), m, tol=0)
    c.eq("m_c(m_c)", q().m_c(m, m, 4, **k), m, tol=0)
    c.eq("m_s(2 GeV)", q().m_s(m, 2, 3, **k), m, tol=0)
    c.eq("m_s(2.0 GeV)", q().m_s(m, 2.0, 3, **k), m, tol=0)
    b = c.real("b", 0.05, 0.3)
    c.eq("another alpha_s(MZ)", q().alpha_s(MZ, 5, b, loop), b, tol=0)
    c.eq("and the first one", q().alpha_s(MZ, 5, a, loop), a, tol=0)


def invalid(c):
    """Non-positive scales and flavour numbers without a rule: ValueError."""
    bad = c.choice("bad", ["scale", "flavour", "both"])
    mu = c.real("mu", 0.5, 1e4) if bad == "flavour" else \
        c.real("mu", -1e4, 0.0)
    m = c.real("m", 0.01, 10.0)
    a = c.real("alphasMZ", 0.05, 0.3)
    for n, fs in FUN.items():
        g = getattr(q(), n)
        k = fs if bad == "scale" else tuple(
            x for x in (-1, 0, 1, 2, 3, 4, 5, 6, 7, 8) if x not in fs)
        for f in k:
            args = (mu, f) if n == "alpha_s" else (m, mu, f)
            c.raises(f"{n} f={f}", ValueError, lambda: g(*args, alphasMZ=a))
    if bad == "flavour":
        # at the reference point too
        for f in (-1, 0, 2, 7):
            c.raises(f"alpha_s(MZ) f={f}", ValueError,
                     lambda: q().alpha_s(MZ, f, alphasMZ=a))
            c.raises(f"m_b(m_b) f={f}", ValueError,
                     lambda: q().m_b(m, m, f, alphasMZ=a))
            c.raises(f"m_c(m_c) f={f}", ValueError,
                     lambda: q().m_c(m, m, f, alphasMZ=a))
            c.raises(f"m_s(2) f={f}", ValueError,
                     lambda: q().m_s(m, 2, f, alphasMZ=a))


def failing(c):
    """When the running breaks down (rundec returns zero), ValueError and not
    a vanishing coupling."""
    f = c.choice("f", [3, 4, 5, 6])
    mu = c.real("mu", 0.01, 10.0)
    c.raises("zero", ValueError, lambda: q().alpha_s(mu, f))


class ZeroRunDec(FakeCRunDec):
    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *a: 0


class FakeZero:
    CRunDec = ZeroRunDec


def history(name):
    """Earlier calls do not change later answers."""
    def f(c):
        g = getattr(q(), name)
        spec = {"alpha_s": lambda m, *x: spec_as(*x), "m_b": spec_mb,
                "m_c": spec_mc, "m_s": spec_ms}[name]
        fl = [c.choice("f0", FUN[name][-3:])]
        lp = [c.choice("loop", [3, 4])]
        aa, mm, m0 = [c.real("a0", 0.05, 0.3)], [c.real("mu0", 0.5, 1e4)], \
            [c.real("m0", 0.01, 10.0)]
        # the second call differs from the first in any subset of arguments
        fl.append(c.choice("f1", FUN[name][-2:]))
        lp.append(3)
        aa.append(c.real("a1", 0.05, 0.3) if c.flag("new alphasMZ") else aa[0])
        mm.append(c.real("mu1", 0.5, 1e4) if c.flag("new scale") else mm[0])
        m0.append(c.real("m1", 0.01, 10.0) if name != "alpha_s" and
                  c.flag("new mass") else m0[0])
        for i in (0, 1, 0):
            args = (mm[i], fl[i]) if name == "alpha_s" else \
                (m0[i], mm[i], fl[i])
            r = g(*args, alphasMZ=aa[i], loop=lp[i])
            c.eq(f"call {i}", r, spec(m0[i], mm[i], fl[i], aa[i], lp[i]))
    return H("history " + name, f, stubs=stubs, ne_flips=40, ne_depth=2,
             max_paths=3000)


def defaults(c):
    mu, m = c.real("mu", 0.5, 1e4), c.real("m", 0.01, 10.0)
    for f in (3, 4, 5, 6):
        c.eq(f"alpha_s {f}", q().alpha_s(mu, f), spec_as(mu, f, 0.1185, 3))
        c.eq(f"m_b {f}", q().m_b(m, mu, f), spec_mb(m, mu, f, 0.1185, 3))
        if f < 6:
            c.eq(f"m_c {f}", q().m_c(m, mu, f), spec_mc(m, mu, f, 0.1185, 3))
            c.eq(f"m_s {f}", q().m_s(m, mu, f), spec_ms(m, mu, f, 0.1185, 3))


def harnesses(tier):
    k = dict(stubs=stubs, ne_flips=60, ne_depth=3, max_paths=2000)
    return [H("rule alpha_s", alphas_rule, **k), mass_rule("m_b", spec_mb),
            mass_rule("m_c", spec_mc), mass_rule("m_s", spec_ms),
            H("reference", reference, **k), H("invalid", invalid, **k),
            H("defaults", defaults, **k),
            H("failing", failing, stubs=lambda c: {(q(), "rundec"): FakeZero},
              ne_flips=10)] + [history(n) for n in FUN]
