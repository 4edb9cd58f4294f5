"""WET bases: different routes agree; sectors; linearity."""
from vlib.h import *
from vlib.sym import Sym

from . import tw

BOUNDS = ("All coefficients of the basis symbolic at once (modulus up to 1), "
          "scale and all input parameters symbolic; every single sector and "
          "three combinations of sectors.")
ASSUMPTIONS = ["rundec and the CKM parametrisation are uninterpreted."]


def same(c, got, want, what=""):
    """Equal, where a missing coefficient counts as zero."""
    for k in sorted(set(got) | set(want)):
        c.eq(what + k, got.get(k, 0), want.get(k, 0))


def routes(a, b, via, tier):
    def f(c):
        w = coeffs(c, realflags("WET", a))
        p = tw.parameters(c, c.choice("parameters", ["all", None]))
        mu = tw.scale(c)
        d = tw.tr("WET", a, b, dict(w), mu, p)
        e = tw.tr("WET", via, b, tw.tr("WET", a, via, dict(w), mu, p), mu, p)
        same(c, d, e)
        c.witness("d", d)
    return H(f"{a} -> {b} agrees with {a} -> {via} -> {b}", f, stubs=tw.stubs,
             ne_flips=0 if tier == "quick" else 2, cost=2)


def linear(eft, a, b):
    def f(c):
        fl = realflags(eft, a)
        w = coeffs(c, fl)
        p = tw.parameters(c, ["GF", "alpha_s", "Vus", "m_b", "m_s"])
        mu = tw.scale(c)
        names = sorted(fl)
        full = tw.tr(eft, a, b, {k: w[k] for k in names}, mu, p)
        tot = {}
        for g in chunks(names, 7):
            for k, v in tw.tr(eft, a, b, {k: w[k] for k in g}, mu, p).items():
                tot[k] = tot.get(k, 0) + v
        same(c, tot, full, "sum of the parts ")
        same(c, tw.tr(eft, a, b, {}, mu, p), {}, "empty ")
        same(c, tw.tr(eft, a, b, {k: 0 for k in names}, mu, p), {}, "zero ")
        t = c.real("t")
        same(c, tw.tr(eft, a, b, {k: t * w[k] for k in names}, mu, p),
             {k: t * v for k, v in full.items()}, "scaled ")
        c.witness("full", full)
    return H(f"{eft}: linear {a} -> {b}", f, stubs=tw.stubs, ne_flips=0)


def smaller(eft, a, b):
    """The translators of the theories with fewer quarks give what that of
    the five-flavour theory gives."""
    def f(c):
        w = coeffs(c, realflags(eft, a))
        p = tw.parameters(c, c.choice("parameters", ["all", None]))
        mu = tw.scale(c)
        same(c, tw.tr(eft, a, b, dict(w), mu, p),
             tw.tr("WET", a, b, dict(w), mu, p))
    return H(f"{eft}: {a} -> {b} as in WET", f, stubs=tw.stubs, ne_flips=0)


COMBI = [("sb", "sbsb", "cu", "mue"), ("dF=0", "ffnunu", "sd", "cbmunu"),
         ("sdemu", "dbdb", "nunumue", "cucu")]


def sectors(eft, a, b, part, n):
    """Restricted to a sector, the translation gives for this sector what it
    gives without restriction, from the coefficients of the sector only."""
    def f(c):
        A, B = basis(eft, a), basis(eft, b)
        w = coeffs(c, realflags(eft, a))
        p = tw.parameters(c, "all")
        mu = tw.scale(c)
        full = tw.tr(eft, a, b, dict(w), mu, p)
        both = [s for s in B.sectors if s in A.sectors]
        todo = [(s,) for s in both] + [
            tuple(s for s in x if s in both) for x in COMBI]
        for S in todo[part::n]:
            if not S:
                continue
            inp = {k: v for k, v in w.items()
                   if any(k in A.sectors[s] for s in S)}
            for src, nm in ((inp, ""), (w, " (all given)")):
                if nm and len(S) == 1 and len(B.sectors[S[0]]) > 30:
                    continue
                x = tw.tr(eft, a, b, dict(src), mu, p, S)
                want = {k: full[k] for s in S for k in B.sectors[s]
                        if k in full}
                for k in want:
                    c.eq(f"{S}: {k}{nm}", x.get(k, 0), want[k])
                if not nm:
                    for k in x:
                        if k not in want:
                            c.eq(f"{S}: other {k}", x[k], 0)
    return H(f"{eft}: sectors {a} -> {b} {part + 1}/{n}", f, stubs=tw.stubs,
             ne_flips=0, cost=3)


def wet_pairs():
    return [("Bern", "flavio"), ("flavio", "Bern"), ("JMS", "Bern"),
            ("Bern", "JMS"), ("JMS", "flavio"), ("flavio", "JMS")]


def harnesses(tier):
    out = [routes("Bern", "flavio", "JMS", tier),
           routes("flavio", "Bern", "JMS", tier),
           routes("FlavorKit", "flavio", "JMS", tier)]
    more = [("JMS", "FlavorKit"), ("FlavorKit", "JMS"),
            ("FlavorKit", "flavio")]
    for a, b in wet_pairs() + more:
        out.append(linear("WET", a, b))
        for part in range(2):
            out.append(sectors("WET", a, b, part, 2))
    for eft in ("WET-4", "WET-3"):
        for a, b in wet_pairs():
            out.append(smaller(eft, a, b))
    return out
