"""EFTs, bases, inheritance, registries and validation, for arbitrary names."""
import contextlib
from collections import OrderedDict

from vlib.h import *

BOUNDS = ("Up to 3 bases, 3 sectors, 3 coefficients per basis file and 3 "
          "translators/matchers at a time; all names arbitrary (every pattern "
          "of equalities between the names in one harness).")
ASSUMPTIONS = ["The LaTeX check of Basis.validate is replaced by a verdict "
               "that may be either; latex itself is not run."]


def cl():
    return M("wcxf.classes")


@contextlib.contextmanager
def registries():
    """Fresh registries; the old ones come back afterwards."""
    m = cl()
    old = {}
    for k in (m.EFT, m.Basis, m.Translator, m.Matcher):
        old[k] = k.__dict__.get("instances")
        k.instances = OrderedDict()
    try:
        yield m
    finally:
        for k, v in old.items():
            if v is None:
                with contextlib.suppress(AttributeError):
                    del k.instances
            else:
                k.instances = v


def inheritance(c):
    """A child basis has its parent's sectors, except for those it defines
    itself; the parent is left alone."""
    with registries() as m:
        P, C = c.name("parent"), c.name("child")
        c.assume(P != C)
        want_p = {}
        s = [c.name(f"s{i}") for i in range(3)]
        c.assume(s[0] != s[1])
        sec0 = {"w1": {"real": True}, "w2": None}
        sec1 = {"w3": {}}
        mine = {"w4": {}}
        p = m.Basis("E", P, {s[0]: sec0, s[1]: sec1})
        ch = m.Basis("E", C, {s[2]: mine}, parent=P)
        c.ok("child's own sector", ch.sectors[s[2]] == mine)
        for x, y in ((s[0], sec0), (s[1], sec1)):
            if x == s[2]:
                continue
            c.ok("inherited sector", x in ch.sectors and ch.sectors[x] == y)
        n = 2 if (s[2] == s[0] or s[2] == s[1]) else 3
        c.ok("no further sectors", len(ch.sectors) == n)
        c.ok("parent unchanged", len(p.sectors) == 2 and
             p.sectors[s[0]] == sec0 and p.sectors[s[1]] == sec1)
        c.ok("all coefficients", sorted(ch.all_wcs) == sorted(
            w for v in ch.sectors.values() for w in v))
        c.ok("parent's coefficients", sorted(p.all_wcs) == ["w1", "w2", "w3"])
        c.ok("again", ch.all_wcs == ch.all_wcs and
             sorted(p.all_wcs) == ["w1", "w2", "w3"])


def no_parent(c):
    """Unknown parent: ValueError; no parent: own sectors only."""
    with registries() as m:
        P, Q, E, F = (c.name(n) for n in ("parent", "asked", "eft", "eft2"))
        m.Basis(E, P, {"s": {"w": {}}})
        ok = True
        try:
            b = m.Basis(F, "child", {"t": {"v": {}}}, parent=Q)
        except ValueError:
            ok = False
        c.ok("parent found in the same EFT only", ok == (P == Q and E == F))
        if ok:
            c.ok("sectors", set(b.sectors) == {"s", "t"})
    with registries() as m:
        b = m.Basis("E", "B", {"t": {"v": {}}})
        c.ok("own", set(b.sectors) == {"t"} and b.all_wcs == ["v"])


def grand(c):
    """Inheritance over two generations."""
    with registries() as m:
        s = [c.name(f"s{i}") for i in range(3)]
        a = m.Basis("E", "a", {s[0]: {"x": {}}})
        b = m.Basis("E", "b", {s[1]: {"y": {}}}, parent="a")
        d = m.Basis("E", "d", {s[2]: {"z": {}}}, parent="b")
        for q, own in zip(s, ("x", "y", "z")):
            last = [o for r, o in zip(s, ("x", "y", "z")) if r == q][-1]
            c.ok("definition nearest to the child", list(d.sectors[q]) == [last])
        c.ok("grandparent", list(a.sectors[s[0]]) == ["x"] and
             len(a.sectors) == 1)
        c.ok("parent", list(b.sectors[s[1]]) == ["y"])


def lookup(c):
    """Registries give back what was registered under a name."""
    with registries() as m:
        e = [c.name(f"e{i}") for i in range(2)]
        b = [c.name(f"b{i}") for i in range(2)]
        q, r = c.name("eft asked"), c.name("basis asked")
        bs = [m.Basis(e[i], b[i], {}) for i in range(2)]
        want = None
        for i in range(2):
            if e[i] == q and b[i] == r:
                want = bs[i]
        try:
            got = m.Basis[q, r]
        except KeyError:
            got = None
        c.ok("basis by name", got is want)
        ef = m.EFT(q, {})
        kb = ef.known_bases
        names = [x for x in m.Basis.instances if x[0] == q]
        c.ok("known bases", len(kb) == len(names))
        for i in range(2):
            c.ok("known basis", (b[i] in kb) == any(
                e[j] == q and b[j] == b[i] for j in range(2)))
        c.ok("EFT by name", m.EFT[q] is ef)
        if got is not None:
            del m.Basis[q, r]
            c.raises("deleted", KeyError, lambda: m.Basis[q, r])
            c.ok("others stay", len(m.Basis.instances) == len(
                [1 for i in range(2) if not (e[i] == q and b[i] == r)
                 and not (i == 1 and e[0] == e[1] and b[0] == b[1])]))


def translators(c):
    """known_translators lists exactly the registered ones."""
    with registries() as m:
        n = 2
        e = [c.name(f"e{i}") for i in range(n)]
        f = [c.name(f"f{i}") for i in range(n)]
        t = [c.name(f"t{i}") for i in range(n)]
        for i in range(n):
            m.Translator(e[i], f[i], t[i], lambda *a, **k: {})
        E, B = c.name("E"), c.name("B")
        ba = m.Basis(E, B, {})
        kt = ba.known_translators
        for i in range(n):
            key = (e[i], f[i], t[i])
            c.ok("from", (key in kt["from"]) == (e[i] == E and f[i] == B))
            c.ok("to", (key in kt["to"]) == (e[i] == E and t[i] == B))
        c.ok("nothing else", all(k in m.Translator.instances for k in
                                 kt["from"] + kt["to"]))
        ef = m.EFT(E, {})
        for i in range(n):
            c.ok("EFT's", ((e[i], f[i], t[i]) in ef.known_translators) ==
                 (e[i] == E))


def tex(c):
    def f(s, delete=True):
        return {"success": True} if c.choices_tex else {"success": False,
                                                        "log": "x"}
    return f


def validate_basis(c):
    with registries() as m:
        E, E2 = c.name("eft"), c.name("other eft")
        S = [c.name("S0"), c.name("S1")]
        T = [c.name("T0"), c.name("T1")]
        W = [c.name("w0"), c.name("w1")]
        c.assume(T[0] != T[1])
        good = c.flag("tex fine")
        m.EFT(E, {S[0]: {}, S[1]: {}})
        b = m.Basis(E2, "B", {T[0]: {W[0]: {"tex": "x"}}, T[1]: {W[1]: None}})
        m._testtex, keep = (lambda s, delete=True: {
            "success": good, "log": ""}), m._testtex
        try:
            b.validate()
            ok = True
        except ValueError:
            ok = False
        finally:
            m._testtex = keep
        want = E == E2 and (T[0] == S[0] or T[0] == S[1]) and \
            (T[1] == S[0] or T[1] == S[1]) and W[0] != W[1] and good
        c.ok("valid exactly when EFT and sectors exist, no coefficient is "
             "defined twice and LaTeX compiles", ok == bool(want))


def validate_wc(c):
    with registries() as m:
        E, E2, E3 = c.name("eft"), c.name("eft of basis"), c.name("eft of wc")
        B, B2 = c.name("basis"), c.name("basis of wc")
        m.EFT(E, {"s": {}})
        m.Basis(E2, B, {"s": {"w1": {}}, "t": {"w2": {}}})
        w = m.WC(E3, B2, 1, {"w2": c.real("x"), "w1": 0})
        try:
            w.validate()
            ok = True
        except ValueError:
            ok = False
        c.ok("EFT and basis known", ok == (E == E3 and E2 == E3 and B == B2))


def validate_keys(c):
    with registries() as m:
        k = [c.name(f"k{i}") for i in range(2)]
        w = [c.name(f"w{i}") for i in range(2)]
        m.EFT("E", {})
        m.Basis("E", "B", {"s": {k[0]: {}}, "t": {k[1]: None}})
        wc = m.WC("E", "B", 1, {w[0]: c.real("x"), w[1]: {"Re": c.real("y")}})
        try:
            wc.validate()
            ok = True
        except AssertionError:
            ok = False
        c.ok("valid exactly when every coefficient is in the basis", ok == (
            all(x == k[0] or x == k[1] for x in w)))


def markdown(c):
    """Every sector and coefficient is described with its type."""
    with registries() as m:
        d = {"s": {"w1": {"real": True, "tex": "a"}, "w2": {"real": False},
                   "w3": None, "w4": {}}, "t": {}}
        t = str(m.Basis("E", "B", d)).splitlines()
        for k, ty in (("w1", "R"), ("w2", "C"), ("w3", "C"), ("w4", "C")):
            l = [x for x in t if f"`{k}`" in x]
            c.ok(f"row {k}", len(l) == 1 and l[0].split("|")[-2].strip() == ty)


def shipped(c):
    """The bases that ship with the package, as used by its own code: every
    translator and matcher connects registered bases."""
    m = cl()
    for (e, a, b) in m.Translator.instances:
        for x in (a, b):
            c.ok(f"{e} {x}", (e, x) in m.Basis.instances)
        c.ok("distinct", a != b)
    for (e, a, f, b) in m.Matcher.instances:
        c.ok(f"{e} {a}", (e, a) in m.Basis.instances)
        c.ok(f"{f} {b}", (f, b) in m.Basis.instances)


def harnesses(tier):
    k = dict(max_paths=5000)
    return [H("inheritance", inheritance, **k), H("parent", no_parent, **k),
            H("two generations", grand, **k), H("lookup", lookup, **k),
            H("known translators", translators, **k),
            H("validate basis", validate_basis, **k),
            H("validate wc", validate_wc, **k),
            H("validate keys", validate_keys, **k), H("markdown", markdown)]
