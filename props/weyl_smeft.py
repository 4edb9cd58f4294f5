"""One-loop evolution of four-fermion and current operators of the SMEFT, as in
weyl.py: gauge boson exchange between two fields or two conjugate fields gives
T_a.T_b (2 - 4 X), X exchanging the spins; closing a field with its conjugate
gives the gauge current, for every group. Yukawa couplings renormalise the
fields (1/2 for every leg), exchange a Higgs field between two of them, close
two fields to a Higgs field that becomes two others by its equation of motion,
or a field with a conjugate one to the current of the Higgs field (and back)."""
from fractions import Fraction as F
from functools import lru_cache
from itertools import combinations, product

import numpy as np

from vlib.h import idx

from .weyl import add, gadd, gsort, scalar, vkey

# left-handed fields: (hypercharge, colours, isospin components); right-handed
# fields are described by their conjugates
FIELD = {("q", "L"): (F(1, 6), 3, 2), ("l", "L"): (F(-1, 2), 1, 2),
         ("u", "R"): (F(-2, 3), 3, 1), ("d", "R"): (F(1, 3), 3, 1),
         ("e", "R"): (F(1), 1, 1)}
HIGGS = F(1, 2)
LOOP = {"fermion": F(4, 3), "scalar": F(2, 3)}
GROUPS = {"gp": None, "g": 4, "gs": 3}      # place of the index in a factor
# factor: (species, chirality, generation, colour, isospin, bar)

# name -> fields, Dirac structure, gauge structure
OPS = {
    "ll": ("llll", "V", ""), "qq1": ("qqqq", "V", ""),
    "qq3": ("qqqq", "V", "t"), "lq1": ("llqq", "V", ""),
    "lq3": ("llqq", "V", "t"), "ee": ("eeee", "V", ""),
    "uu": ("uuuu", "V", ""), "dd": ("dddd", "V", ""),
    "eu": ("eeuu", "V", ""), "ed": ("eedd", "V", ""),
    "ud1": ("uudd", "V", ""), "ud8": ("uudd", "V", "8"),
    "le": ("llee", "V", ""), "lu": ("lluu", "V", ""), "ld": ("lldd", "V", ""),
    "qe": ("qqee", "V", ""), "qu1": ("qquu", "V", ""),
    "qu8": ("qquu", "V", "8"), "qd1": ("qqdd", "V", ""),
    "qd8": ("qqdd", "V", "8"), "ledq": ("ledq", "Sdelta", ""),
    "quqd1": ("quqd", "Seps", ""), "quqd8": ("quqd", "Seps", "8"),
    "lequ1": ("lequ", "Seps", ""), "lequ3": ("lequ", "Teps", ""),
    "duql": ("duql", "B", ""), "qque": ("qque", "B", ""),
    "qqql": ("qqql", "B", ""), "duue": ("duue", "B", ""),
}
CURRENTS = {"phil1": ("l", ""), "phil3": ("l", "t"), "phie": ("e", ""),
            "phiq1": ("q", ""), "phiq3": ("q", "t"), "phiu": ("u", ""),
            "phid": ("d", ""), "phiud": ("u", "ud")}
DIPOLES = {f + X: (G, g) for f, G in (("u", "Gu"), ("d", "Gd"), ("e", "Ge"))
           for X, g in (("B", "gp"), ("W", "g"), ("G", "gs")) if f + X != "eG"}
CUBIC = {"uphi": "u", "dphi": "d", "ephi": "e"}
YUKAWA = {"Gu": "u", "Gd": "d", "Ge": "e"}
CH = {"q": "L", "l": "L", "u": "R", "d": "R", "e": "R"}


def col(s):
    return range(3) if s in "qud" else (0,)


def iso(s):
    return range(2) if s in "ql" else (0,)


def su(n, a, b, c, d):
    """sum_A T^A_(ab) T^A_(cd)"""
    return F(a == d and b == c, 2) - F(a == b and c == d, 2 * n)


def structures(fs, gauge):
    """Colours and isospins of four fields in two bilinears, and the factor:
    contracted bilinears, tau tau or T T."""
    s = fs
    for c in product(*[col(x) for x in s]):
        x = F(1)
        if gauge == "8":
            x = su(3, c[0], c[1], c[2], c[3])
        else:
            for i, j in ((0, 1), (2, 3)):
                if c[i] != c[j]:
                    x = 0
        if not x:
            continue
        for i in product(*[iso(y) for y in s]):
            y = F(1)
            if gauge == "t":
                y = 4 * su(2, i[0], i[1], i[2], i[3])
            elif len(set(s)) <= 2:
                for m, n in ((0, 1), (2, 3)):
                    if i[m] != i[n]:
                        y = 0
            if y:
                yield c, i, x * y


@lru_cache(maxsize=None)
def operator(name, gen):
    d = {}
    if name in CUBIC or name in YUKAWA:
        s = (CUBIC.get(name) or YUKAWA[name])
        left = "l" if s == "e" else "q"
        d = {}
        for c, i in product(col(left), range(2)):
            a, b = (left, "L", gen[0], c, i, True), (s, "R", gen[1], c, 0, True)
            h, x = ((1 - i, True), 1 - 2 * i) if s == "u" else ((i, False), 1)
            if name in YUKAWA:
                # L = - G
                add_higgs(d, a, b, [h], -x)
            else:
                for j in range(2):
                    add_higgs(d, a, b, [h, (j, True), (j, False)], x)
        return "Y", d
    if name in DIPOLES:
        return "D", dipole(name, gen)
    if name == "phiud":
        for c in range(3):
            add_current(d, ("u", "R", gen[0], c, 0, False),
                        ("d", "R", gen[1], c, 0, True), (1, False), (0, False),
                        F(-1))
        return "H", d
    if name in CURRENTS:
        s, t = CURRENTS[name]
        for c in col(s):
            for i, j, m, n in product(iso(s), iso(s), range(2), range(2)):
                y = 4 * su(2, i, j, m, n) if t else F(i == j and m == n)
                if y:
                    a, b = current(s, gen[0], gen[1], c, c, i, j)
                    add_current(d, a, b, (m, True), (n, False),
                                y * (1 if CH[s] == "L" else -1))
        return "H", d
    fs, dirac, gauge = OPS[name]
    if dirac == "B":
        return baryon(fs, gen)
    for c, i, x in structures(fs, gauge):
        f = [(s, CH[s], g, cc, ii) for s, g, cc, ii in zip(fs, gen, c, i)]
        if dirac == "V":
            y = 2 * x
            for n in (0, 2):
                if CH[fs[n]] == "R":
                    f[n], f[n + 1], y = f[n + 1], f[n], -y
            add(d, vkey(f[1] + (False,), f[3] + (False,), f[0] + (True,),
                        f[2] + (True,)), y)
        elif dirac == "Sdelta":             # (l e)(d q)
            if f[0][4] == f[3][4]:
                add(d, vkey(f[3] + (False,), f[2] + (False,), f[0] + (True,),
                            f[1] + (True,)), x)
        else:                               # (a b) eps (c d)
            a, b, e, g = [z + (True,) for z in f]
            y = x * ((f[0][4], f[2][4]) == (0, 1)) - \
                x * ((f[0][4], f[2][4]) == (1, 0))
            if y and dirac == "Seps":
                scalar(d, a, b, e, g, y)
            elif y:
                scalar(d, a, b, e, g, -4 * y)
                scalar(d, a, g, e, b, -8 * y)
    return ("V" if dirac in ("V", "Sdelta") else "S"), d


def baryon(fs, gen):
    """(ab)(ce), colours and isospins contracted with epsilon."""
    d = {}
    for (c, x) in EPS3:
        cc = iter(c)
        cols = [next(cc) if s in "qud" else 0 for s in fs]
        for iso4 in product(*[iso(s) for s in fs]):
            n = {"duql": (2, 3), "qque": (0, 1), "qqql": (0, 3, 1, 2),
                 "duue": ()}[fs]
            y = x
            for a, b in zip(n[::2], n[1::2]):
                y *= iso4[b] - iso4[a]
            if not y:
                continue
            a = [(s, CH[s], g, k, i, CH[s] == "R")
                 for s, g, k, i in zip(fs, gen, cols, iso4)]
            if fs == "duql":
                add(d, vkey(a[2], a[3], a[0], a[1]), F(y))
            elif fs == "qque":
                add(d, vkey(a[0], a[1], a[2], a[3]), F(y))
            else:
                scalar(d, *a, F(y))
    return ("S" if fs in ("qqql", "duue") else "V"), d


EPS3 = [(p, x) for p, x in (((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1),
                            ((0, 2, 1), -1), ((2, 1, 0), -1), ((1, 0, 2), -1))]


def generators(group):
    """Generator matrices."""
    if group == "gp":
        return [np.eye(1)]
    out = []
    n = dim(group)
    for i in range(n):
        for j in range(i):
            for y in (.5, .5j):
                t = np.zeros((n, n), complex)
                t[j, i], t[i, j] = y, np.conj(y)
                out.append(t)
    for i in range(1, n):
        t = np.diag([1.] * i + [-i] + [0.] * (n - i - 1))
        out.append(t / np.sqrt(2 * i * (i + 1)))
    return out


def act(group, A, f):
    """Generator A on a factor: [(factor, coefficient)]."""
    if group == "gp":
        return [(f, float(hyper(f)))]
    r = rep(group, f)
    if not r:
        return []
    T = generators(group)[A]
    x = get(f, group)
    out = []
    for z in range(dim(group)):
        y = T[x, z] if r == 1 else -T[z, x]
        if y:
            out.append((put(f, group, z), y))
    return out


def dipole(name, gen):
    """{(group, A, field, field, Higgs field): coefficient}: (ab) triplets."""
    s = name[0]
    group = DIPOLES[name][1]
    left = "l" if s == "e" else "q"
    d = {}
    for A, T in enumerate(generators(group)):
        for i, j in product(range(2), range(2)):
            for c, e in product(col(left), col(left)):
                if group == "gp":
                    y = (i == j) * (c == e)
                elif group == "g":
                    y = 2 * T[i, j] * (c == e)
                else:
                    y = T[c, e] * (i == j)
                if not y:
                    continue
                h = (j, False) if s != "u" else (1 - j, True)
                if s == "u" and j == 1:
                    y = -y
                add_dipole(d, (group, A), (left, "L", gen[0], c, i, True),
                           (s, "R", gen[1], e, 0, True), h, y)
    return d


def add_dipole(d, ga, a, b, h, y):
    if a > b:
        a, b, y = b, a, -y
    k = ga + (a, b, h)
    d[k] = d.get(k, 0) + y


def add_higgs(d, a, b, hs, x):
    """x (ab) h..."""
    k = (min(a, b), max(a, b)) + tuple(sorted(hs))
    d[k] = d.get(k, 0) + x


def add_current(d, j, l, h1, h2, x):
    """x (j l) h1 i<->D h2, for Higgs fields (component, conjugate?)."""
    if h1 > h2:
        h1, h2, x = h2, h1, -x
    if h1 != h2:
        add(d, (j, l, h1, h2), x)


def current(s, p, r, c1, c2, i1, i2):
    """Field and conjugate field of a current, left-handed."""
    a, b = (s, CH[s], p, c1, i1), (s, CH[s], r, c2, i2)
    if CH[s] == "R":
        a, b = b, a
    return b + (False,), a + (True,)


def conjugate(kind, d):
    """Hermitian conjugate."""
    out = {}
    for k, x in d.items():
        if kind == "Y":
            add_higgs(out, bar(k[0]), bar(k[1]), [hbar(h) for h in k[2:]],
                      complex(x).conjugate())
        elif kind == "D":
            add_dipole(out, k[:2], bar(k[2]), bar(k[3]), hbar(k[4]),
                       complex(x).conjugate())
        elif kind == "S":
            out[tuple(bar(f[:-1]) + f[-1:] for f in k)] = x
        elif kind == "H":
            j, l, h1, h2 = k
            add_current(out, l[:-1] + (False,), j[:-1] + (True,), hbar(h1),
                        hbar(h2), -x)
        else:
            i, j, k, l = k
            out[vkey(k[:-1] + (False,), l[:-1] + (False,), i[:-1] + (True,),
                     j[:-1] + (True,))] = x
    return out


def rep(group, f):
    """+1, -1 or 0; for the factor of an operator."""
    s, ch = f[:2]
    if s not in ("qud" if group == "gs" else "ql"):
        return 0
    r = 1 if ch == "L" else -1
    return -r if f[5] else r


def put(f, group, x):
    n = 3 if group == "gs" else 4
    return f[:n] + (x,) + f[n + 1:]


def get(f, group):
    return f[3 if group == "gs" else 4]


def dim(group):
    return 3 if group == "gs" else 2


def exchange(group, a, b):
    if group == "gp":
        q = hyper(a) * hyper(b)
        return [(a, b, q)] if q else []
    r, s = rep(group, a), rep(group, b)
    if not r or not s:
        return []
    x, y, n = get(a, group), get(b, group), dim(group)
    if r == s:
        return [(put(a, group, y), put(b, group, x), F(1, 2)),
                (a, b, F(-1, 2 * n))]
    out = [(a, b, F(1, 2 * n))]
    if x == y:
        out += [(put(a, group, z), put(b, group, z), F(-1, 2))
                for z in range(n)]
    return out


def hyper(f):
    y = FIELD[f[:2]][0]
    return -y if f[5] else y


ALL = [(s, CH[s], g, c, i, False) for s in "qlude" for g in range(3)
       for c in col(s) for i in iso(s)]


def vertices(group, i, k):
    """Closing i with the conjugate k: the gauge current, as
    [(field, conjugate field, coefficient)] and the same for the Higgs."""
    if group == "gp":
        if i[3:5] != k[3:5]:
            return [], []
        return [(f, f[:-1] + (True,), hyper(i) * hyper(f)) for f in ALL], \
            [(h, h, hyper(i) * HIGGS) for h in range(2)]
    r = rep(group, i)
    n = 3 if group == "gs" else 4
    # the other index runs through unchanged
    if not r or i[7 - n] != k[7 - n]:
        return [], []
    a, b = (i[n], k[n]) if r == 1 else (k[n], i[n])
    out, hig = [], []
    for f in ALL:
        s = rep(group, f)
        if not s:
            continue
        for z in range(dim(group)):
            u, v = (z, f[n]) if s == 1 else (f[n], z)
            y = su(dim(group), a, b, u, v)
            if y:
                out.append((f, put(f, group, z)[:-1] + (True,), r * s * y))
    if group == "g":
        for m in range(2):
            for h in range(2):
                y = su(2, a, b, m, h)
                if y:
                    hig.append((h, m, r * y))
    return out, hig


def dot(kind, d, group):
    """Monomials with kinds: 16 pi^2 / coupling^2 times the derivative."""
    out = {}
    if kind == "D":
        return out              # into themselves only
    if kind == "S":
        for fs, x in d.items():
            for m, n in combinations(range(4), 2):
                a, b = fs[m], fs[n]
                for a2, b2, y in exchange(group, a[:-1], b[:-1]):
                    new = list(fs)
                    new[m], new[n] = a2 + a[-1:], b2 + b[-1:]
                    gadd(out, new, 2 * x * y)
                    new[m], new[n] = a2 + b[-1:], b2 + a[-1:]
                    gadd(out, new, -4 * x * y)
        return {("S",) + k: x for k, x in out.items()}
    if kind == "H":
        # only what the Higgs loop gives
        for (j, l, h1, h2), x in d.items():
            if h1[1] == h2[1]:
                continue
            if h2[1]:
                h1, h2, x = h2, h1, -x
            m, n = h1[0], h2[0]
            if group == "gp":
                v = [(f, f[:-1] + (True,), HIGGS * hyper(f)) for f in ALL] \
                    if m == n else []
            elif group == "g":
                v = [(f, put(f, "g", z)[:-1] + (True,), y) for f in ALL
                     if rep("g", f) for z in range(2)
                     for y in [su(2, n, m, z, f[4])] if y]
            else:
                v = []
            for f, f2, y in v:
                add(out, ("V",) + vkey(j, f, l, f2),
                    2 * LOOP["scalar"] * x * y)
        return out
    for (i, j, k, l), x in d.items():
        for i2, j2, y in exchange(group, i, j):
            add(out, ("V",) + vkey(i2, j2, k, l), 6 * x * y)
        for k2, l2, y in exchange(group, k, l):
            add(out, ("V",) + vkey(i, j, k2, l2), 6 * x * y)
        for i1, j1, k1, l1 in ((i, j, k, l), (j, i, k, l), (i, j, l, k),
                               (j, i, l, k)):
            if i1[:3] != k1[:3]:
                continue
            fer, hig = vertices(group, i1, k1)
            for f, f2, y in fer:
                add(out, ("V",) + vkey(j1, f, l1, f2),
                    LOOP["fermion"] * x * y)
            for h, m, y in hig:
                cur = {}
                add_current(cur, j1, l1, (m, True), (h, False),
                            LOOP["fermion"] * x * y / 2)
                for q, z in cur.items():
                    add(out, ("H",) + q, z)
    return out


# --- Yukawa couplings: L = -sum y (ab) h

# one number for all dipole operators and gauge groups each
DIP_OUT, DIP_IN = -4., -.5
CHAIN = -2.
SPIN = {(0, 1): 1, (1, 0): -1}
# (ab) and (ce) in triplets
TENSOR = {}
for _s, _t in product(SPIN, SPIN):
    for _k in ((_s[0], _t[0], _s[1], _t[1]), (_s[0], _t[0], _t[1], _s[1])):
        TENSOR[_k] = TENSOR.get(_k, 0) + SPIN[_s] * SPIN[_t]


def bar(f):
    return f[:-1] + (not f[-1],)


def hbar(h):
    """Higgs field: (component, conjugate?)."""
    return h[0], not h[1]


class Yukawas:
    """Exchange of the Higgs field. Every vertex has its coupling and the name
    of the matrix it stems from."""

    def __init__(self, Y):
        vert = []
        for n, (s, t) in {"Gu": ("q", "u"), "Gd": ("q", "d"),
                          "Ge": ("l", "e")}.items():
            for p, r in product(range(3), range(3)):
                y = complex(Y[n][p, r])
                for c, i in product(col(t), range(2)):
                    a, b = (s, "L", p, c, i, True), (t, "R", r, c, 0, True)
                    if n == "Gu":
                        vert.append((a, b, (1 - i, True), y * (1 - 2 * i), n))
                    else:
                        vert.append((a, b, (i, False), y, n))
        vert += [(bar(a), bar(b), hbar(h), y.conjugate(), n)
                 for a, b, h, y, n in vert]
        self.field, self.higgs = {}, {}
        for a, b, h, y, n in vert:
            self.field.setdefault(a, []).append((b, h, y, n))
            self.field.setdefault(b, []).append((a, h, y, n))
            self.higgs.setdefault(h, []).append((a, b, y, n))

    def leg(self, f):
        """What becomes of a field that couples to the Higgs field."""
        return self.field[bar(f)]

    def pairs(self, a, b):
        for m, h, y, n in self.leg(a):
            for k, h2, y2, n2 in self.leg(b):
                if h2 == hbar(h):
                    yield m, k, y * y2, (n, n2)

    def wave(self, f):
        for m, h, y, n in self.leg(f):
            for k, h2, y2, n2 in self.field[bar(m)]:
                if h2 == hbar(h):
                    yield k, y * y2 / 2, (n, n2)

    def closing(self, a, b):
        """Two fields become the Higgs field, and this two others by its
        equation of motion."""
        for m, h, y, n in self.leg(a):
            if m == bar(b):
                for e, f, y2, n2 in self.higgs[hbar(h)]:
                    yield e, f, y * y2, (n, n2)

    def dot(self, kind, d):
        """{names of two matrices: monomials}"""
        out = {}

        def put(names, k, x):
            o = out.setdefault(tuple(sorted(names)), {})
            o[k] = o.get(k, 0) + x

        def put_s(names, fs, x):
            k, s = gsort(fs)
            if s:
                put(names, ("S",) + k, s * x)

        def put_scalar(names, a, b, c, e, x):
            for (s, t), p in SPIN.items():
                for (u, v), q in SPIN.items():
                    put_s(names, [a + (s,), b + (t,), c + (u,), e + (v,)],
                          x * p * q)

        def put_pairs(names, a, b, c, e, x):
            if a[5] == c[5]:
                put_scalar(names, a, b, c, e, x)
            else:
                i = (c, e, a, b) if a[5] else (a, b, c, e)
                put(names, ("V",) + vkey(*i), x)

        if kind == "D":
            self.dipole(d, put_s)
            return out
        if kind in "SV":
            for two, x, a, b in self.open(kind, d):
                self.to_higgs(two, x, a, b, put)
        {"H": self.higgs_current, "S": self.four, "V": self.two_two}[kind](
            d, put, put_s, put_scalar, put_pairs)
        return out

    def higgs_current(self, d, put, put_s, put_scalar, put_pairs):
        for (j, l, h1, h2), x in d.items():
            for a, b, y, n1 in self.higgs[hbar(h2)]:
                for c, e in ((a, b), (b, a)):
                    for f, h, y2, n2 in self.field[bar(e)]:
                        if h == hbar(h1):
                            i = (f, c) if c[5] else (c, f)
                            put((n1, n2), ("V",) + vkey(j, i[0], l, i[1]),
                                float(x) * y * y2 * (2 if c[5] else -2))

    def dipole(self, d, put_s):
        """The gauge boson and the Higgs field couple to the same fermion."""
        for (g, A, a, b, h), x in d.items():
            for c, e, y, n in self.higgs[hbar(h)]:
                if c[5] != a[5]:
                    continue
                new = [((c2, e), z) for c2, z in act(g, A, c)] + \
                    [((c, e2), -z) for e2, z in act(g, A, e)]
                for (c2, e2), z in new:
                    for (s, t, u, v), w in TENSOR.items():
                        put_s((g, n), [a + (s,), b + (t,), c2 + (u,),
                                       e2 + (v,)], DIP_OUT * x * y * z * w)

    @staticmethod
    def open(kind, d):
        """Two fields of the same kind out, two left: scalars."""
        if kind == "V":
            for (i, j, k, l), x in d.items():
                yield (k, l), 2 * float(x), i, j
                yield (i, j), 2 * float(x), k, l
            return
        for fs, x in d.items():
            for m, k in combinations(range(4), 2):
                r = [fs[t] for t in range(4) if t not in (m, k)]
                z = SPIN.get((fs[m][-1], fs[k][-1]), 0) * \
                    SPIN.get((r[0][-1], r[1][-1]), 0) * (-1) ** (m + k - 1)
                if z:
                    yield (r[0][:-1], r[1][:-1]), float(x) * z / 2, \
                        fs[m][:-1], fs[k][:-1]

    def to_higgs(self, two, x, a, b, put):
        for m, h, y, n in self.leg(a):
            if m == bar(b):
                o = {}
                add_higgs(o, *two, [h], -x * y)
                for q, w in o.items():
                    put((n, "m2"), ("Y",) + q, w)
                o = {}
                for j in range(2):
                    add_higgs(o, *two, [h, (j, True), (j, False)], x * y)
                for q, w in o.items():
                    put((n, "Lambda"), ("Y",) + q, w)
            # three Yukawa couplings
            for f, h2, y2, n2 in self.field[bar(m)]:
                for e, h3, y3, n3 in self.field[bar(f)]:
                    if e == bar(b):
                        o = {}
                        add_higgs(o, *two, [h, h2, h3],
                                  CHAIN * x * y * y2 * y3)
                        for q, w in o.items():
                            put((n, n2, n3), ("Y",) + q, w)

    def to_dipoles(self, d, put):
        for fs, x in d.items():
            for m, k in combinations(range(4), 2):
                r = [fs[t] for t in range(4) if t not in (m, k)]
                if [f[-1] for f in (fs[m], fs[k], *r)] != [1, 1, 0, 0]:
                    continue
                c, e = fs[m][:-1], fs[k][:-1]
                sign = (-1) ** (m + k - 1)
                for g in GROUPS:
                    for A in range(len(generators(g))):
                        new = [((c2, e), z) for c2, z in act(g, A, c)] + \
                            [((c, e2), -z) for e2, z in act(g, A, e)]
                        for (c2, e2), z in new:
                            for f, h, y, n in self.leg(c2):
                                if f == bar(e2):
                                    o = {}
                                    add_dipole(o, (g, A), r[0][:-1],
                                               r[1][:-1], h, sign * float(x)
                                               * y * z * DIP_IN)
                                    for q, w in o.items():
                                        put((g, n), ("D",) + q, w)

    def four(self, d, put, put_s, put_scalar, put_pairs):
        self.to_dipoles(d, put)
        for fs, x in d.items():
            x = float(x)
            for m in range(4):
                for k, y, n in self.wave(fs[m][:-1]):
                    new = list(fs)
                    new[m] = k + fs[m][-1:]
                    put_s(n, new, x * y)
            for m, k in combinations(range(4), 2):
                r = [fs[t] for t in range(4) if t not in (m, k)]
                z = SPIN.get((fs[m][-1], fs[k][-1]), 0) * \
                    SPIN.get((r[0][-1], r[1][-1]), 0) * (-1) ** (m + k - 1)
                if not z:
                    continue
                a, b, r0, r1 = [f[:-1] for f in (fs[m], fs[k], *r)]
                for p, q, y, n in self.pairs(a, b):
                    put_pairs(n, p, q, r0, r1, x * y * z / 2)
                for e, f, y, n in self.closing(a, b):
                    put_pairs(n, r0, r1, e, f, x * y * z / 2)

    def two_two(self, d, put, put_s, put_scalar, put_pairs):
        for (i, j, k, l), x in d.items():
            x = float(x)
            for a in range(4):
                for f, y, n in self.wave((i, j, k, l)[a]):
                    new = [i, j, k, l]
                    new[a] = f
                    put(n, ("V",) + vkey(*new), x * y)
            for i1, j1, k1, l1 in ((i, j, k, l), (j, i, k, l), (i, j, l, k),
                                   (j, i, l, k)):
                for p, q, y, n in self.pairs(i1, k1):
                    put(n, ("V",) + vkey(q, j1, p, l1), x * y)
                # two Higgs fields
                for m, h, y, n1 in self.leg(i1):
                    for f, h2, y2, n2 in self.field[bar(m)]:
                        if f == bar(k1):
                            cur = {}
                            add_current(cur, j1, l1, h, h2, x * y * y2)
                            for q, z in cur.items():
                                put((n1, n2), ("H",) + q, z)
            for a, b, r in ((i, j, (k, l)), (k, l, (i, j))):
                for p, q, y, n in self.pairs(a, b):
                    put_scalar(n, p, q, *r, 2 * x * y)
                for e, f, y, n in self.closing(a, b):
                    put_pairs(n, *r, e, f, 2 * x * y)


class Basis:
    """Expansion in operators; monomials of different operators mostly differ,
    so that elimination stays local."""

    def __init__(self, vectors):
        self.rows = {}
        for n, v in vectors:
            v, w = self.reduce(dict(v), {n: F(1)}, None)
            if v:
                self.rows[min(v, key=repr)] = (v, w)

    def reduce(self, v, w, left):
        hit = [p for p in v if p in self.rows]
        while hit:
            p = hit.pop()
            x = v.get(p)
            if not x:
                continue
            r, c = self.rows[p]
            x = x / r[p]
            for k, y in r.items():
                add(v, k, -x * y)
                if k in v and k in self.rows:
                    hit.append(k)
            for k, y in c.items():
                add(w, k, -x * y)
        return v, w

    def expand(self, v):
        left, w = self.reduce(dict(v), {}, None)
        return {k: -x for k, x in w.items()}, left


def number(x):
    return x if isinstance(x, complex) else float(x)


@lru_cache(maxsize=None)
def full_basis(names):
    """Basis of the operators and their Hermitian conjugates."""
    vec = []
    for n in (*names, *(f"{g}_{i}{j}" for g in YUKAWA for i in range(1, 4)
                        for j in range(1, 4))):
        kind, d = operator(n.split("_")[0], idx(n))
        vec.append(((n, False), {(kind,) + m: number(x) for m, x in d.items()}))
        c = conjugate(kind, d)
        if c != d:
            vec.append(((n, True), {(kind,) + m: number(x)
                                    for m, x in c.items()}))
    return Basis(vec)


def derivative(names, name, Y):
    """[(coupling, other operator, conjugate?, coefficient)] for 16 pi^2 times
    the derivative of the Lagrangian with this operator alone; couplings are
    names of gauge couplings or pairs of names of Yukawa matrices."""
    B = full_basis(names)
    kind, d = operator(name.split("_")[0], idx(name))
    parts = {(g, g): {k: number(x) for k, x in dot(kind, d, g).items()}
             for g in GROUPS}
    parts.update(Yukawas(Y).dot(kind, d))
    out = []
    for g, v in parts.items():
        w, left = B.expand({k: x for k, x in v.items() if abs(x) > 1e-13})
        if any(abs(x) > 1e-9 for x in left.values()):
            raise ValueError(f"{name} {g}: not closed")
        out += [(g, n, c, x) for (n, c), x in w.items() if abs(x) > 1e-11]
    return out
