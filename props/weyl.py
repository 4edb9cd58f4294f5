"""One-loop anomalous dimensions of the operators of the WET, from the gauge
charges of left-handed two-component fields.

In Landau gauge fields do not renormalise at one loop, and the exchange of a
gauge boson between two fields of an operator gives T_a.T_b times
    0         for a field and a conjugate field (currents are conserved),
    2 - 4 X   for two fields, or two conjugate fields, X exchanging the spins
              (+6 in a singlet: the mass; -2 in a triplet: the tensor current).
Closing a field with a conjugate one gives, by the equation of motion of the
gauge boson, 4/3 times its charge times the current; closing two fields
through a mass and emitting a gauge boson gives a dipole operator.
Everything is exact (rational numbers times coefficients)."""
from fractions import Fraction as F
from functools import lru_cache
from itertools import combinations, product

from . import jms

CHARGE = {"u": F(2, 3), "d": F(-1, 3), "e": F(-1), "nu": F(0)}
NUMBER = {"u": 2, "d": 3, "e": 3, "nu": 3}
COLOURS = range(3)
PENGUIN = F(4, 3)


def coloured(s):
    return s in ("u", "d")


# A factor of an operator is a tuple (species, chirality, generation, colour,
# bar): a left-handed field (L), or the conjugate (R) of a right-handed one;
# bar: hermitian conjugate.


def charge(f):
    """Charge of the factor in the operator."""
    s, ch, g, c, bar = f
    q = CHARGE[s]
    if ch == "R":
        q = -q
    return -q if bar else q


def rep(f):
    """+1: triplet, -1: antitriplet, 0: singlet."""
    s, ch, g, c, bar = f
    if not coloured(s):
        return 0
    r = 1 if ch == "L" else -1
    return -r if bar else r


def recolour(f, c):
    return f[:3] + (c,) + f[4:]


def exchange(group, a, b):
    """T_a.T_b: [(a', b', coefficient)]."""
    if group == "e":
        q = charge(a) * charge(b)
        return [(a, b, q)] if q else []
    r, s = rep(a), rep(b)
    if not r or not s:
        return []
    ca, cb = a[3], b[3]
    if r == s:
        return [(recolour(a, cb), recolour(b, ca), F(1, 2)),
                (a, b, F(-1, 6))]
    out = [(a, b, F(1, 6))]
    if ca == cb:
        out += [(recolour(a, c), recolour(b, c), F(-1, 2)) for c in COLOURS]
    return out


def add(d, k, x):
    if not x:
        return
    d[k] = d.get(k, 0) + x
    if not d[k]:
        del d[k]


# --- operators with two fields and two conjugate ones: (ij)(kl)


def vkey(i, j, k, l):
    return tuple(sorted((i, j))) + tuple(sorted((k, l)))


# --- operators with four conjugate fields: Grassmann monomials with spins


def gsort(fs):
    """Sorted fields and the sign; None if one appears twice."""
    fs, s = list(fs), 1
    for i in range(len(fs)):
        for j in range(len(fs) - 1 - i):
            if fs[j] > fs[j + 1]:
                fs[j], fs[j + 1] = fs[j + 1], fs[j]
                s = -s
            elif fs[j] == fs[j + 1]:
                return None, 0
    return tuple(fs), s


def gadd(d, fs, x):
    k, s = gsort(fs)
    if s:
        add(d, k, s * x)


EPS = ((0, 1, 1), (1, 0, -1))


def scalar(d, a, b, c, e, x):
    """x (ab)(ce)."""
    for s, t, p in EPS:
        for u, v, q in EPS:
            gadd(d, [a + (s,), b + (t,), c + (u,), e + (v,)], x * p * q)


@lru_cache(maxsize=None)
def operator(name, idx):
    """('V', {(i, j, k, l): coefficient}), ('S', {monomial: coefficient})."""
    fields = [(f.rstrip("*")[:-1], f.rstrip("*")[-1], f.endswith("*"))
              for f in jms.FIELDS[name]]
    kind = name[0]
    spec = [f[0] for f in fields]
    gen = list(idx)
    d = {}
    if len(spec) == 4 and kind == "S" and not any(f[2] for f in fields):
        # baryon number violating: eps_abc (C a b)(C c l)
        for cs in product(COLOURS, repeat=3):
            if len(set(cs)) < 3:
                continue
            sg = gsort(cs)[1]
            fs = []
            for n, (f, g) in enumerate(zip(fields, gen)):
                s, ch, _ = f
                fs.append((s, ch, g, cs[n] if n < 3 else 0, ch == "R"))
            bars = [f[4] for f in fs]
            if len(set(bars)) == 1:
                scalar(d, *fs, F(sg))
            else:
                a, b = [f for f in fs if not f[4]], [f for f in fs if f[4]]
                add(d, vkey(*a, *b), F(sg))
        return ("S" if len(set(bars)) == 1 else "V"), d
    octet = name[1] == "8"
    pair = coloured(spec[0]), coloured(spec[2])
    for n, (c1, c2, c3, c4, x) in enumerate(colour(pair, octet)):
        cs = (c1, c2, c3, c4)
        a, b, c, e = [(s, ch, g, cl) for (s, ch, _), g, cl in
                      zip(fields, gen, cs)]
        chir = [f[1] for f in fields]
        if kind == "V":
            # right-handed current: minus the conjugate current, swapped
            y = 2 * x
            if chir[0] == "R":
                a, b, y = b, a, -y
            if chir[2] == "R":
                c, e, y = e, c, -y
            add(d, vkey(b + (False,), e + (False,), a + (True,), c + (True,)),
                y)
        elif chir[0] == chir[2]:
            a, b, c, e = [f + (True,) for f in (a, b, c, e)]
            if kind == "S":
                scalar(d, a, b, c, e, x)
            else:
                scalar(d, a, b, c, e, -4 * x)
                scalar(d, a, e, c, b, -8 * x)
        else:
            add(d, vkey(e + (False,), c + (False,), a + (True,), b + (True,)),
                x)
    return ("S" if kind in "ST" and chir[0] == chir[2] else "V"), d


def colour(pair, octet):
    """Colours of the four fields and factor, for a product of currents."""
    if octet:
        for a, b in product(COLOURS, repeat=2):
            yield a, b, b, a, F(1, 2)
            yield a, a, b, b, F(-1, 6)
    else:
        for a in COLOURS if pair[0] else (0,):
            for b in COLOURS if pair[1] else (0,):
                yield a, a, b, b, F(1)


def charges_of_current(group):
    return [(s, ch, g, c) for s in CHARGE for ch in "LR"
            for g in range(NUMBER[s]) for c in (COLOURS if coloured(s) else (0,))
            if (s, ch) != ("nu", "R")]


ALL = charges_of_current("e")


def dot(kind, d, group):
    """16 pi^2 / g^2 times the derivative of an operator's coefficient,
    operators with the same number of fields."""
    out = {}
    if kind == "S":
        for fs, x in d.items():
            for m, n in combinations(range(4), 2):
                a, b = fs[m], fs[n]
                for a2, b2, y in exchange(group, a[:-1], b[:-1]):
                    new = list(fs)
                    new[m], new[n] = a2 + a[-1:], b2 + b[-1:]
                    gadd(out, new, 2 * x * y)
                    new[m], new[n] = a2 + b[-1:], b2 + a[-1:]
                    gadd(out, new, -4 * x * y)
        return out
    for (i, j, k, l), x in d.items():
        for i2, j2, y in exchange(group, i, j):
            add(out, vkey(i2, j2, k, l), 6 * x * y)
        for k2, l2, y in exchange(group, k, l):
            add(out, vkey(i, j, k2, l2), 6 * x * y)
        for i1, j1, k1, l1 in ((i, j, k, l), (j, i, k, l), (i, j, l, k),
                               (j, i, l, k)):
            # close i1 with k1: the same field up to colour
            if i1[:3] == k1[:3]:
                for f in ALL:
                    for m, y in (singlets if group == "e" else octets)(
                            i1, k1, f):
                        add(out, vkey(j1, f + (False,), l1, m + (True,)),
                            PENGUIN * x * y)
    return out


def octets(i, k, f):
    """sum_A T^A_(ik) T^A_(mf): [(m, coefficient)]."""
    r, s = rep(i), rep(f + (False,))
    if not r or not s:
        return
    a, b = (i[3], k[3]) if r == 1 else (k[3], i[3])
    for c in COLOURS:
        u, v = (c, f[3]) if s == 1 else (f[3], c)
        y = F(a == v and b == u, 2) - F(a == b and u == v, 6)
        if y:
            yield recolour(f, c), r * s * y


def singlets(i, k, f):
    q = charge(i) * charge(f + (False,))
    if q and i[3] == k[3]:
        yield f, q


class Basis:
    """Expansion in the operators of one sector."""

    def __init__(self, vectors):
        self.rows = []                      # (pivot, vector, combination)
        for n, v in enumerate(vectors):
            v, w = self.reduce(dict(v), {n: F(1)})
            if not v:
                raise ValueError(f"operator {n} depends on others")
            p = min(v)
            self.rows.append((p, v, w))

    def reduce(self, v, w):
        for p, r, c in self.rows:
            x = v.get(p)
            if x:
                x = x / r[p]
                for k, y in r.items():
                    add(v, k, -x * y)
                for k, y in c.items():
                    add(w, k, -x * y)
        return v, w

    def expand(self, v):
        """(coefficients, what is left)"""
        left, w = self.reduce(dict(v), {})
        return {k: -x for k, x in w.items()}, left


def closing(d):
    """Four-fermion operators (ab)(cd) of conjugate fields turn into dipoles
    by closing a and b through the mass of their particle and emitting a gauge
    boson, if their spins form a triplet: {(species, p, r) of the dipole:
    {(species, generation) in the loop: (photon, gluon)}}. Photon dipoles in
    units of mass times e, gluon dipoles of mass times g."""
    res = {}
    for fs, x in d.items():
        up = [n for n in range(4) if fs[n][5] == 0]
        if len(up) != 2:
            continue
        down = [n for n in range(4) if n not in up]
        for m, n in (up, up[::-1]):
            a, b = fs[m], fs[n]
            if (a[0], a[1], a[2]) != (b[0], "L", b[2]) or b[1] != "R":
                continue
            for u, v in (down, down[::-1]):
                c, e = fs[u], fs[v]
                if (c[0], c[1], e[1]) != (e[0], "L", "R"):
                    continue
                s = x * gsort((m, n, u, v))[1]
                photon = gluon = F(0)
                if a[3] == b[3] and c[3] == e[3]:
                    photon = CHARGE[a[0]] * s / (3 if coloured(c[0]) else 1)
                if coloured(a[0]) and coloured(c[0]):
                    # sum over T^A_(ba) T^A_(ec), T^A of norm 1/2, eight A
                    gluon = s / 4 * (F(b[3] == c[3] and a[3] == e[3], 2) -
                                     F(a[3] == b[3] and c[3] == e[3], 6))
                p = res.setdefault((c[0], c[2], e[2]), {})\
                    .setdefault((a[0], a[2]), [F(0), F(0)])
                p[0] += photon
                p[1] += gluon
    return res


def dipoles(key, f):
    """Anomalous dimensions of gauge boson operators times e or g, dipoles
    also over the mass (photon: times g^2/e^2), whose running is included:
    {('s' or 'e', name): number}."""
    b0 = 11 - F(2 * f, 3)
    C, N = F(4, 3), 3
    name, _, gen = key.partition("_")
    if name in ("G", "Gtilde"):
        out = {("s", key): 12 * N - 4 * b0}
        for s in "ud":
            for g in "123"[:NUMBER[s]]:
                out["s", f"{s}G_{g}{g}"] = 3 * N * (1 if name == "G" else 1j)
        return out
    s = name[0]
    Q = CHARGE[s]
    c = C if coloured(s) else 0
    if name[1:] == "G":
        return {("s", key): 16 * C - 4 * N - 2 * b0, ("e", key): 8 * Q ** 2,
                ("s", f"{s}gamma_{gen}"): 8 * C * Q}
    out = {("s", key): 8 * c - 2 * b0, ("e", key): 16 * Q ** 2}
    if coloured(s):
        out["e", f"{s}G_{gen}"] = 8 * Q
    return out


def table(keys, f, conjugate=()):
    """{('s' or 'e', from, to): number or {(species, generation): number}},
    the latter to be multiplied by the mass over that of the dipole.
    conjugate: coefficients whose complex conjugates are meant."""
    four = [k for k in keys if len(k.split("_")[-1]) == 4]
    ops = {}
    for k in four:
        name, i = k.split("_")
        i = tuple(int(x) - 1 for x in i)
        if k in conjugate:                  # (1 2)(3 4)* = (2 1)(4 3)
            i = (i[1], i[0], i[3], i[2])
        ops[k] = operator(name, i)
    B = Basis([{(o[0],) + m: x for m, x in o[1].items()}
               for o in ops.values()])
    out, left = {}, []
    for k, (kind, d) in ops.items():
        for g in "se":
            w, rest = B.expand({(kind,) + m: x
                                for m, x in dot(kind, d, g).items()
                                if present(m, f)})
            if rest:
                left.append((g, k))
            for n, x in w.items():
                if x:
                    out[g, k, four[n]] = x
        if kind == "S":
            for (s, p, r), loops in closing(d).items():
                for n, name in enumerate((f"{s}gamma", f"{s}G")):
                    x = {l: v[n] for l, v in loops.items() if v[n]}
                    if x:
                        out["s", k, f"{name}_{p + 1}{r + 1}"] = x
    for k in keys:
        if k not in four:
            for (g, j), x in dipoles(k, f).items():
                out[g, k, j] = x
    return out, left


def present(m, f):
    """Only fields of the theory with f quarks."""
    n = {"d": {5: 3, 4: 2, 3: 2}[f], "u": {5: 2, 4: 2, 3: 1}[f],
         "e": 3, "nu": 3}
    return all(x[2] < n[x[0]] for x in m if type(x) is tuple)
