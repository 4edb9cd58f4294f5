"""SMEFT flavour bases: Warsaw, Warsaw up, Warsaw mass."""
import itertools

import numpy as np

from vlib.h import *

BOUNDS = ("Three generations, all 1635 Warsaw coefficients symbolic (modulus "
          "up to 1); five arbitrary symbolic 3x3 matrices for the five "
          "fermion fields; CKM matrix an arbitrary symbolic 3x3 matrix "
          "depending on the parameters handed over (rotations), or the "
          "actual one at three parameter points (inverse).")
ASSUMPTIONS = ["ckmutil (CKM parametrisation, singular values) is outside: "
               "its results are arbitrary inputs or taken at fixed "
               "parameters."]

# fields contracted with the coefficient indices; * = conjugate field
FIELDS = {}
for _l in """
ephi l* e|eW l* e|eB l* e|uphi q* u|uW q* u|uB q* u|uG q* u|dphi q* d|dW q* d
dB q* d|dG q* d|phil1 l* l|phil3 l* l|phiq1 q* q|phiq3 q* q|phie e* e
phiu u* u|phid d* d|phiud u* d|llphiphi l l|ll l* l l* l|ee e* e e* e
le l* l e* e|qq1 q* q q* q|qq3 q* q q* q|dd d* d d* d|uu u* u u* u
ud1 u* u d* d|ud8 u* u d* d|qu1 q* q u* u|qu8 q* q u* u|qd1 q* q d* d
qd8 q* q d* d|quqd1 q* u q* d|quqd8 q* u q* d|lq1 l* l q* q|lq3 l* l q* q
ld l* l d* d|lu l* l u* u|qe q* q e* e|ed e* e d* d|eu e* e u* u
ledq l* e d* q|lequ1 l* e q* u|lequ3 l* e q* u|duql d u q l|qque q q u e
qqql q q q l|duue d u u e""".replace("\n", "|").split("|"):
    if _l:
        FIELDS[_l.split()[0]] = _l.split()[1:]
YUK = {"Ge": ["l*", "e"], "Gu": ["q*", "u"], "Gd": ["q*", "d"]}


def rotate(a, fields, U):
    """C'_{ab..} = sum U_ia(*) U_jb(*) .. C_{ij..}, index by index."""
    for ax, f in enumerate(fields):
        u = U.get(f[0])
        if u is None:
            continue
        out = {}
        for i in np.ndindex(*a.shape):
            t = 0
            for k in range(3):
                v = u[k, i[ax]]
                j = i[:ax] + (k,) + i[ax + 1:]
                t = t + (conj(v) if "*" in f else v) * a[j]
            out[i] = t
        b = np.empty(a.shape, dtype=object)
        for i, v in out.items():
            b[i] = v
        a = b
    return a


def zeros(c, skip=()):
    u = M("util").smeftutil
    return {k: (0 if s == 1 else c.array(np.zeros(s)))
            for k, s in u.C_keys_shape.items() if k not in skip}


def rotation(part, n):
    """Both flavour rotation functions rotate every index with its field."""
    def f(c):
        fams = sorted(FIELDS)[part::n]
        S = M("run.smeft.classes").SMEFT
        w = M("util.smeft_warsaw")
        U = {x: c.carray("U" + x, (3, 3)) for x in "qudle"}
        for k in fams:
            C = arr(c, "C" + k, (3,) * len(FIELDS[k]))
            want = rotate(C, FIELDS[k], U)
            got = w.flavor_rotation({k: C}, U["q"], U["u"], U["d"], U["l"],
                                    U["e"])
            c.ok("only what is given", set(got) == {k})
            c.eq(k, got[k], want)
            c.witness(k, got[k])
        full = zeros(c, fams)
        for k in fams:
            full[k] = arr(c, "C" + k, (3,) * len(FIELDS[k]))
        got = S._flavor_rotation(full, U["q"], U["u"], U["d"], U["l"], U["e"])
        c.ok("all keys", set(got) == set(full))
        for k in fams:
            c.eq(f"SMEFT {k}", got[k], rotate(full[k], FIELDS[k], U))
        for k in set(full) - set(fams):
            c.eq(f"SMEFT zero {k}", got[k], got[k] * 0)
        for k in fams:
            c.eq(f"input {k}", full[k],
                 arr(c, "C" + k, (3,) * len(FIELDS[k])))
    return H(f"field rotation {part + 1}/{n}", f, cost=5)


def rot_sm(c):
    """SM parameters under the flavour rotation; bosonic coefficients."""
    u = M("util").smeftutil
    S = M("run.smeft.classes").SMEFT
    w = M("util.smeft_warsaw")
    U = {x: c.carray("U" + x, (3, 3)) for x in "qudle"}
    C = zeros(c)
    scal = [k for k, s in u.C_keys_shape.items() if s == 1]
    for k in scal:
        C[k] = c.real(k)
    for k in YUK:
        C[k] = c.carray(k, (3, 3))
    args = U["q"], U["u"], U["d"], U["l"], U["e"]
    got = S._flavor_rotation(C, *args)
    for k in YUK:
        c.eq(k, got[k], rotate(C[k], YUK[k], U))
    for k in scal:
        c.eq(k, got[k], C[k])
    got2 = S._flavor_rotation(C, *args, sm_parameters=False)
    c.ok("without SM parameters", set(got2) == set(u.WC_keys))
    bos = [k for k in scal if k in u.WC_keys]
    for k in bos:
        c.eq(f"{k} (2)", got2[k], C[k])
    g = w.flavor_rotation({k: C[k] for k in bos}, *args)
    c.eq("bosonic", g, {k: C[k] for k in bos}, keys="strict")


# ------------------------------------------------------------- translators
PARS = [None, {"Vcb": 0.05, "Vub": 0.0}, {"Vus": 0.3, "Vub": 0.02, "Vcb": 0.1,
                                  "gamma": -0.7, "m_b": 3.0}]


def full(par):
    p = dict(M("parameters").p)
    p.update(par or {})
    return p


def ckm(c, p):
    return ckm_args(c, p["Vus"], p["Vub"], p["Vcb"], p["gamma"])


def ckm_args(c, *a, **k):
    import ckmutil.ckm
    if not c.symbolic or k:
        return _ORIG[0](*a, **k)
    return arr(c, "V(" + ",".join(repr(float(x)) for x in a) + ")", (3, 3))


def arr(c, name, shape):
    """The symbolic array of this name (made once)."""
    if not hasattr(c, "arrs"):
        c.arrs = {}
    if name not in c.arrs:
        c.arrs[name] = c.carray(name, shape)
    return c.arrs[name].copy()


_ORIG = [None]


def ckm_stub(c):
    m = M("translate.smeft").ckmutil.ckm
    if _ORIG[0] is None:
        _ORIG[0] = m.ckm_tree
    return {(m, "ckm_tree"): lambda *a, **k: ckm_args(c, *a, **k)}


def sym_arrays(c, w, flags):
    """Symmetric arrays of the coefficients w, from the definition."""
    out = {}
    for k, v in w.items():
        if "_" not in k:
            out[k] = v
            continue
        f = k.split("_")[0]
        if f not in out:
            out[f] = np.zeros((3,) * len(FIELDS[f]), dtype=object)
    u = M("util").smeftutil.wcxf2arrays_symmetrized(w)
    return {k: u[k] for k in out}


HEAVY = ["qqql", "qq1", "qq3", "qque"]


def groups(n):
    """Families: the expensive ones alone, the others in n groups."""
    rest = sorted(set(by_family(realflags("SMEFT", "Warsaw"))) - set(HEAVY))
    return [[k] for k in HEAVY] + [rest[i::n] for i in range(n)]


def to_up(direction, part, n, tier):
    """The translators rotate the left-handed quark doublet by the CKM matrix
    of the parameters given."""
    def f(c):
        src, dst = ("Warsaw", "Warsaw up")[::direction]
        fl = realflags("SMEFT", src)
        fams = groups(n)[part]
        fl = {k: r for k, r in fl.items() if k.split("_")[0] in fams}
        par = c.choice("parameters", PARS[-1:] if part < len(HEAVY) and
                       tier == "quick" else PARS)
        w = coeffs(c, fl)
        m = M("wcxf.classes")
        p = full(par)
        V = ckm(c, p)
        U = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                U[i, j] = conj(V[j, i]) if direction == 1 else V[i, j]
        got = m.Translator["SMEFT", src, dst].function(
            dict(w), scale=160, parameters=par, sectors=None)
        C = sym_arrays(c, w, fl)
        want = {}
        for k, a in C.items():
            want[k] = a if k not in FIELDS else rotate(a, FIELDS[k], {"q": U})
        arr = M("util").smeftutil.wcxf2arrays_symmetrized(got)
        for k in want:
            if k in FIELDS:
                # real-flagged entries are compared in their real part
                for i in np.ndindex(*arr[k].shape):
                    c.eq(f"{k}{i}", arr[k][i], want[k][i])
            else:
                c.eq(k, arr[k], want[k])
        for k in set(arr) - set(want):
            c.eq(f"zero {k}", arr[k], arr[k] * 0)
        c.ok("basis keys only", set(got) <= set(realflags("SMEFT", dst)))
        c.witness("values", got)
    return H(f"{'to' if direction == 1 else 'from'} Warsaw up "
             f"{','.join(groups(n)[part][:2])}..", f, stubs=ckm_stub,
             cost=10 + 20 * (part == 0), ne_flips=0)


def inverse(direction, part, n, tier):
    """Warsaw -> Warsaw up -> Warsaw is the identity (and vice versa)."""
    def f(c):
        m = M("wcxf.classes")
        a, b = ("Warsaw", "Warsaw up") if direction == 1 else \
            ("Warsaw up", "Warsaw")
        fl = realflags("SMEFT", a)
        fams = groups(n)[part]
        fl = {k: r for k, r in fl.items() if k.split("_")[0] in fams}
        par = c.choice("parameters", PARS[-1:] if part < len(HEAVY) and
                       tier == "quick" else PARS)
        w = coeffs(c, fl)
        x = m.Translator["SMEFT", a, b].function(
            dict(w), scale=160, parameters=par, sectors=None)
        y = m.Translator["SMEFT", b, a].function(
            dict(x), scale=160, parameters=par, sectors=None)
        c.eq("back", y, w)
        c.witness("x", x)
    return H(f"inverse {a_name(direction)} {','.join(groups(n)[part][:2])}..",
             f, cost=8 + 20 * (part == 0), ne_flips=0)


def a_name(d):
    return "from Warsaw" if d == 1 else "from Warsaw up"


def msvd_stub(c):
    s = ckm_stub(c)
    d = M("translate.smeft").ckmutil.diag

    def msvd(m):
        # result depends on the matrix handed over: any three values; the
        # matrix itself is what the harness compares
        c.seen = m
        return None, c.sv, None
    s[d, "msvd"] = msvd
    return s


def mass(c):
    """Warsaw mass: up-type chirality-flipping coefficients rotated on the
    left-handed index, Weinberg operator diagonal, everything else equal."""
    m = M("wcxf.classes")
    fl = realflags("SMEFT", "Warsaw")
    fams = {"uphi", "uG", "uW", "uB", "llphiphi", "dphi", "phiq1", "phi",
            "lequ1", "ll"}
    fl = {k: r for k, r in fl.items() if k.split("_")[0] in fams}
    par = c.choice("parameters", PARS)
    w = coeffs(c, fl)
    V = ckm(c, full(par))
    c.sv, c.seen = c.rarray("sv", (3,), 0, 1), None
    got = m.Translator["SMEFT", "Warsaw", "Warsaw mass"].function(
        dict(w), scale=160, parameters=par, sectors=None)
    for k in w:
        f = k.split("_")[0]
        if f in ("uphi", "uG", "uW", "uB"):
            i, j = idx(k)
            c.eq(k, got[k], sum(V[i, l] * w[f"{f}_{l + 1}{j + 1}"]
                                for l in range(3)))
        elif f == "llphiphi":
            i, j = idx(k)
            c.eq(k, got[k], c.sv[i] if i == j else 0)
        else:
            c.eq(k, got[k], w[k])
    for i in range(3):
        for j in range(3):
            k = f"llphiphi_{min(i, j) + 1}{max(i, j) + 1}"
            c.eq(f"matrix {i}{j}", c.seen[i, j], w[k])
    for k in got:
        if k not in w:
            c.eq(k, got[k], 0)
    c.witness("u", {k: v for k, v in got.items() if k[0] == "u"})


def harnesses(tier):
    n = 12
    out = [rotation(i, n) for i in range(n)] + [H("SM parameters", rot_sm)]
    n = 6
    for d in (1, -1):
        out += [to_up(d, i, n, tier) for i in range(n + len(HEAVY))]
        out += [inverse(d, i, n, tier) for i in range(n + len(HEAVY))]
    return out + [H("Warsaw mass", mass, stubs=msvd_stub, ne_flips=0)]
