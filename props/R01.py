"""SMEFT beta functions: structure every one-loop RGE must have."""
import numpy as np

from vlib.h import *
from vlib import sym

from . import T01, flavour

BOUNDS = ("All 2499 real degrees of freedom of the Wilson coefficients "
          "symbolic at once (linearity, symmetries, CP) or family by family "
          "(flavour covariance), of any size; couplings and Yukawa matrices "
          "at fixed generic complex points, all symbolic for the Standard "
          "Model part of the gauge and Higgs couplings; generic dense unitary "
          "matrices for the five fermion fields.")
ASSUMPTIONS = ["The memoised einsum of beta.py is replaced by einsum except "
               "where its memory is the subject."]

POINTS = {0: dict(g=.6, gp=.35, gs=1.1, Lambda=.3, m2=.7),
          1: dict(g=.9, gp=-.7, gs=.4, Lambda=-.2, m2=-1.3)}


def generic(seed):
    r = np.random.RandomState(seed)
    return (r.rand(3, 3) - .5) + 1j * (r.rand(3, 3) - .5)


def yukawas(pt):
    return {k: generic(10 * pt + i + 1) for i, k in
            enumerate(("Gu", "Gd", "Ge"))}


def unitaries():
    """For every field: generic phases, a rotation in one plane (another one
    for each field) and a cyclic permutation."""
    out = {}
    for i, f in enumerate("qudle"):
        U = np.diag(np.exp(1j * np.array([.3 + i, 1.7 * i - 2, .9 - 2.1 * i])))
        a, b = [(0, 1), (1, 2), (0, 2)][i % 3]
        R = np.eye(3)
        R[a, a] = R[b, b] = .8
        R[a, b], R[b, a] = .6, -.6
        out[f] = U @ R @ np.roll(np.eye(3), 1, axis=i % 2)
    return out


def arrays(c, d, pt, Y=None):
    """Coefficient and SM parameter arrays for the coefficients d."""
    u = M("util").smeftutil
    C = T01.zeros(c)
    C.update(u.wcxf2arrays_symmetrized(d))
    C.update(POINTS[pt])
    C.update({k: c.array(v) for k, v in (Y or yukawas(pt)).items()})
    return C


def rhs(C, corrected=False, **k):
    """Right-hand side of the RGE, as it is used: C(mu) for log mu = 16 pi^2
    in the leading-log solution, minus C."""
    r = M("run.smeft.rge")
    out = r.smeft_evolve_leadinglog(C, 1., float(np.e), **k)
    out = {k: (v - C[k]) * (16 * np.pi ** 2) for k, v in out.items()}
    if corrected:
        out["dphi"] = out["dphi"] + quqd1_term(C)
    return out


def quqd1_term(C):
    """What is wrong with the beta function of dphi (known_findings.json): a
    product of up-type Yukawa matrices is the hermitian conjugate of what it
    should be."""
    G = C["Gu"]
    return 12 * np.einsum("tprs,pt", C["quqd1"],
                          G @ G.conj().T @ G - G.conj().T @ G @ G.conj().T)


def known_defect():
    """Is the known defect present? Rephasing u_R must not change dphi."""
    u, beta = M("util").smeftutil, M("run.smeft.beta").beta
    C = {k: np.zeros(s if s != 1 else (), complex)[()]
         for k, s in u.C_keys_shape.items()}
    C.update(POINTS[0], Gu=generic(77),
             quqd1=np.random.RandomState(3).rand(3, 3, 3, 3) + 0j)
    P = np.diag([1, 1j, -1])
    Q = dict(C, Gu=C["Gu"] @ P,
             quqd1=np.einsum("abcd,bx->axcd", C["quqd1"], P))
    x, y = beta(C)["dphi"], beta(Q)["dphi"]
    return not np.allclose(x, y) and np.allclose(x + quqd1_term(C),
                                                 y + quqd1_term(Q))


def stubs(c):
    return {(M("run.smeft.beta"), "my_einsum"): np.einsum}


def families(bosonic=False):
    u = M("util").smeftutil
    fl = realflags("SMEFT", "Warsaw")
    fam = by_family(fl)
    return fl, fam


def groups(n):
    """The coefficients in n groups of whole families."""
    fl, fam = families()
    out = [[] for i in range(n)]
    for k in sorted(fam, key=lambda k: -len(fam[k])):
        min(out, key=len).extend(fam[k])
    return [sub(fl, g) for g in out]


def structure(pt, i, n):
    """Index symmetries, hermiticity, linearity, zero input."""
    def f(c):
        u = M("util").smeftutil
        d = coeffs(c, groups(n)[i])
        C = arrays(c, d, pt)
        b = rhs(C)
        c.ok("all keys", set(b) == set(C))
        for k in u.WC_keys:
            check_sym(c, k, SMEFT_CLASS[k], b[k])
        for k in ("g", "gp", "gs", "Lambda", "m2"):
            c.eq(f"{k}: real", b[k], np.real(b[k]), floor=.1)
        c.witness("running", b[list(d)[0].split("_")[0]])
        C2 = arrays(c, {k: 2 * v for k, v in d.items()}, pt)
        b2 = rhs(C2)
        C0 = arrays(c, {}, pt)
        b0 = rhs(C0)
        for k in u.WC_keys:
            c.eq(f"{k}: linear", b2[k], 2 * b[k], floor=.1)
            c.eq(f"{k}: zero", b0[k], b0[k] * 0, floor=.1)
        for k in u.dim4_keys:
            c.eq(f"{k}: linear", b2[k] - b[k], b[k] - b0[k], floor=.1)
    return H(f"structure, point {pt}, {i + 1}/{n}", f, stubs=stubs, floats=True, cost=20)


def cp(pt, i, n):
    def f(c):
        d = coeffs(c, groups(n)[i])
        a = rhs(arrays(c, d, pt))
        Y = {k: v.conj() for k, v in yukawas(pt).items()}
        b = rhs(arrays(c, flavour.cp(c, d), pt, Y))
        for k, v in a.items():
            c.eq(k, b[k], flavour.cp(c, {k: v})[k] if np.ndim(v) == 0
                 else np.conj(v), floor=.1)
    return H(f"CP, point {pt}, {i + 1}/{n}", f, stubs=stubs, floats=True, cost=20)


def covariance(names, pt, label, corrected=False):
    """Rotating all fields commutes with the running."""
    def f(c):
        fl, fam = families()
        U = {k: c.array(v) for k, v in unitaries().items()}
        Y = {k: T01.rotate(v, T01.YUK[k], unitaries())
             for k, v in yukawas(pt).items()}
        Y = {k: v.astype(complex) for k, v in Y.items()}
        d = coeffs(c, sub(fl, [x for n in names for x in fam[n]]))
        C = arrays(c, d, pt)
        a = rhs(C, corrected)
        R = dict(C)
        for n in names:
            R[n] = T01.rotate(C[n], T01.FIELDS[n], unitaries())
        R.update({k: c.array(v) for k, v in Y.items()})
        b = rhs(R, corrected)
        for k, v in a.items():
            w = T01.rotate(v, (T01.FIELDS | T01.YUK)[k], unitaries()) \
                if np.ndim(v) else v
            c.eq(k, b[k], w, floor=.1)
        c.witness(names[0], b[names[0]])
    return H(label, f, stubs=stubs, floats=True, cost=15)


MIRROR = dict(Gu="Gd", Gd="Gu", uphi="dphi", dphi="uphi", uG="dG", dG="uG",
              uW="dW", dW="uW", uB="-dB", dB="-uB", phil1="-phil1",
              phiq1="-phiq1", phie="-phie", phiu="-phid", phid="-phiu",
              uu="dd", dd="uu", qu1="qd1", qd1="qu1", qu8="qd8", qd8="qu8",
              lu="ld", ld="lu", eu="ed", ed="eu")
NO_MIRROR = ("Ge", "ephi", "eW", "eB", "ledq", "lequ1", "lequ3", "llphiphi",
             "duql", "qque", "qqql", "duue")


def mirrored(C):
    """phi -> tilde phi, u_R -> -d_R, d_R -> u_R, B -> -B."""
    out = {}
    for k in C:
        s = MIRROR.get(k, k)
        x = C[s.lstrip("-")]
        if k in ("ud1", "ud8", "quqd1", "quqd8"):
            x = np.transpose(x, (2, 3, 0, 1))
        elif k == "phiud":
            x = np.conj(np.transpose(x))
        out[k] = -x if s[0] == "-" else x
    return out


def mirror(pt, corrected, i, n):
    """Without hypercharge and lepton Yukawa coupling, up- and down-type
    right-handed quarks may be exchanged (custodial symmetry)."""
    def f(c):
        fl = {k: v for k, v in groups(n)[i].items()
              if k.split("_")[0] not in NO_MIRROR}
        C = arrays(c, coeffs(c, fl), pt)
        C.update(gp=0., Ge=c.array(np.zeros((3, 3))))
        a = rhs(C, corrected)
        b = rhs(mirrored(C), corrected)
        m = mirrored(a)
        for k in a:
            if k not in NO_MIRROR:
                c.eq(k, b[k], m[k], floor=.1)
    return H(f"up-down mirror, point {pt}, {i + 1}/{n}", f, stubs=stubs, floats=True,
             cost=20)


def standard_model(pt):
    """One-loop beta functions of the Standard Model."""
    def f(c):
        g, p, s, L, m2 = (c.real(x, -2, 2)
                          for x in ("g", "gp", "gs", "Lambda", "m2"))
        Y = {k: c.array(v) for k, v in yukawas(pt).items()}
        C = T01.zeros(c)
        C.update(Y, g=g, gp=p, gs=s, Lambda=L, m2=m2)
        sq = {k: v @ v.conj().T for k, v in yukawas(pt).items()}
        N = {"Gu": 3, "Gd": 3, "Ge": 1}
        T = sum(N[k] * np.trace(v).real for k, v in sq.items())
        T4 = sum(N[k] * np.trace(v @ v).real for k, v in sq.items())
        y = {"q": (6, 1 / 6), "u": (3, 2 / 3), "d": (3, -1 / 3),
             "l": (2, -1 / 2), "e": (1, -1)}
        b1 = 2 / 3 * 3 * sum(n * h * h for n, h in y.values()) + \
            1 / 3 * 2 / 4
        w = {"gp": b1 * p ** 3,
             "g": (-22 / 3 + 1 / 3 * 3 * 4 + 1 / 6) * g ** 3,
             "gs": (-11 + 2 / 3 * 6) * s ** 3,
             "Lambda": 12 * L ** 2 - (9 * g ** 2 + 3 * p ** 2) * L +
             9 / 4 * g ** 4 + 3 / 2 * g ** 2 * p ** 2 + 3 / 4 * p ** 4 +
             4 * T * L - 4 * T4,
             "m2": m2 * (6 * L - 9 / 2 * g ** 2 - 3 / 2 * p ** 2 + 2 * T)}
        for k, (a, o) in {"Gu": (17 / 12, "Gd"), "Gd": (5 / 12, "Gu"),
                          "Ge": (15 / 4, None)}.items():
            x = 3 / 2 * sq[k]
            if o:
                x = x - 3 / 2 * sq[o]
            Yk = yukawas(pt)[k]
            w[k] = c.array(x @ Yk + T * Yk) - c.array(Yk) * (
                9 / 4 * g ** 2 + a * p ** 2 + (8 * s ** 2 if o else 0))
        for np_ in (True, False):
            b = rhs(C, newphys=np_)
            for k in b:
                c.eq(f"{k} {np_}", b[k], w.get(k, C[k] * 0), floor=.1)
        # without new physics: coefficients do not run
        d = coeffs(c, sub(realflags("SMEFT", "Warsaw"),
                          ["phi", "qu1_1233", "uphi_33", "phiq3_12"]))
        C.update({k: v for k, v in
                  M("util").smeftutil.wcxf2arrays_symmetrized(d).items()})
        b = rhs(C, newphys=False)
        for k in M("util").smeftutil.WC_keys:
            c.eq(f"{k} constant", b[k], b[k] * 0, floor=.1)
    return H(f"Standard Model, point {pt}", f, stubs=stubs, cost=5)


def memory(c):
    """The memoised einsum gives einsum, whatever was computed before."""
    b = M("run.smeft.beta")
    A = [c.carray(f"A{i}", (2,), bound=1) for i in range(2)]
    B = c.carray("B", (2,), bound=1)
    i = c.choice("first", range(2))
    order = c.choice("indices", ["a,b->ab", "b,a->ab"])
    b.my_einsum("a,b->ab", A[i], B)
    c.eq("second", b.my_einsum(order, A[1 - i], B),
         np.einsum(order, A[1 - i], B))
    c.eq("again", b.my_einsum("a,b->ab", A[i], B),
         np.einsum("a,b->ab", A[i], B))


def memory_stubs(c):
    b = M("run.smeft.beta")
    return {(b.HashableArray, "__hash__"): lambda self: 1} if c.symbolic \
        else {}


def harnesses(tier):
    bad = known_defect()
    n = 4
    out = []
    for pt in (0, 1):
        for i in range(n):
            if pt == 0 or tier == "thorough":
                out.append(structure(pt, i, n))
                out.append(mirror(pt, bad, i, n))
            out.append(cp(pt, i, n))
        out.append(standard_model(pt))
    out.append(H("memoised einsum", memory, stubs=memory_stubs, ne_flips=20))
    fam = [n for n in families()[1] if n in T01.FIELDS]
    big = [n for n in fam if len(T01.FIELDS[n]) == 4]
    small = [n for n in fam if len(T01.FIELDS[n]) == 2]
    for n in big:
        out.append(covariance([n], 0, f"flavour rotation: {n}"))
    if bad:
        out.append(covariance(["quqd1"], 0,
                              "flavour rotation, dphi corrected: quqd1",
                              True))
    for pt in (0, 1):
        out.append(covariance(small, pt,
                              f"flavour rotation: two-fermion, point {pt}"))
    return out
