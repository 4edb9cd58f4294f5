"""One-loop evolution of scalar potential, Yukawa couplings and Wilson
coefficients without derivatives (phi, uphi, dphi, ephi), from the functions
V(A) and M(A) of the four real scalar fields A:
    L = (d A)^2/2 - V(A) - (psi M(A) psi + h.c.)/2.
The general formulas for renormalisable theories (Machacek, Vaughn) hold with
field-dependent couplings M_a = dM/dA_a, V_ab, plus M_ab V_ab. What they give
beyond them is a field-dependent normalisation of the kinetic terms, which
goes into phiBox, phiD and, by redefinition of the fields, V and M."""
from itertools import product

import numpy as np

# fields without colour: (species, isospin), 3 generations each
SPECIES = [("q", 0), ("q", 1), ("l", 0), ("l", 1), ("u", 0), ("d", 0),
           ("e", 0)]
NC = {"q": 3, "u": 3, "d": 3, "l": 1, "e": 1}
Y = {"q": 1 / 6, "l": -1 / 2, "u": -2 / 3, "d": 1 / 3, "e": 1.}
POS = {s: 3 * i for i, s in enumerate(SPECIES)}
N = 21
COLOURS = np.array([NC[s] for s, i in SPECIES for g in range(3)], float)


def tensor(Ys):
    """B_a of L = -psi (A_a B_a) psi/2 - h.c. for the Yukawa matrices."""
    B = np.zeros((4, N, N), complex)
    for n, left, s in (("Gu", "q", "u"), ("Gd", "q", "d"), ("Ge", "l", "e")):
        # hermitian conjugate of qbar Y s phi: q, s^c and the conjugate of phi
        y = np.conj(Ys[n]) / np.sqrt(2)
        for i in range(2):
            if n == "Gu":
                m, sign, im = 1 - i, 1 - 2 * i, 1j
            else:
                m, sign, im = i, 1, -1j
            p, r = POS[left, i], POS[s, 0]
            for a, z in ((2 * m, 1), (2 * m + 1, im)):
                B[a, p:p + 3, r:r + 3] += sign * z * y
                B[a, r:r + 3, p:p + 3] += sign * z * y.T
    return B


def matrices(M):
    """Yukawa matrices of M, at A = (0, 0, 1, 0) or for phi_2 = 1/sqrt2."""
    s = np.sqrt(2)
    q0, q1, l1 = POS["q", 0], POS["q", 1], POS["l", 1]
    u, d, e = POS["u", 0], POS["d", 0], POS["e", 0]
    return {"Gu": np.conj(M[q0:q0 + 3, u:u + 3]) * s,
            "Gd": np.conj(M[q1:q1 + 3, d:d + 3]) * s,
            "Ge": np.conj(M[l1:l1 + 3, e:e + 3]) * s}


def generators():
    """[(group, fermions, scalars)]; colour apart."""
    out = []
    pauli = [np.array(x) / 2 for x in ([[0, 1], [1, 0]], [[0, -1j], [1j, 0]],
                                       [[1, 0], [0, -1]])]
    for group, T, t in [("gp", None, np.eye(2) / 2)] + \
            [("g", x, x) for x in pauli]:
        F = np.zeros((N, N), complex)
        for s, i in SPECIES:
            p = POS[s, i]
            if T is None:
                F[p:p + 3, p:p + 3] = Y[s] * np.eye(3)
            elif s in "ql":
                for j in range(2):
                    r = POS[s, j]
                    F[p:p + 3, r:r + 3] = T[i, j] * np.eye(3)
        S = np.zeros((4, 4), complex)
        for m, k in product(range(2), range(2)):
            z = 1j * t[m, k]
            S[2 * m:2 * m + 2, 2 * k:2 * k + 2] = [[z.real, -z.imag],
                                                   [z.imag, z.real]]
        out.append((group, F, -1j * S))
    return out


GEN = generators()
# A_a J_ab: the other direction of the same complex field
J = np.kron(np.eye(2), np.array([[0., -1.], [1., 0.]]))
QUARKS = np.array([s in "qud" for s, i in SPECIES for g in range(3)])


def trace(X):
    return (COLOURS * np.diag(X)).sum()


class Theory:
    def __init__(self, C):
        self.G, self.C = tensor(C), tensor({"Gu": C["uphi"], "Gd": C["dphi"],
                                            "Ge": C["ephi"]})
        self.p = C

    def potential(self, A):
        """V and its derivatives by A.A/2."""
        s, p = A @ A / 2, self.p
        return (-p["m2"] * s + p["Lambda"] / 2 * s ** 2 - p["phi"] * s ** 3,
                -p["m2"] + p["Lambda"] * s - 3 * p["phi"] * s ** 2,
                p["Lambda"] - 6 * p["phi"] * s)

    def mass(self, A):
        """M, M_a, M_ab."""
        s, d = A @ A / 2, np.eye(4)
        x = np.einsum("a,aij->ij", A, self.C)
        M = np.einsum("a,aij->ij", A, self.G) - s * x
        Ma = self.G - s * self.C - np.einsum("a,ij->aij", A, x)
        Mab = -(np.einsum("a,bij->abij", A, self.C)
                + np.einsum("b,aij->abij", A, self.C)
                + np.einsum("ab,ij->abij", d, x))
        return M, Ma, Mab

    def beta(self, v):
        """Derivatives of V and M at A = (0, 0, v, 0), and of phiBox and
        phiD (times v^2)."""
        A = np.array([0, 0, v, 0.])
        V, V1, V2 = self.potential(A)
        M, Ma, Mab = self.mass(A)
        Va = V1 * A
        Vab = V1 * np.eye(4) + V2 * np.outer(A, A)
        p = self.p
        CS = sum(p[g] ** 2 * (S @ S).real for g, F, S in GEN)
        K = np.array([[trace(x.conj().T @ y).real for y in Ma] for x in Ma])
        K0 = np.array([[trace(x.conj().T @ y).real for y in self.G]
                       for x in self.G])
        K = K - K0
        # K = alpha s + beta A A + gamma JA JA + eps (A JA + JA A)
        e = A / v if v else A
        f = J @ e
        o = 0                       # a direction orthogonal to both
        s = v * v / 2
        alpha = K[o, o] / s
        b = (e @ K @ e - K[o, o]) / v ** 2
        gamma = (f @ K @ f - K[o, o]) / v ** 2
        eps = e @ K @ f / v ** 2
        dA = (K0 - 3 * CS) @ A + alpha * s * A + 2 * eps * s * (J @ A)
        mv = np.array([[p[g] * p[h] * (A @ (S @ T + T @ S) @ A).real / 2
                        for h, _, T in GEN] for g, _, S in GEN])
        MM = M @ M.conj().T
        bV = (Vab ** 2).sum() / 2 - trace(MM @ MM).real + \
            3 / 2 * (mv ** 2).sum() + Va @ dA
        Y2 = sum(x.conj().T @ x for x in Ma)
        bM = (Y2.T @ M + M @ Y2) / 2 + \
            2 * sum(x @ M.conj().T @ x for x in Ma) + \
            np.einsum("ab,abij->ij", Vab, Mab) + \
            np.einsum("a,aij->ij", dA, Ma)
        for g, F, S in GEN:
            bM = bM + 6 * p[g] ** 2 * F.T @ M @ F
        bM = bM - 8 * p["gs"] ** 2 * M * np.outer(QUARKS, QUARKS)
        # psi^+ s^mu d_mu(X) psi, removed by a rotation of psi
        Z = sum(x.conj().T @ y for x, y in
                zip(Ma, np.einsum("a,baij->bij", e, Mab)))
        X = v / 4 * (Z - Z.conj().T)
        bM = bM + X.T @ M + M @ X
        return bV, bM, (b - alpha - gamma), -4 * gamma


def dimension5(C):
    """The part of the derivative of llphiphi linear in it."""
    h = np.zeros((4, 4, N, N), complex)     # second derivatives of M
    w = {0: np.array([0, 0, 1, 1j]), 1: np.array([-1, -1j, 0, 0])}
    for i, k in product(range(2), range(2)):
        p, r = POS["l", i], POS["l", k]
        h[:, :, p:p + 3, r:r + 3] = np.einsum("a,b,ij->abij", w[i], w[k],
                                              C["llphiphi"])
    h = (h + h.transpose(1, 0, 2, 3)) / 2
    T = Theory(dict(C, phi=0, **{k: np.zeros((3, 3)) for k in
                                 ("uphi", "dphi", "ephi")}))
    A = np.array([0, 0, 1., 0])
    V, V1, V2 = T.potential(A)
    Vab = V1 * np.eye(4) + V2 * np.outer(A, A)
    CS = sum(C[g] ** 2 * (S @ S).real for g, F, S in GEN)
    K = np.array([[trace(x.conj().T @ y).real for y in T.G] for x in T.G])
    dA = (K - 3 * CS) @ A

    def derivative(eps):
        M, Ma, Mab = T.mass(A)
        Mab = Mab + eps * h
        Ma = Ma + eps * np.einsum("abij,b->aij", h, A)
        M = M + eps * np.einsum("abij,a,b->ij", h, A, A) / 2
        Y2 = sum(x.conj().T @ x for x in Ma)
        b = (Y2.T @ M + M @ Y2) / 2 + \
            2 * sum(x @ M.conj().T @ x for x in Ma) + \
            np.einsum("ab,abij->ij", Vab, Mab) + \
            np.einsum("a,aij->ij", dA, Ma)
        # derivative of the field, removed by a redefinition of the fermions
        Z = sum(x.conj().T @ y for x, y in zip(Ma, Mab[2]))
        X = (Z - Z.conj().T) / 2
        b = b + X.T @ M + M @ X
        for g, F, S in GEN:
            b = b + 6 * C[g] ** 2 * F.T @ M @ F
        return b
    b = (8 * (derivative(.5) - derivative(-.5)) -
         (derivative(1.) - derivative(-1.))) / 6
    p = POS["l", 0]
    return {"llphiphi": 2 * b[p:p + 3, p:p + 3]}


POINTS = (.5, 1., 1.5, 2.)
SIZES = (-1., -.5, .5, 1.)


def coefficients(V, M, box, D):
    """Of the terms in the Lagrangian, from V and M at POINTS."""
    W, out = np.array(POINTS), {}
    a = np.linalg.solve(np.array([W ** n for n in (2, 4, 6, 0)]).T,
                        np.array(V))
    out["m2"], out["Lambda"], out["phi"] = -2 * a[0], 8 * a[1], -8 * a[2]
    b = np.linalg.solve(np.array([W ** n for n in (1, 3, 5, 7)]).T,
                        np.array(M).reshape(len(W), -1))
    out.update(matrices(b[0].reshape(N, N)))
    c = matrices(b[1].reshape(N, N))
    out.update(uphi=-2 * c["Gu"], dphi=-2 * c["Gd"], ephi=-2 * c["Ge"])
    out["phiBox"], out["phiD"] = box, D
    return out


def linear(C, keys):
    """The part of all derivatives linear in the coefficients C[k], k in keys,
    for the couplings in C."""
    f = {}
    for e in SIZES:
        T = Theory(dict(C, **{k: e * np.asarray(C[k]) for k in keys}))
        f[e] = [T.beta(v) for v in POINTS]

    def first(i, n):
        g = {e: np.asarray(f[e][i][n]) for e in f}
        return (8 * (g[.5] - g[-.5]) - (g[1.] - g[-1.])) / 6
    return coefficients([first(i, 0) for i in range(4)],
                        [first(i, 1) for i in range(4)], first(1, 2),
                        first(1, 3))


def constant(C):
    """The derivatives in the renormalisable theory."""
    T = Theory(dict(C, phi=0, **{k: np.zeros((3, 3)) for k in
                                 ("uphi", "dphi", "ephi")}))
    x = [T.beta(v) for v in POINTS]
    return coefficients([y[0] for y in x], [y[1] for y in x], 0, 0)


COUPLINGS = ("g", "gp", "gs", "Lambda", "m2", "y")
GAUGE = [("g", "g"), ("gp", "gp"), ("gs", "gs")]
MONOMIALS = {
    "linear": [(), *GAUGE, ("g", "gp"), ("Lambda",), ("m2",), ("y",),
               ("y", "y"), ("y",) * 3, ("y", "Lambda"), ("y", "m2"),
               ("y", "g", "gp"), *[("y", *x) for x in GAUGE]],
    "constant": [("y",) * 3, *[("y", *x) for x in GAUGE], ("Lambda",) * 2,
                 *[("Lambda", *x) for x in GAUGE], ("Lambda", "y", "y"),
                 ("y",) * 4, ("g",) * 4, ("gp",) * 4, ("g", "g", "gp", "gp"),
                 ("m2", "Lambda"), ("m2", "y", "y"),
                 *[("m2", *x) for x in GAUGE]]}


def expansion(kind, Y, f):
    """{monomial: {name: array}} of f(C), a polynomial in the couplings."""
    mono = MONOMIALS[kind]
    rs, rows, vals = np.random.RandomState(1), [], []
    for i in range(len(mono) + 3):
        x = dict(zip(COUPLINGS, rs.uniform(-1.5, 1.5, len(COUPLINGS))))
        rows.append([np.prod([x[n] for n in m]) for m in mono])
        vals.append(f(dict(x, **{n: x["y"] * Y[n] for n in Y})))
    rows, out = np.array(rows), {m: {} for m in mono}
    for n in vals[0]:
        b = np.array([v[n] for v in vals])
        sh = b.shape[1:]
        b = b.reshape(len(vals), -1)
        a = np.linalg.lstsq(rows, b, rcond=None)[0]
        if abs(rows @ a - b).max() > 1e-9 * max(1, abs(b).max()):
            raise AssertionError(f"{n}: not of the expected form")
        a[abs(a) < 1e-11 * max(1, abs(b).max())] = 0
        for m, y in zip(mono, a):
            if y.any():
                out[m][n] = y.reshape(sh)
    return out
