"""Solving the SMEFT RGE and the SMEFT class."""
import itertools
import math

import numpy as np

from vlib.h import *
from vlib import sym

from . import R01, R03, T01

BOUNDS = ("Wilson coefficients of groups of families symbolic at once, any "
          "size; Standard Model parameters at generic complex points; pairs of "
          "scales in both directions; 2 further points of the integration at "
          "which the right-hand side is evaluated.")
ASSUMPTIONS = ["scipy's integrator is replaced by one that records what it is "
               "asked to integrate and makes one explicit Euler step; "
               "ckmutil's decompositions act on matrices at fixed values."]

FAMS = ["phi", "phiBox", "phiW", "uG", "uphi", "eB", "phiq3", "phiud",
        "ll", "ee", "qu1", "lq3", "ledq", "quqd8", "qqql", "duue", "llphiphi"]
SCALES = [(1000., 91.1876), (91.1876, 5000.), (800., 800.)]


class Solution:
    pass


def integrator(c):
    """One Euler step; the intermediate columns are something else."""
    calls = []

    def solve_ivp(fun, t_span, y0, **kw):
        calls.append((fun, t_span, y0, kw))
        t0, t1 = t_span
        dy = fun(t0, y0)
        s = Solution()
        end = y0 + (t1 - t0) * dy
        cols = [y0, y0 * 3.7, end]
        s.y = np.stack(cols).T if not c.symbolic else \
            np.array([list(x) for x in cols], dtype=object).T
        if c.symbolic:
            s.y = c.array(s.y)
        s.sol = lambda t: y0 + (t - t0) * dy
        s.t = np.array([t0, (t0 + t1) / 2, t1])
        s.success = True
        return s
    solve_ivp.calls = calls
    return solve_ivp


def reference(C, newphys=True):
    """d C / d log mu, from the beta functions with the symmetries of the
    operators restored."""
    b = M("run.smeft.beta").beta(C, newphys=newphys)
    ee, q = b["ee"], b["qqql"]
    b["ee"] = (ee + ee.transpose(2, 1, 0, 3)) / 2
    b["qqql"] = (4 * q + 2 * q.transpose(2, 1, 0, 3)
                 + q.transpose(1, 2, 0, 3) + q.transpose(2, 0, 1, 3)
                 - q.transpose(1, 0, 2, 3) - q.transpose(0, 2, 1, 3)) / 6
    return {k: v / (16 * np.pi ** 2) for k, v in b.items()}


def point(c, fams, pt):
    fl, fam = R01.families()
    d = coeffs(c, sub(fl, [x for n in fams for x in fam[n]]))
    return d, R01.arrays(c, d, pt)


def stubs(c):
    return {(M("run.smeft.beta"), "my_einsum"): np.einsum,
            (M("run.smeft.rge"), "solve_ivp"): integrator(c)}


def evolve(fams, pt, label):
    def f(c):
        r = M("run.smeft.rge")
        u = M("util").smeftutil
        d, C = point(c, fams, pt)
        s0, s1 = c.choice("scales", SCALES)
        for new in (True, False):
            b = reference(C, new)
            L = math.log(s1 / s0)
            want = {k: C[k] + b[k] * L for k in u.C_keys}
            before = {k: v.copy() if np.ndim(v) else v for k, v in C.items()}
            a = r.smeft_evolve_leadinglog(C, s0, s1, newphys=new)
            c.ok("keys", set(a) == set(u.C_keys))
            for k in u.C_keys:
                c.eq(f"leading log {k} {new}", a[k], want[k], floor=1e-3)
            if not unchanged(c, C, before):
                return
            a = r.smeft_evolve(C, s0, s1, newphys=new, rtol=1e-5, method="X")
            for k in u.C_keys:
                c.eq(f"step {k} {new}", a[k], want[k], floor=1e-3)
            if not unchanged(c, C, before):
                return
            fun, span, y0, kw = r.solve_ivp.calls[-1]
            c.ok("options", kw == dict(rtol=1e-5, method="X"))
            c.eq("from", span[0], math.log(s0))
            c.eq("to", span[1], math.log(s1))
            y = y0 * .5
            want = reference(u.C_array2dict(y.view(complex)), new)
            a = u.C_array2dict(fun(span[1], y).view(complex))
            for k in u.C_keys:
                c.eq(f"rhs {k} {new}", a[k], want[k], floor=1e-3)
    return H(f"evolution, {label}", f, stubs=stubs, floats=True, cost=20)


def numeric(f):
    """f for arrays of constants."""
    def g(*a):
        out = f(*[np.array([[complex(x) for x in r] for r in m]) for m in a])
        return tuple(x if x.ndim == 1 else arr(x) for x in out)
    arr = np.asarray
    return g


def num(a):
    return np.array([[complex(x) for x in r] for r in a])


def diagonalise(Mu, Md, Ml, Mnu):
    """Unitary matrices for q, u, d, l, e from the definition of the basis."""
    ck = M("run.smeft.classes").ckmutil
    uL, _, uR = ck.diag.msvd(Mu)
    dL, _, dR = ck.diag.msvd(Md)
    lL, _, lR = ck.diag.msvd(Ml)
    nu, _ = ck.diag.mtakfac(Mnu)
    uL, dL, uR, dR = ck.phases.rephase_standard(uL, dL, uR, dR)
    nu, lL, lR = ck.phases.rephase_pmns_standard(nu, lL, lR)
    return dict(q=dL, u=uR, d=dR, l=lL, e=lR)


def monomial(n):
    """Phases and a permutation."""
    return np.diag(np.exp(1j * np.array([.3 + n, 1.7 * n - 2, .9 - 2.1 * n]))
                   )[:, list(list(itertools.permutations(range(3)))[n % 6])]


class Fixed:
    """ckmutil for matrices that are proved to be the given ones; it returns
    some unitary matrices."""

    def __init__(self, c):
        self.c = c
        self.want = {}
        # before and after making the mixing matrices standard
        names = ["uL", "dL", "uR", "dR", "nu", "lL", "lR"]
        self.raw = {k: monomial(i) for i, k in enumerate(names)}
        self.std = {k: monomial(i + 9) for i, k in enumerate(names)}
        s = self.std
        self.U = dict(q=s["dL"], u=s["uR"], d=s["dR"], l=s["lL"], e=s["lR"])
        S = np.array([1., 2., 3.])
        r = self.raw
        self.result = {"u": (r["uL"], S, r["uR"]), "d": (r["dL"], S, r["dR"]),
                       "e": (r["lL"], S, r["lR"]), "nu": (r["nu"], S)}

    def standard(self, *names):
        def f(*a):
            for n, x in zip(names, a):
                self.c.ok("arguments", abs(num(x) - self.raw[n]).max() < 1e-9)
            return tuple(self.std[n] for n in names)
        return f

    def expect(self, C):
        """The masses are those of these coefficients."""
        v = 246.22
        s = v / math.sqrt(2)
        self.want = {f: (C["G" + f] - C[f + "phi"] * (v ** 2 / 2)) * s
                     for f in "ude"}
        self.want["nu"] = C["llphiphi"] * -v ** 2

    def find(self, m, keys):
        dist = {k: sum(float(abs(R03.size(x - y)))
                       for x, y in zip(m.ravel(), self.want[k].ravel()))
                for k in keys}
        k = min(dist, key=dist.get)
        for i in np.ndindex(3, 3):
            self.c.eq(f"mass matrix {k}", m[i], self.want[k][i], floor=1e-3)
        return self.result[k]

    def msvd(self, m):
        return self.find(m, "ude")

    def mtakfac(self, m):
        return self.find(m, ["nu"])

    def stubs(self):
        ck = M("run.smeft.classes").ckmutil
        return {(ck.diag, "msvd"): self.msvd,
                (ck.diag, "mtakfac"): self.mtakfac,
                (ck.phases, "rephase_standard"): self.standard(
                    "uL", "dL", "uR", "dR"),
                (ck.phases, "rephase_pmns_standard"): self.standard(
                    "nu", "lL", "lR")}


def values(C, U):
    """WCxf values of the coefficients in the default basis."""
    C = {k: T01.rotate(v, T01.FIELDS[k], U) if k in T01.FIELDS else v
         for k, v in C.items()}
    return M("util").smeftutil.arrays2wcxf_nonred(C)


def compare(c, label, got, C, U):
    w = values(C, U)
    for k in realflags("SMEFT", "Warsaw"):
        c.eq(f"{label} {k}", got.get(k, 0), w.get(k, 0), floor=1e-3)


FIXED = ("uphi", "dphi", "ephi", "llphiphi")


def rotation(part, n):
    """_rotate_defaultbasis: one unitary rotation per field that makes the
    masses what WCxf wants."""
    def f(c):
        S = M("run.smeft.classes").SMEFT
        fl, fam = R01.families()
        names = chunks([k for k in fam if k not in FIXED], n)[part]
        d = coeffs(c, sub(fl, [x for k in names for x in fam[k]]))
        C = R01.arrays(c, d, 0, R01.yukawas(c.choice("point", [0, 1])))
        Cn = {k: R01.generic(30 + i) * 1e-5 for i, k in
              enumerate(("uphi", "dphi", "ephi"))}
        x = R01.generic(44)
        Cn["llphiphi"] = (x + x.T) * 1e-16
        C.update({k: c.array(x) for k, x in Cn.items()})
        out = S._rotate_defaultbasis(C)
        v, m = 246.22, {}
        for k in "ude":
            m[k] = (num(C["G" + k]) - Cn[k + "phi"] * v ** 2 / 2) \
                * v / math.sqrt(2)
        U = diagonalise(m["u"], m["d"], m["e"], -v ** 2 * Cn["llphiphi"])
        for x, u in U.items():
            c.ok("unitary", abs(u @ u.conj().T - np.eye(3)).max() < 1e-9)
        for k in "ude":
            m = num(out["G" + k] - out[k + "phi"] * (v ** 2 / 2))
            if k == "u":    # V^+ diag
                diag = np.sqrt(np.diag(m.conj().T @ m).real)
                K = (m / diag).conj().T
                c.ok("CKM unitary",
                     abs(K @ K.conj().T - np.eye(3)).max() < 1e-9)
                x = K[[0, 0, 1, 2], [0, 1, 2, 2]]
                c.ok("CKM phases", abs(x.imag).max() < 1e-9)
            else:
                diag = np.diag(m)
                c.ok("diagonal " + k, abs(m - np.diag(diag)).max() < 1e-9)
            c.ok("ascending " + k, abs(diag.imag).max() < 1e-9
                 and 0 < diag[0].real < diag[1].real < diag[2].real)
        for k in M("util").smeftutil.C_keys:
            if np.ndim(C[k]):
                w = T01.rotate(C[k], dict(T01.FIELDS, **T01.YUK)[k], U)
                c.eq(k, out[k], w, floor=1e-3)
            else:
                c.eq(k, out[k], C[k])

    def st(c):
        ck = M("run.smeft.classes").ckmutil
        return {(m, k): numeric(getattr(m, k)) for m, k in (
            (ck.diag, "msvd"), (ck.diag, "mtakfac"),
            (ck.phases, "rephase_standard"),
            (ck.phases, "rephase_pmns_standard"))}
    return H(f"default basis {part + 1}/{n}", f, stubs=st, floats=True,
             cost=10)


def class_stubs(c):
    s = dict(stubs(c))
    fixed = Fixed(c)
    s.update(fixed.stubs())
    f = M("run.smeft.classes")
    s[f, "_verif_fixed"] = fixed
    return s


def smeft(d, scale, get_smpar=False, eft="SMEFT", basis="Warsaw"):
    WC = M("wcxf").WC
    w = WC(eft, basis, scale, WC.dict2values(d))
    return w, M("run.smeft.classes").SMEFT(w, get_smpar=get_smpar)


def copy(C):
    return {k: v.copy() if np.ndim(v) else v for k, v in C.items()}


def leading_log(C, s0, s1, newphys=True):
    b = reference(C, newphys)
    return {k: C[k] + b[k] * math.log(s1 / s0) for k in C}


def unchanged(c, C, want):
    """The coefficients C are what they were."""
    same = True
    for k in want:
        c.eq(f"unchanged {k}", C[k], want[k], floor=1e-3)
        if c.symbolic:
            A, B = np.asarray(C[k]).ravel(), np.asarray(want[k]).ravel()
            same = same and all(len(sym.terms(x)) <= len(sym.terms(y))
                                for x, y in zip(A, B))
    return same


def run(fams, label):
    """SMEFT.run: the solution in the default basis, whatever was done
    before."""
    def f(c):
        cl = M("run.smeft.classes")
        u = M("util").smeftutil
        fixed = cl._verif_fixed
        fl, fam = R01.families()
        d = coeffs(c, sub(fl, [x for n in fams for x in fam[n]]))
        w, s = smeft(d, 1000.)
        c.ok("coefficients only", set(s.C_in) ==
             set(u.C_keys) - set(u.dim4_keys))
        want = R01.arrays(c, d, 0)
        for k in s.C_in:
            c.eq(f"initial {k}", s.C_in[k], want[k], floor=1e-3)
        s.C_in.update({k: want[k] for k in u.dim4_keys})
        before = dict(w.dict)
        for mu, acc in ((91.1876, "integrate"), (91.1876, "leadinglog"),
                        (3000., None), (1000., "integrate")):
            C = leading_log(want, 1000., mu)
            fixed.expect(C)
            if acc == "leadinglog":
                out = s.run(mu, accuracy=acc)
            else:
                out = s.run(mu, rtol=3e-4, **({"accuracy": acc} if acc
                                              else {}))
                c.ok("options", cl.rge.solve_ivp.calls[-1][3] ==
                     dict(rtol=3e-4))
            c.ok("metadata", (out.eft, out.basis, out.scale) ==
                 ("SMEFT", "Warsaw", mu))
            c.ok("only basis coefficients", set(out.dict) <= set(fl))
            compare(c, f"{acc} {mu}", out.dict, C, fixed.U)
            if not unchanged(c, s.C_in, want):
                return
        c.ok("input", s.wc is w and set(w.dict) == set(before))
        for k, x in before.items():
            c.eq(f"input {k}", w.dict[k], x)
        c.raises("accuracy", ValueError, lambda: s.run(91., accuracy="log"))
    return H(f"run, {label}", f, stubs=class_stubs, floats=True,
             ne_flips=0, cost=20)


def continuous(fams, label):
    """run_continuous: the same solution as function of the scale."""
    def f(c):
        fl, fam = R01.families()
        u = M("util").smeftutil
        d = coeffs(c, sub(fl, [x for n in fams for x in fam[n]]))
        w, s = smeft(d, 1000.)
        want = R01.arrays(c, d, 0)
        s.C_in.update({k: want[k] for k in u.dim4_keys})
        end = c.choice("to", [91.1876, 5000.])
        b = reference(want)

        def solution(mu):
            return {k: want[k] + b[k] * math.log(mu / 1000.) for k in want}
        r = s.run_continuous(end)
        c.ok("range", (r.scale_min, r.scale_max) ==
             (min(end, 1000.), max(end, 1000.)))
        for mu in (end, 1000., math.sqrt(1000. * end)):
            C = solution(mu)
            got = r.fun(mu)
            compare(c, f"at {mu}", got, C, {})
            for k in u.dim4_keys:
                if k in got:
                    c.eq(f"{k} at {mu}", got[k], C[k])
        k = sorted(d)[0]
        for part in ("re", "im"):
            for scale in ("log", "linear"):
                x, y = r.plotdata(k, part=part, scale=scale, steps=3)
                c.ok("abscissae", abs(x[0] / r.scale_min - 1) < 1e-9
                     and abs(x[2] / r.scale_max - 1) < 1e-9 and abs(
                         x[1] / (math.sqrt(1000. * end) if scale == "log"
                                 else (1000. + end) / 2) - 1) < 1e-9)
                for a, q in zip(x, y):
                    z = values(solution(a), {})[k]
                    c.eq(f"{k} {part} {scale}", q,
                         getattr(z, "real" if part == "re" else "imag"),
                         floor=1e-3)
        c.raises("same scale", ValueError, lambda: s.run_continuous(1000.))
    return H(f"continuous, {label}", f, stubs=class_stubs, floats=True,
             ne_flips=0, cost=20)


def sm_parameters(fams, label, m2=None):
    """The SM parameters at the input scale: extracted at the electroweak
    scale for an estimate of the coefficients there, run up, improved
    once."""
    def f(c):
        cl = M("run.smeft.classes")
        u = M("util").smeftutil
        fixed = cl._verif_fixed
        fl, fam = R01.families()
        d = coeffs(c, sub(fl, [x for n in fams for x in fam[n]]))
        ini = R01.arrays(c, d, 0)
        ini = {k: ini[k] for k in ini if k not in u.dim4_keys}
        mZ = 91.1876
        mu = c.choice("mu", [91.1876, 2000.])
        state = dict(n=0, est=ini, C=None)

        def expect():
            """Reference: after an extraction, the masses at scale mu."""
            C = dict(ini if not state["n"] else state["est"],
                     **sm(state["n"]))
            up = leading_log(C, mZ, mu, False)
            state["up"] = up
            fixed.expect(up)

        def sm(n):
            P = dict(R01.POINTS[n], **{k: c.array(x) for k, x in
                                       R01.yukawas(n).items()})
            return dict(P, m2=P["m2"] if m2 is None else m2)

        def smeftpar(scale, C, basis):
            n = state["n"]
            c.eq("scale of the extraction", scale, mZ)
            c.ok("basis", basis == "Warsaw")
            if n == 1:
                rot = {k: T01.rotate(v, T01.YUK[k], fixed.U) if k in T01.YUK
                       else v for k, v in state["up"].items()}
                C1 = dict(ini, **{k: rot[k] for k in u.dim4_keys})
                state["est"] = leading_log(C1, mu, mZ)
            for k in ini:
                c.eq(f"estimate {n} {k}", C[k], state["est"][k], floor=1e-3)
            expect()
            state["n"] += 1
            return dict(sm(n), extra=1)
        cl.smpar.smeftpar = smeftpar
        w, s = smeft(d, mu, get_smpar=True)
        c.ok("two steps", state["n"] == 2)
        c.ok("all parameters", set(s.C_in) == set(u.C_keys))
        for k in u.dim4_keys:
            x = state["up"][k]
            if k in T01.YUK:
                x = T01.rotate(x, T01.YUK[k], fixed.U)
            c.eq(f"parameter {k}", s.C_in[k], x, floor=1e-3)
        for k in ini:
            c.eq(f"coefficient {k}", s.C_in[k], ini[k], floor=1e-3)
        if m2 is None:
            return
        before = copy(s.C_in)
        cl.smpar.smpar = lambda C: C
        for acc in ("integrate", "leadinglog"):
            p = s.get_smpar(accuracy=acc)
            want = leading_log(before, mu, mZ)
            for k in u.C_keys:
                c.eq(f"{acc} {k}", p[k], want[k], floor=1e-3)
        c.raises("accuracy", ValueError, lambda: s.get_smpar("nothing"))

    def st(c):
        s = class_stubs(c)
        m = M("run.smeft.smpar")
        s.update({(m, k): None for k in ("smeftpar", "smpar")})
        return s
    return H(f"SM parameters, {label}", f, stubs=st, floats=True,
             ne_flips=0,
             cost=30)


def refused(c):
    d = {"phi": c.real("phi"), "phiq1_12": c.cplx("q")}
    for get in (True, False):
        for eft, basis in (("WET", "flavio"), ("WET-4", "JMS"),
                           ("SMEFT", "Warsaw mass"), ("SMEFT", "Warsaw up"),
                           ("SMEFT", "Higgs-Warsaw up"), ("WET", "Warsaw")):
            c.raises(f"{eft} {basis}", ValueError, lambda: smeft(
                d, 1000., get, eft, basis))
    e = M("run.smeft.classes").SMEFT(None)
    for f in (lambda: e.run(91.), lambda: e.run(91., accuracy="leadinglog")):
        c.raises("nothing to run", Exception, f)


def harnesses(tier):
    out = [H("refused", refused)]
    n = 6
    out += [rotation(i, n) for i in range(n)]
    lists = [FAMS[i::4] for i in range(4)] if tier == "quick" else \
        [[k] for k in FAMS]
    for fams in lists:
        label = " ".join(fams)
        for pt in (0, 1):
            out.append(evolve(fams, pt, f"{label}, point {pt}"))
        out.append(run(fams, label))
        out.append(continuous(fams, label))
        # without mass term, the parameters run as without coefficients
        out.append(sm_parameters(fams, label, 0.))
    for k in ("phiBox", "phiWtilde", "phiB", "phiud"):
        out.append(sm_parameters([k], k + ", mass term"))
    return out
