"""Path exploration, property queries and their solver verdicts.

The same harness function runs in two modes: symbolically (under `shims`, all
inputs symbolic, every branch on a symbolic value forked, every assertion
turned into an SMT query) and concretely (unpatched wilson, the values of a
counterexample), which is the replay that confirms a violation."""
import math
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import sym
from .sym import Sym, SymBool, CQ, EncodingError, VARS

CUR = [None]


def decide(b):
    if CUR[0] is None:
        raise EncodingError("symbolic branch outside a context")
    return CUR[0].decide(b)


def note_nonzero(v):
    if CUR[0] is not None:
        CUR[0].note_nonzero(v)


class PathLimit(Exception):
    pass


class Infeasible(Exception):
    """The current path is outside the assumptions."""


class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.trivial = 0
        self.both_sides = 0
        self.obligations = 0
        self.solver_s = 0.0
        self.unexplored = 0
        self.witness = 0
        self.functions = set()
        self.max_vars = 0
        self.samples = []


def zr(c):
    """z3 rational from an int/Fraction."""
    if isinstance(c, int):
        return z3.RealVal(c)
    if isinstance(c, float):
        c = Fraction(c)
    return z3.Q(c.numerator, c.denominator)


class _LIB:
    """The C functions behind the Python layer."""


for _f in ("Z3_mk_numeral", "Z3_mk_mul", "Z3_mk_add", "Z3_inc_ref",
           "Z3_dec_ref"):
    setattr(_LIB, _f, getattr(z3.z3core, _f).__defaults__[0].f)
_CTX = z3.main_ctx()
_SORT = z3.RealSort()


def _num(c):
    """A rational constant as bare AST with one reference."""
    if isinstance(c, float):
        c = Fraction(c)
    a = _LIB.Z3_mk_numeral(_CTX.ref(), str(c).encode(), _SORT.ast)
    _LIB.Z3_inc_ref(_CTX.ref(), a)
    return a


def linear(L):
    """z3 sum of c * x for the pairs (c, x), x a z3 expression or None for a
    constant. (The Python layer of z3 takes several times longer.)"""
    n, C = len(L), _CTX.ref()
    if n == 0:
        return z3.RealVal(0)
    A = (z3.z3types.Ast * n)()
    two = z3.z3types.Ast * 2
    for i, (c, x) in enumerate(L):
        k = _num(c)
        if x is None:
            A[i] = k
            continue
        p = _LIB.Z3_mk_mul(C, 2, two(k, x.ast))
        _LIB.Z3_inc_ref(C, p)
        _LIB.Z3_dec_ref(C, k)
        A[i] = p
    out = z3.ArithRef(_LIB.Z3_mk_add(C, n, A) if n > 1 else A[0], _CTX)
    for i in range(n):
        _LIB.Z3_dec_ref(C, A[i])
    return out


class Encoder:
    """Linear abstraction of polynomials: every monomial is a bounded real
    unknown (a pair for complex monomials); conjugate monomials share it."""

    def __init__(self):
        self.m = {}
        self.bounds = []
        self.nonlinear = False

    def mono_bound(self, m):
        b = 1.0
        for v, e in m:
            x = VARS[v]
            hi = max(abs(x.lo), abs(x.hi))
            if e >= 0:
                b *= hi ** float(e)
            else:
                lo = x.minabs or (
                    min(abs(x.lo), abs(x.hi)) if (x.lo > 0 or x.hi < 0)
                    else 1e-12)
                b *= lo ** float(e)
            b = min(b, 1e60)
        return b

    def mono(self, m):
        if m in self.m:
            return self.m[m]
        mc = sym.mono_conj(m)
        i = len(self.m)
        if not (len(m) == 1 and m[0][1] == 1 and VARS[m[0][0]].value is None
                and VARS[m[0][0]].defn is None):
            self.nonlinear = True
        vals = [VARS[v] for v, _ in m]
        if all(v.value is not None for v in vals):
            x = 1.0
            for v, e in m:
                x *= VARS[v].value ** float(e)
            r = z3.Real(f"m{i}")
            f = Fraction(x)
            eps = abs(f) * Fraction(1, 10 ** 14)
            self.bounds += [r >= zr(f - eps), r <= zr(f + eps)]
            self.m[m] = (r, None)
            return self.m[m]
        if any(v.value is not None for v in vals):
            # constants such as sqrt(2) to double precision; the tolerance
            # of every comparison is far larger
            x = 1.0
            for v, e in m:
                if VARS[v].value is not None:
                    x *= VARS[v].value ** float(e)
            f = zr(Fraction(x))
            re, im = self.mono(tuple((v, e) for v, e in m
                                     if VARS[v].value is None))
            self.m[m] = (f * re, None if im is None else f * im)
            return self.m[m]
        b = Fraction(self.mono_bound(m)).limit_denominator(10 ** 9) \
            if self.mono_bound(m) < 1e9 else Fraction(self.mono_bound(m))
        if b == 0:
            b = Fraction(1, 10 ** 9)
        re = z3.Real(f"m{i}")
        if mc == m:
            lo = -b
            hi = b
            if len(m) == 1 and m[0][1] == 1:
                v = VARS[m[0][0]]
                lo, hi = Fraction(v.lo), Fraction(v.hi)
            elif all(v.positive or v.lo >= 0 for v in vals):
                lo = Fraction(0)
                if all(v.lo > 0 and e > 0 for v, (_, e) in zip(vals, m)):
                    x = 1.0
                    for v, (_, e) in zip(vals, m):
                        x *= v.lo ** float(e)
                    lo = Fraction(x * (1 - 1e-12))
            self.bounds += [re >= zr(lo), re <= zr(hi)]
            self.m[m] = (re, None)
        else:
            im = z3.Real(f"m{i}i")
            self.bounds += [re >= zr(-b), re <= zr(b), im >= zr(-b),
                            im <= zr(b)]
            self.m[m] = (re, im)
            self.m[mc] = (re, -im)
        return self.m[m]

    def linform(self, t):
        """(re, im) z3 expressions of a term dict."""
        R, I = [], []
        for m, c in t.items():
            cr, ci = sym.c_re(c), sym.c_im(c)
            if m == ():
                if cr != 0:
                    R.append((cr, None))
                if ci != 0:
                    I.append((ci, None))
                continue
            a, b = self.mono(m)
            if cr != 0:
                R.append((cr, a))
                if b is not None:
                    I.append((cr, b))
            if ci != 0:
                I.append((ci, a))
                if b is not None:
                    R.append((-ci, b))
        return linear(R), linear(I)

    def boolean(self, b):
        if b.op == "ne":
            r, i = self.linform(b.args[0].t)
            return z3.Or(r != 0, i != 0)
        if b.op in ("lt", "le"):
            t, f = clear_denominators(b.args[0].t)
            r, _ = self.linform(t)
            if f < 0:
                r = -r
            return r < 0 if b.op == "lt" else r <= 0
        if b.op == "not":
            return z3.Not(self._b(b.args[0]))
        if b.op == "and":
            return z3.And(*[self._b(x) for x in b.args])
        if b.op == "or":
            return z3.Or(*[self._b(x) for x in b.args])
        raise EncodingError(b.op)

    def _b(self, x):
        return self.boolean(x) if type(x) is SymBool else z3.BoolVal(bool(x))


def bool_key(b):
    if type(b) is not SymBool:
        return bool(b)
    return (b.op,) + tuple(a.key() if type(a) is Sym else bool_key(a)
                           for a in b.args)


def eval_bool(b, val, eps=1e-9):
    if type(b) is not SymBool:
        return bool(b)
    if b.op == "ne":
        return abs(b.args[0].evaluate(val)) > eps
    if b.op == "lt":
        return complex(b.args[0].evaluate(val)).real < 0
    if b.op == "le":
        return complex(b.args[0].evaluate(val)).real <= 0
    if b.op == "not":
        return not eval_bool(b.args[0], val, eps)
    if b.op == "and":
        return all(eval_bool(x, val, eps) for x in b.args)
    return any(eval_bool(x, val, eps) for x in b.args)


class Goal:
    __slots__ = ("label", "diff", "scale", "kind", "cond", "sides", "tol",
                 "terms", "floor")

    def __init__(self, label, diff, scale, cond=None):
        self.label, self.diff, self.scale, self.cond = label, diff, scale, cond
        self.sides = None
        self.tol = None
        self.terms = None
        self.floor = 0.0


def clear_denominators(t):
    """t times the denominators 1/q in it, q known to be away from zero, and
    a lower bound of the factor's modulus with the sign of the factor."""
    f = 1.0
    for n in range(4):
        ids = {v for m in t for v, e in m if VARS[v].defn
               and VARS[v].defn[0] == "inv"}
        if not ids or len(t) > 3000:
            return t, f
        a = max(ids)
        q = VARS[a].defn[1][0]
        iv = sym.interval(q)
        if iv is None or iv[0] <= 0 <= iv[1]:
            return t, f
        by = {}
        for m, c in t.items():
            e = dict(m).get(a, 0)
            if e < 0 or e != int(e):
                return t, f
            by.setdefault(int(e), {})[tuple(x for x in m if x[0] != a)] = c
        N = max(by)
        out = 0
        for e, p in by.items():
            out = out + Sym.make(p) * q ** (N - e)
        t = sym.terms(out)
        f *= (iv[0] if iv[0] > 0 else iv[1]) ** N
    return t, f


def coef_scale(t, enc):
    s = 0.0
    for m, c in t.items():
        s = max(s, abs(sym.c_complex(c)) * (enc.mono_bound(m) if m else 1.0))
    return s


class Ctx:
    def __init__(self, mode, stats, assign=None, choices=None, decisions=(),
                 scales=None, seed=1, generic=True, solver_timeout=60000):
        self.mode = mode
        self.stats = stats
        self.assign = assign or {}
        self.choices = dict(choices or {})
        self.prefix = list(decisions)
        self.decisions = []
        self.alts = []
        self.path = []
        self.known = {}
        self.only_ne = True
        self.tied = set()       # monomials in conditions other than x != 0
        self.enc = Encoder()
        self.solver = None
        self.lazy = []
        self.nassert = 0
        self.goals = []
        self.witnesses = {}
        self.failed = []
        self.scales = scales or {}
        self.generic = generic
        self.timeout = solver_timeout
        self.rng = random.Random(seed)
        self.symbolic = mode == "sym"
        self.nonzero = set()
        self.rel_sym = 1e-6
        self.rel_conc = 1e-7
        self.size = 0
        self.max_size = 200000

    # ------------------------------------------------------------- inputs
    def real(self, name, lo=-1.0, hi=1.0):
        if self.symbolic:
            return sym.real_var(name, lo, hi)
        if name in self.assign:
            return float(self.assign[name])
        return lo + (hi - lo) * 0.37

    def cplx(self, name, bound=1.0, minabs=None):
        if self.symbolic:
            return sym.complex_var(name, bound, minabs)
        v = self.assign.get(name, minabs or 0.0)
        return complex(*v) if isinstance(v, (list, tuple)) else complex(v)

    def carray(self, name, shape, bound=1.0):
        if self.symbolic:
            from .arr import SymArray
            a = SymArray(shape, 0.0, "c")
        else:
            a = np.zeros(shape, dtype=complex)
        for i in np.ndindex(*shape):
            a[i] = self.cplx(name + "_" + "".join(str(k + 1) for k in i),
                             bound)
        return a

    def rarray(self, name, shape, lo=-1.0, hi=1.0):
        if self.symbolic:
            from .arr import SymArray
            a = SymArray(shape, 0.0, "f")
        else:
            a = np.zeros(shape)
        for i in np.ndindex(*shape):
            a[i] = self.real(name + "_" + "".join(str(k + 1) for k in i),
                             lo, hi)
        return a

    def array(self, x):
        """Concrete array usable in either mode."""
        if self.symbolic:
            from .arr import h_array
            return h_array(np.array(x))
        return np.array(x)

    def choice(self, name, options):
        """A symbolic finite choice: forked, one path per option."""
        if not self.symbolic:
            return options[self.choices.get(name, 0)]
        if len(options) == 1:
            self.choices[name] = 0
            return options[0]
        k = self._take(list(range(len(options))))
        self.choices[name] = k
        return options[k]

    def name(self, label):
        """An arbitrary name (string): any pattern of equalities between the
        names of one harness is possible."""
        if self.symbolic:
            return sym.SymName(label, sym.real_var("name:" + label, 0.0, 64.0))
        return "N" + repr(float(self.assign.get("name:" + label,
                                                32.0 + 0.001 * len(label)
                                                + sum(map(ord, label)) % 97
                                                * 1e-5)))

    def small(self, value):
        """An infinitesimal scale factor; `value` stands for it in the
        concrete replay."""
        return sym.dual_var() if self.symbolic else value

    def first(self, label, x, eps, zero=1e-14):
        """Derivative of x with respect to the infinitesimal; asserts that x
        vanishes with it (up to rounding errors of size `zero`)."""
        if isinstance(x, dict):
            return {k: self.first(f"{label}[{k}]", v, eps, zero)
                    for k, v in x.items()}
        if isinstance(x, np.ndarray):
            out = self.array(np.zeros(x.shape, dtype=complex))
            for i in np.ndindex(*x.shape):
                out[i] = self.first(label + str(list(i)), x[i], eps, zero)
            return out
        if not self.symbolic:
            return x / eps
        a, b = sym.dual_parts(x)
        if type(a) is Sym or a != 0:
            self.eq(label + " at zero", a, 0, tol=zero, scale=1)
        return b

    def flag(self, name):
        return self.choice(name, [True, False])

    def assume(self, cond):
        if not self.symbolic:
            if not bool(cond):
                raise Infeasible()
            return
        if type(cond) is SymBool:
            self._assert(cond)
        elif not cond:
            raise Infeasible()

    # ------------------------------------------------------------- forking
    def _take(self, options, ne=False):
        n = len(self.decisions)
        if n < len(self.prefix):
            k = self.prefix[n]
        else:
            k = options[0]
            for o in options[1:]:
                self.alts.append((self.decisions + [o], ne))
        self.decisions.append(k)
        return k

    def _solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", self.timeout)
            self._nb = 0
        return self.solver

    def _sync(self):
        s = self._solver()
        for b in self.enc.bounds[self._nb:]:
            s.add(b)
        self._nb = len(self.enc.bounds)

    def _check(self, *extra, relaxed=False, model=False):
        """Satisfiability with the path. `x != 0` literals of the path are
        left out at first (that can only make more satisfiable) and added
        when that matters."""
        s = self._solver()
        self._sync()
        s.push()
        for e in extra:
            s.add(e)
        t = time.time()
        r = s.check()
        if r == z3.sat and self.lazy and not relaxed and len(self.lazy) < 60:
            lazy = [self.enc.boolean(b) for b in self.lazy]
            for b in self.enc.bounds[self._nb:]:
                s.add(b)
            s.add(*lazy)
            r = s.check()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        m = s.model() if model and r == z3.sat else None
        s.pop()
        return r, m

    def _assert(self, b):
        self.path.append(b)
        if type(b) is SymBool and b.op == "ne":
            self.lazy.append(b)
            return
        self.only_ne = False
        self.tie(b)
        e = self.enc.boolean(b)
        self._solver()
        self._sync()
        self.solver.add(e)

    def tie(self, b):
        for a in b.args if type(b) is SymBool else ():
            if type(a) is Sym:
                for m in a.t:
                    self.tied.add(m)
                    self.tied.add(sym.mono_conj(m))
            else:
                self.tie(a)

    def free(self, b):
        """x != 0 is possible because a monomial of x is not restricted."""
        return b.op == "ne" and len(b.args[0].t) > 4 and any(
            m not in self.tied and any(VARS[v].value is None for v, _ in m)
            for m in b.args[0].t)

    def decide(self, b):
        key = bool_key(b)
        if key in self.known:
            return self.known[key]
        neg = b.args[0] if b.op == "not" else SymBool("not", b)
        generic_ne = b.op == "ne" or (b.op == "not" and
                                      type(b.args[0]) is SymBool and
                                      b.args[0].op == "ne")
        if generic_ne:
            val = b.op == "ne"       # generic outcome
            if self.only_ne or self.free(b if val else neg):
                feas = {True, False}
            else:
                feas = set()
                for o in (True, False):
                    e = self.enc.boolean(b if o else neg)
                    if self._check(e)[0] != z3.unsat:
                        feas.add(o)
            opts = [o for o in (val, not val) if o in feas]
        else:
            opts = []
            for o in (True, False):
                e = self.enc.boolean(b if o else neg)
                if self._check(e)[0] != z3.unsat:
                    opts.append(o)
        if not opts:
            raise Infeasible()
        if len(opts) == 1:
            out = opts[0]
        else:
            out = self._take(opts, generic_ne)
        lit = b if out else neg
        if lit.op == "not" and type(lit.args[0]) is SymBool and \
                lit.args[0].op == "not":
            lit = lit.args[0].args[0]
        self._assert(lit)
        self.known[key] = out
        self.known[bool_key(neg)] = not out
        return out

    def note_nonzero(self, v):
        if v not in self.nonzero:
            self.nonzero.add(v)

    # ---------------------------------------------------------- assertions
    def eq(self, label, a, b, tol=None, keys=None, scale=None,
           floor=0.0):
        """a and b (numbers, arrays or dicts of them) are equal for all
        values. Missing dict entries count as zero unless keys='strict'.
        floor: smallest size differences are compared with."""
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)):
                return self.ok(label, False, "not both dictionaries")
            if keys == "strict" and set(a) != set(b):
                return self.ok(label, False, "keys differ: "
                               f"{sorted(map(str, set(a) ^ set(b)))[:6]}")
            for k in sorted(set(a) | set(b), key=str):
                self.eq(f"{label}[{k}]", a.get(k, 0), b.get(k, 0), tol,
                        scale=scale, floor=floor)
            return
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or \
                isinstance(a, (list, tuple)):
            if np.shape(a) != np.shape(b) and not (
                    np.isscalar(a) or np.isscalar(b)):
                return self.ok(label, False,
                               f"shapes {np.shape(a)} {np.shape(b)}")
            A = np.asarray(a, dtype=object).view(np.ndarray)
            B = np.asarray(b, dtype=object).view(np.ndarray)
            A, B = np.broadcast_arrays(A, B)
            for i in np.ndindex(*A.shape):
                self.eq(label + "[" + ",".join(map(str, i)) + "]", A[i], B[i],
                        tol, scale=scale, floor=floor)
            return
        if isinstance(a, (str, type(None), bool)) or \
                isinstance(b, (str, type(None), bool)):
            return self.ok(label, a == b, f"{a!r} vs {b!r}")
        if self.symbolic:
            ta, tb = sym.terms(a), sym.terms(b)
            d = dict(ta)
            sym.add_into(d, {m: sym.c_neg(c) for m, c in tb.items()})
            sc = scale if scale is not None else max(
                coef_scale(ta, self.enc), coef_scale(tb, self.enc), floor)
            g = Goal(label, d, sc)
            g.kind = "eq"
            g.floor = floor
            if scale is None:
                g.terms = (ta, tb)
            g.tol = self.rel_sym if tol is None else tol
            if not d and self.size < self.max_size:
                # the two sides cancel in normal form; the solver gets both
                self.size += len(ta) + len(tb)
                g.sides = (ta, tb)
            self.goals.append(g)
        else:
            sc = max(self.scales.get(label, max(abs(a), abs(b), 0.0)), floor)
            rel = self.rel_conc if tol is None else tol * 0.1
            if not abs(a - b) <= rel * sc:
                self.failed.append(
                    (label, f"{complex(a)} != {complex(b)}"))
                self.scales.setdefault(label, sc)

    def ok(self, label, cond, detail=""):
        """cond holds for all values."""
        if self.symbolic:
            if type(cond) is SymBool:
                g = Goal(label, None, 0, cond)
                g.kind = "ok"
                self.goals.append(g)
            else:
                g = Goal(label, None, 0, bool(cond))
                g.kind = "const"
                self.goals.append(g)
        elif not bool(cond):
            self.failed.append((label, detail or "condition false"))

    def raises(self, label, exc, f):
        """f() raises exc."""
        try:
            f()
        except exc:
            self.ok(label, True)
        except (EncodingError, PathLimit, Infeasible):
            raise
        except Exception as e:
            self.ok(label, False, f"raised {type(e).__name__}: {e}")
        else:
            self.ok(label, False, "did not raise")

    def witness(self, label, x):
        """Non-vacuity: x is different from zero for some values."""
        if not self.symbolic:
            return
        if isinstance(x, dict):
            x = list(x.values())
        found = False
        stack = [x]
        n = 0
        while stack:
            y = stack.pop()
            if isinstance(y, (list, tuple)):
                stack += list(y)
            elif isinstance(y, dict):
                stack += list(y.values())
            elif isinstance(y, np.ndarray):
                stack += list(np.asarray(y).view(np.ndarray).ravel())
            elif type(y) is Sym and y.t and not y.is_const():
                found = True
                r, i = self.enc.linform(y.t)
                res, _ = self._check(z3.Or(r != 0, i != 0), relaxed=True)
                if res == z3.sat:
                    self.stats.witness += 1
                    self.witnesses[label] = True
                    return
                n += 1
                if n > 20:
                    break
        self.witnesses.setdefault(label, False)

    # -------------------------------------------------------------- solving
    def solve(self):
        """Discharge the goals of this path. Returns a list of
        (label, assignment|None) candidates."""
        out = []
        st = self.stats
        st.obligations += len(self.goals)
        st.max_vars = max(st.max_vars, len(VARS))
        pending = []
        for g in self.goals:
            if g.kind == "const":
                if g.cond:
                    st.trivial += 1
                else:
                    out.append((g, "const"))
            elif g.kind == "eq" and not g.diff:
                if g.sides and (g.sides[0] or g.sides[1]):
                    st.both_sides += 1
                    pending.append((g, 1))
                else:
                    st.trivial += 1
                    pending.append((g, None))
            else:
                pending.append((g, 1))
        lits = []
        for g, f in pending:
            if f is None:
                continue
            lits.append((g, self._violation(g)))
        CH = 100
        triv = [g for g, f in pending if f is None]
        if triv and not lits:
            # still one solver call: the (syntactically cancelled) difference
            self._check(z3.Or(*[z3.RealVal(0) > zr(Fraction(1, 10 ** 9))]))
        for i in range(0, len(lits), CH):
            chunk = lits[i:i + CH]
            r, m = self._check(z3.Or(*[x for _, x in chunk]), model=True)
            if r == z3.unsat:
                continue
            if r == z3.unknown:
                for g, x in chunk:
                    r1, m1 = self._check(x, model=True)
                    if r1 != z3.unsat:
                        out.append((g, r1 if r1 == z3.unknown else m1))
                        if len(out) > 5:
                            break
                continue
            cnt = 0
            for g, x in chunk:
                if z3.is_true(m.eval(x, model_completion=True)):
                    r1, m1 = self._check(x, model=True)
                    out.append((g, m1))
                    cnt += 1
                    if cnt >= 3:
                        break
            if len(out) > 5:
                break
        return out

    def _violation(self, g):
        if g.kind == "ok":
            return z3.Not(self.enc._b(g.cond))
        if not g.diff:
            (r, i), (r2, i2) = map(self.enc.linform, g.sides)
            r, i = r - r2, i - i2
        else:
            diff, f = clear_denominators(g.diff)
            f = abs(f)
            t, slack = self._lump(g, diff, f)
            r, i = self.enc.linform(t)
            if slack:
                b = zr(Fraction(slack))
                self.nslack = getattr(self, "nslack", 0) + 1
                sr = z3.Real(f"slack{self.nslack}")
                si = z3.Real(f"slack{self.nslack}i")
                self.enc.bounds += [sr >= -b, sr <= b, si >= -b, si <= b]
                r, i = r + sr, i + si
            if f != 1.0:
                tol = zr(Fraction(max(g.tol * g.scale * f, 1e-300)))
                return z3.Or(r > tol, r < -tol, i > tol, i < -tol)
        tol = zr(Fraction(max(g.tol * g.scale, 1e-300)))
        return z3.Or(r > tol, r < -tol, i > tol, i < -tol)

    def _lump(self, g, diff, f):
        """Many rounding-sized terms become one unknown within the sum of
        their bounds (an over-approximation, at most half the tolerance)."""
        if len(diff) < 2 or not g.tol * g.scale > 0:
            return diff, 0.0
        L = sorted((abs(sym.c_complex(x)) * (self.enc.mono_bound(m) if m
                                             else 1.0), n, m)
                   for n, (m, x) in enumerate(diff.items()))
        tot, lim, n = 0.0, 0.5 * g.tol * g.scale * f, 0
        for b, _, m in L:
            if tot + b > lim:
                break
            tot += b
            n += 1
        if n < 2:
            return diff, 0.0
        drop = {m for _, _, m in L[:n]}
        return ({m: x for m, x in diff.items() if m not in drop},
                tot * (1 + 1e-9))

    def assignment(self, g, model):
        """Values of the base variables for a candidate counterexample, or
        None when none was found."""
        base = [v for v in VARS if v.value is None and v.defn is None and
                v.kind != "cbar"]
        a = {}

        def ev(x):
            v = model.eval(x, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            return float(Fraction(v.numerator_as_long(),
                                  v.denominator_as_long()))
        if model is not None and model not in ("const",):
            for v in base:
                m = ((v.id, 1),)
                if m in self.enc.m:
                    re, im = self.enc.m[m]
                    a[v.name] = ev(re) if im is None else (ev(re), ev(im))
        if self._holds(g, a):
            return a
        # try random points (complete the abstract model to a real one)
        best = None
        for trial in range(60):
            b = {}
            for v in base:
                if trial < 30 and v.name in a and trial % 2:
                    b[v.name] = a[v.name]
                elif v.minabs:
                    r = self.rng.uniform(v.minabs, v.hi)
                    f = self.rng.uniform(0, 2 * math.pi)
                    b[v.name] = (r * math.cos(f), r * math.sin(f))
                elif v.kind == "c":
                    s = v.hi
                    b[v.name] = (self.rng.uniform(-s, s),
                                 self.rng.uniform(-s, s))
                else:
                    b[v.name] = self.rng.uniform(v.lo, v.hi)
            if self._holds(g, b):
                return b
            if best is None and self._path_ok(b):
                best = b
        # non-linear arithmetic
        nl = self._nra(g)
        if nl is not None and self._holds(g, nl):
            return nl
        if g.kind == "const":
            return best if best is not None else None
        return None

    def _val(self, a):
        d = {k: (complex(*v) if isinstance(v, (tuple, list)) else v)
             for k, v in a.items()}
        return sym.make_valuation(d)

    def _path_ok(self, a):
        try:
            val = self._val(a)
            eps = 1e-250 if sym.FLOAT[0] else 1e-12
            return all(eval_bool(b, val, eps) for b in self.path)
        except (ZeroDivisionError, OverflowError, ValueError, KeyError):
            return False

    def _scale_at(self, g, val):
        """Size of the largest term of the two sides at a point."""
        if g.terms is None:
            return g.scale
        return max([g.floor] + [abs(Sym({m: x}).evaluate(val))
                                for t in g.terms for m, x in t.items()])

    def scales_at(self, a):
        val = self._val(a)
        out = {}
        for g in self.goals:
            if g.kind == "eq":
                try:
                    x = self._scale_at(g, val)
                except (ZeroDivisionError, OverflowError, ValueError):
                    x = g.scale
                out[g.label] = max(out.get(g.label, 0.0), x)
        return out

    def _holds(self, g, a):
        """Does assignment a satisfy the path and violate g?"""
        if not self._path_ok(a):
            return False
        try:
            val = self._val(a)
            if g.kind == "const":
                return not g.cond
            if g.kind == "ok":
                return not eval_bool(g.cond, val)
            x = Sym(g.diff).evaluate(val)
            return abs(x) > g.tol * self._scale_at(g, val)
        except (ZeroDivisionError, OverflowError, ValueError):
            return False

    def _nra(self, g):
        """Full non-linear real arithmetic on this goal and the path."""
        ids = set()
        for b in self.path:
            _bvars(b, ids)
        if g.kind == "eq":
            ids |= sym.free_vars(g.diff)
        elif g.kind == "ok":
            _bvars(g.cond, ids)
        base, atoms = sym.closure_vars(ids)
        base |= {VARS[v].partner for v in base}
        if len(base) > 60:
            return None
        env = {}
        cons = []
        for v in sorted(base):
            x = VARS[v]
            if x.kind == "cbar":
                continue
            re = z3.Real(f"x{v}")
            cons += [re >= zr(Fraction(x.lo)), re <= zr(Fraction(x.hi))]
            if x.kind == "c":
                im = z3.Real(f"x{v}i")
                cons += [im >= zr(Fraction(x.lo)), im <= zr(Fraction(x.hi))]
                env[v] = (re, im)
                env[x.partner] = (re, -im)
            else:
                env[v] = (re, z3.RealVal(0))

        def power(v, e):
            x = VARS[v]
            if v not in env:
                if x.value is not None:
                    f = Fraction(x.value)
                    env[v] = (zr(f), z3.RealVal(0))
                elif x.defn and x.defn[0] in ("inv", "sqrt"):
                    r = z3.Real(f"x{v}")
                    env[v] = (r, z3.RealVal(0))
                    q, _ = poly(x.defn[1][0].t)
                    if x.defn[0] == "inv":
                        cons.append(r * q == 1)
                    else:
                        cons.extend([r * r == q, r >= 0])
                else:
                    raise EncodingError("nra")
            if e != int(e):
                if e.denominator != 2:
                    raise EncodingError("nra")
                key = ("h", v)
                if key not in env:
                    r = z3.Real(f"x{v}h")
                    cons.extend([r * r == env[v][0], r >= 0])
                    env[key] = (r, z3.RealVal(0))
                b = env[key]
                e = int(2 * e)
            else:
                b = env[v]
            if e < 0:
                key = ("i", v, b is env.get(("h", v)))
                if key not in env:
                    r = z3.Real(f"x{v}inv{len(env)}")
                    cons.append(r * b[0] == 1)
                    env[key] = (r, z3.RealVal(0))
                b = env[key]
                e = -e
            out = b
            for _ in range(e - 1):
                out = (out[0] * b[0] - out[1] * b[1],
                       out[0] * b[1] + out[1] * b[0])
            return out

        def poly(t):
            R, I = [z3.RealVal(0)], [z3.RealVal(0)]
            for m, c in t.items():
                x = (zr(sym.c_re(c)), zr(sym.c_im(c)))
                for v, e in m:
                    y = power(v, e)
                    x = (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])
                R.append(x[0])
                I.append(x[1])
            return z3.Sum(R), z3.Sum(I)

        def bl(b):
            if type(b) is not SymBool:
                return z3.BoolVal(bool(b))
            if b.op == "ne":
                r, i = poly(b.args[0].t)
                return z3.Or(r != 0, i != 0)
            if b.op == "lt":
                return poly(b.args[0].t)[0] < 0
            if b.op == "le":
                return poly(b.args[0].t)[0] <= 0
            if b.op == "not":
                return z3.Not(bl(b.args[0]))
            return (z3.And if b.op == "and" else z3.Or)(
                *[bl(x) for x in b.args])
        try:
            conds = [bl(b) for b in self.path]
            if g.kind == "eq":
                r, i = poly(g.diff)
                tol = zr(Fraction(max(g.tol * g.scale, 1e-300)))
                goal = z3.Or(r > tol, r < -tol, i > tol, i < -tol)
            elif g.kind == "ok":
                goal = z3.Not(bl(g.cond))
            else:
                goal = z3.BoolVal(True)
        except EncodingError:
            return None
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*cons)
        s.add(*conds)
        s.add(goal)
        t = time.time()
        res = s.check()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if res == z3.unsat:
            raise Proved()
        if res != z3.sat:
            return None
        m = s.model()

        def ev(x):
            v = m.eval(x, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            return float(Fraction(v.numerator_as_long(),
                                  v.denominator_as_long()))
        a = {}
        for v in base:
            x = VARS[v]
            if x.kind == "c":
                a[x.name] = (ev(env[v][0]), ev(env[v][1]))
            elif x.kind == "r":
                a[x.name] = ev(env[v][0])
        return a


class Proved(Exception):
    pass


def _bvars(b, ids):
    if type(b) is SymBool:
        for x in b.args:
            if type(x) is Sym:
                ids |= sym.free_vars(x.t)
            else:
                _bvars(x, ids)
