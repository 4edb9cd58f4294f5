"""Symbolic scalars for executing the real Python code of wilson.

A `Sym` is a polynomial (negative and, for positive variables, fractional
exponents allowed) over symbolic variables, with Gaussian-rational
coefficients.  Floats met during execution are taken at their exact binary
value.  A complex unknown z is a pair of formal variables (z, conj z), so that
conjugation, real and imaginary parts stay polynomial.  Comparisons yield
`SymBool`s, whose truth value is asked of the current `Context` (path forking).
"""
import math
import numbers
from fractions import Fraction

import numpy as np

_F0 = Fraction(0)


class EncodingError(Exception):
    """The symbolic encoding cannot represent what the code does."""


class NotANumber(EncodingError):
    """NaN met in symbolic arithmetic; +, - and * give NaN again."""


class CQ:
    """Gaussian rational with non-zero imaginary part."""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __repr__(self):
        return f"({self.re}+{self.im}j)"


def cq(re, im):
    return re if im == 0 else CQ(re, im)


def c_add(a, b):
    ta, tb = type(a) is CQ, type(b) is CQ
    if not ta and not tb:
        return a + b
    ar, ai = (a.re, a.im) if ta else (a, 0)
    br, bi = (b.re, b.im) if tb else (b, 0)
    im = ai + bi
    return ar + br if im == 0 else CQ(ar + br, im)


def c_mul(a, b):
    ta, tb = type(a) is CQ, type(b) is CQ
    if not ta and not tb:
        return a * b
    if ta and tb:
        re = a.re * b.re - a.im * b.im
        im = a.re * b.im + a.im * b.re
        return re if im == 0 else CQ(re, im)
    if ta:
        a, b = b, a
    # a real, b CQ
    if a == 0:
        return 0
    return CQ(a * b.re, a * b.im)


def c_neg(a):
    return CQ(-a.re, -a.im) if type(a) is CQ else -a


def c_conj(a):
    return CQ(a.re, -a.im) if type(a) is CQ else a


def c_inv(a):
    if type(a) is CQ:
        n = a.re * a.re + a.im * a.im
        if type(n) is float:
            return CQ(a.re / n, -a.im / n)
        return CQ(Fraction(a.re) / n, -Fraction(a.im) / n)
    if type(a) is float:
        return 1 / a
    return Fraction(1) / a if not isinstance(a, int) else Fraction(1, a)


def c_re(a):
    return a.re if type(a) is CQ else a


def c_im(a):
    return a.im if type(a) is CQ else 0


def c_complex(a):
    return complex(float(a.re), float(a.im)) if type(a) is CQ else float(a)


# Coefficients rounded to double precision instead of exact rationals (for
# harnesses dominated by numerical constants; their tolerances are far larger)
FLOAT = [False]


def to_coef(x):
    """Exact coefficient of a concrete number."""
    t = type(x)
    if t is int or t is Fraction or t is CQ:
        return x
    if t is float:
        if x == int(x) if abs(x) < 1e15 else False:
            return int(x)
        if not math.isfinite(x):
            raise (NotANumber if x != x else EncodingError)(
                f"non-finite number {x} in symbolic arithmetic")
        return x if FLOAT[0] else Fraction(x)
    if t is bool:
        return int(x)
    if t is complex:
        if x.imag == 0:
            return to_coef(x.real)
        return CQ(to_coef(x.real), to_coef(x.imag))
    if isinstance(x, np.generic):
        return to_coef(x.item())
    if isinstance(x, numbers.Rational):
        return Fraction(x)
    if isinstance(x, numbers.Real):
        return to_coef(float(x))
    if isinstance(x, numbers.Complex):
        return to_coef(complex(x))
    raise TypeError(f"cannot convert {t} to a coefficient")


# ---------------------------------------------------------------- variables
class Var:
    __slots__ = ("id", "name", "kind", "partner", "lo", "hi", "positive",
                 "value", "defn", "minabs")

    def __init__(self, id, name, kind, partner, lo, hi, positive, value=None,
                 defn=None):
        self.id, self.name, self.kind, self.partner = id, name, kind, partner
        self.lo, self.hi, self.positive = lo, hi, positive
        self.value = value      # float, for constants such as sqrt(2) or pi
        self.defn = defn        # ('inv', Sym) | ('sqrt', Sym) | ('fn', ...)
        self.minabs = None      # smallest modulus considered


VARS = []
_BYNAME = {}
_PRIME = {}
_ATOMS = {}


def reset():
    VARS.clear()
    _BYNAME.clear()
    _PRIME.clear()
    _ATOMS.clear()
    Sym_PI[0] = None
    DUAL[0] = None


Sym_PI = [None]
# id of the infinitesimal variable (its square is zero), if there is one
DUAL = [None]


def dual_var(name="eps"):
    """A positive infinitesimal: arithmetic keeps zeroth and first order
    (exact derivatives of the executed code)."""
    x = real_var(name, 0.0, 1.0, True)
    DUAL[0] = VARS[-1].id
    return x


def dual_parts(x):
    """(a, b) with x = a + eps*b."""
    D = DUAL[0]
    if type(x) is not Sym or D is None:
        return x, 0.0
    a, b = {}, {}
    for m, c in x.t.items():
        r = tuple(ve for ve in m if ve[0] != D)
        if len(r) == len(m):
            a[m] = c
        else:
            b[r] = c
    return Sym.make(a), Sym.make(b)


def _drop(m):
    D = DUAL[0]
    for v, e in m:
        if v == D:
            return e > 1
    return False


def dual_apply(x, f, df):
    """f of a quantity with infinitesimal part; None if it has none."""
    if DUAL[0] is None:
        return None
    a, b = dual_parts(x)
    if type(b) is not Sym and b == 0:
        return None
    if type(a) is not Sym and a == 0:
        raise EncodingError("non-analytic function of an infinitesimal")
    return f(a) + Sym({((DUAL[0], 1),): 1}) * (b * df(a))


def interval(x):
    """Bounds of the value of a real Sym, from the bounds of its variables
    (None when there is nothing useful to say)."""
    if type(x) is not Sym:
        x = complex(x)
        return (x.real, x.real)
    L = U = 0.0
    for m, c in x.t.items():
        if type(c) is CQ:
            return None
        l = u = float(c)
        for v, e in m:
            w = VARS[v]
            if w.kind != "r":
                return None
            if w.value is not None:
                p = (w.value ** float(e),) * 2
            else:
                lo, hi = w.lo, w.hi
                if e < 0 and lo <= 0 <= hi or e != int(e) and lo < 0:
                    return None
                try:
                    p = (lo ** float(e), hi ** float(e))
                except OverflowError:
                    return None
                if e > 0 and e % 2 == 0 and lo < 0 < hi:
                    p = (0.0, max(p))
                p = (min(p), max(p))
            q = [l * p[0], l * p[1], u * p[0], u * p[1]]
            l, u = min(q), max(q)
        L, U = L + l, U + u
    d = 1e-12 * max(abs(L), abs(U))
    return L - d, U + d


def _new(name, kind, lo, hi, positive=False, value=None, defn=None):
    if name in _BYNAME:
        raise EncodingError(f"duplicate symbolic variable {name}")
    v = Var(len(VARS), name, kind, None, lo, hi, positive, value, defn)
    VARS.append(v)
    _BYNAME[name] = v
    return v


def real_var(name, lo=-1.0, hi=1.0, positive=None, value=None, defn=None):
    v = _new(name, "r", lo, hi, (lo > 0) if positive is None else positive,
             value, defn)
    v.partner = v.id
    return Sym({((v.id, 1),): 1})


def complex_var(name, bound=1.0, minabs=None):
    a = _new(name, "c", -bound, bound)
    b = _new(name + "*", "cbar", -bound, bound)
    a.partner, b.partner = b.id, a.id
    a.minabs = b.minabs = minabs
    return Sym({((a.id, 1),): 1})


def prime_var(p):
    if p not in _PRIME:
        s = float(p)
        _PRIME[p] = _new(f"#{p}", "r", s, s, True, value=s)
        _PRIME[p].partner = _PRIME[p].id
    return _PRIME[p]


def sym_pi():
    if Sym_PI[0] is None:
        Sym_PI[0] = real_var("#pi", 3.0, 3.2, True, value=math.pi)
    return Sym_PI[0]


def atom(kind, args, lo, hi, fvalue, positive=False):
    """A fresh real variable standing for kind(*args); the same arguments give
    the same variable."""
    key = (kind,) + tuple(a.key() if isinstance(a, Sym) else a for a in args)
    if key not in _ATOMS:
        _ATOMS[key] = real_var(f"{kind}#{len(_ATOMS)}", lo, hi, positive,
                               value=None, defn=(kind, args, fvalue))
    return _ATOMS[key]


# ---------------------------------------------------------------- monomials
_mm_cache = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mm_cache.get(k)
    if r is not None:
        return r
    d = dict(a)
    for v, e in b:
        n = d.get(v, 0) + e
        if n == 0:
            d.pop(v, None)
        else:
            if type(n) is Fraction and n.denominator == 1:
                n = int(n)
            d[v] = n
    r = tuple(sorted(d.items()))
    if len(_mm_cache) > 2000000:
        _mm_cache.clear()
    _mm_cache[k] = r
    return r


def mono_conj(m):
    for v, e in m:
        if VARS[v].partner != v:
            return tuple(sorted((VARS[w].partner, e) for w, e in m))
    return m


def mono_reduce(m, c):
    """Pull integer powers of prime atoms into the coefficient."""
    for v, e in m:
        n = VARS[v].name
        if n[0] == "#" and n != "#pi" and (e >= 1 or e < 0):
            p = int(n[1:])
            fl = math.floor(e)
            c = c_mul(c, Fraction(p) ** fl)
            rest = e - fl
            m2 = tuple((w, x) for w, x in m if w != v)
            if rest != 0:
                m2 = tuple(sorted(m2 + ((v, rest),)))
            return mono_reduce(m2, c)
    return m, c


def mul_into(acc, A, B):
    """acc += A*B for term dicts."""
    for ma, ca in A.items():
        for mb, cb in B.items():
            m = mono_mul(ma, mb)
            if DUAL[0] is not None and _drop(m):
                continue
            c = c_mul(ca, cb)
            if _PRIME and len(m):
                m, c = mono_reduce(m, c)
            if m in acc:
                s = c_add(acc[m], c)
                if type(s) is not CQ and s == 0:
                    del acc[m]
                else:
                    acc[m] = s
            elif type(c) is CQ or c != 0:
                acc[m] = c


def add_into(acc, B):
    for m, c in B.items():
        if m in acc:
            s = c_add(acc[m], c)
            if type(s) is not CQ and s == 0:
                del acc[m]
            else:
                acc[m] = s
        else:
            acc[m] = c


def terms(x):
    """Term dict of a Sym or a concrete number."""
    if type(x) is Sym:
        return x.t
    c = to_coef(x)
    if type(c) is not CQ and c == 0:
        return {}
    return {(): c}


def has_sym(x):
    return type(x) is Sym


class SymBool:
    """A comparison whose truth value depends on symbolic values.
    op in 'ne','lt','le' applied to (sym, 0); or boolean combinations."""
    __slots__ = ("op", "args")

    def __init__(self, op, *args):
        self.op = op
        self.args = args

    def __bool__(self):
        from . import ctx
        return ctx.decide(self)

    def __invert__(self):
        return SymBool("not", self)

    def __and__(self, o):
        return SymBool("and", self, o)

    __rand__ = __and__

    def __or__(self, o):
        return SymBool("or", self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool("or", SymBool("and", self, SymBool("not", o)),
                       SymBool("and", SymBool("not", self), o))

    def __repr__(self):
        return f"SymBool({self.op},{self.args})"


class Sym(numbers.Number):
    __slots__ = ("t", "_k", "_i")
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, t):
        self.t = t
        self._k = None
        self._i = None      # inverse, once computed

    # -- structure
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(
                ((m, (c.re, c.im) if type(c) is CQ else (c, 0))
                 for m, c in self.t.items()), key=repr))
        return self._k

    def is_const(self):
        return all(VARS[v].value is not None for m in self.t for v, _ in m)

    def const_value(self):
        r = 0.0
        for m, c in self.t.items():
            x = c_complex(c)
            for v, e in m:
                x *= VARS[v].value ** float(e)
            r += x
        return r

    def evaluate(self, val):
        """Numerical value; val: var id -> number."""
        r = 0.0
        for m, c in self.t.items():
            x = c_complex(c)
            for v, e in m:
                x *= val(v) ** (e if type(e) is int else float(e))
            r += x
        return r

    @staticmethod
    def make(t):
        """Sym or plain number from a term dict."""
        if not t:
            return 0.0
        if len(t) == 1 and () in t:
            c = t[()]
            if type(c) is CQ:
                return Sym(t)
            f = float(c)
            if to_coef(f) == c:
                return f
        return Sym(t)

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        s = []
        for m, c in list(self.t.items())[:6]:
            s.append("*".join([str(c)] + [
                VARS[v].name + ("" if e == 1 else f"^{e}") for v, e in m]))
        more = "" if len(self.t) <= 6 else f"+..({len(self.t)})"
        return "<" + " + ".join(s) + more + ">"

    __str__ = __repr__

    def __format__(self, spec):
        # a token standing for the text; unformat() gives the number back
        if not spec:
            return repr(self)
        key = f"<#{len(FORMATTED)}>"
        FORMATTED[key] = self
        return key

    # -- arithmetic
    def _bin(self, o, f):
        if isinstance(o, np.ndarray):
            from . import arr
            return arr.elementwise2(f, self, o)
        if isinstance(o, numbers.Number) or isinstance(o, np.generic):
            return f(self, o)
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda a, b: a + b)
        try:
            T = terms(o)
        except NotANumber:
            return math.nan     # as in IEEE arithmetic
        except TypeError:
            return NotImplemented
        acc = dict(self.t)
        add_into(acc, T)
        return Sym.make(acc)

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        return Sym({m: c_neg(c) for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda a, b: a - b)
        try:
            T = terms(o)
        except NotANumber:
            return math.nan     # as in IEEE arithmetic
        except TypeError:
            return NotImplemented
        acc = dict(self.t)
        add_into(acc, {m: c_neg(c) for m, c in T.items()})
        return Sym.make(acc)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda a, b: b - a)
        return (-self).__add__(o)

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda a, b: a * b)
        try:
            T = terms(o)
        except NotANumber:
            return math.nan     # as in IEEE arithmetic
        except TypeError:
            return NotImplemented
        if not T:
            return 0.0
        acc = {}
        if len(T) == 1 and () in T:
            c0 = T[()]
            acc = {m: c_mul(c, c0) for m, c in self.t.items()}
        else:
            mul_into(acc, self.t, T)
        return Sym.make(acc)

    def __rmul__(self, o):
        return self.__mul__(o)

    def inverse(self):
        if self._i is None:
            self._i = self._inverse()
        return self._i

    def _inverse(self):
        if not self.t:
            raise ZeroDivisionError("symbolic zero")
        r = dual_apply(self, lambda a: 1 / a, lambda a: -1 / (a * a))
        if r is not None:
            return r
        if len(self.t) == 1:
            (m, c), = self.t.items()
            for v, e in m:
                _need_nonzero(v)
            mm, cc = mono_reduce(tuple((v, -e) for v, e in m), c_inv(c))
            return Sym.make({mm: cc})
        if self.is_const():
            x = 1 / complex(self.const_value())
            return x.real if x.imag == 0 else Sym.make({(): to_coef(x)})
        if not self.is_real():
            n = self * self.conjugate()
            return self.conjugate() * n.inverse()
        # normalise the leading coefficient so that proportional denominators
        # share an atom
        m0 = min(self.t, key=repr)
        c0 = self.t[m0]
        q = self * c_inv_num(c0)
        lo, hi = -1e9, 1e9
        iv = interval(q)
        if iv is not None and (iv[0] > 0 or iv[1] < 0):
            lo, hi = 1 / iv[1], 1 / iv[0]
        a = atom("inv", (q,), lo, hi, lambda x: 1 / x, lo > 0)
        return a * c_inv_num(c0)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda a, b: a / b)
        if type(o) is Sym:
            return self * o.inverse()
        try:
            c = to_coef(o)
        except NotANumber:
            return math.nan
        except TypeError:
            return NotImplemented
        if type(c) is not CQ and c == 0:
            raise ZeroDivisionError("division by zero")
        ci = c_inv(c)
        return Sym.make({m: c_mul(k, ci) for m, k in self.t.items()})

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda a, b: b / a)
        if type(o) is not Sym and isinstance(o, numbers.Number) and o == 0:
            return 0.0
        return self.inverse().__mul__(o)

    def __pow__(self, n):
        if isinstance(n, np.ndarray):
            return self._bin(n, lambda a, b: a ** b)
        if type(n) is Sym:
            if n.is_const():
                n = n.const_value()
            else:
                return power_atom(self, n)
        if isinstance(n, np.generic):
            n = n.item()
        if isinstance(n, complex) and abs(n.imag) < 1e-12:
            n = n.real      # eigenvalues that are real
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, int):
            if n == 0:
                return 1
            if n < 0:
                return self.inverse() ** (-n)
            r = None
            b = self
            while n:
                if n & 1:
                    r = b if r is None else r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        fr = Fraction(n).limit_denominator(1000)
        if float(fr) == float(n):
            r = dual_apply(self, lambda a: a ** n,
                           lambda a: a ** float(fr - 1) * n)
            if r is not None:
                return r
            if fr.denominator == 2:
                r = sqrt(self)
                return r ** fr.numerator
            if len(self.t) == 1:
                (m, c), = self.t.items()
                if all(VARS[v].positive for v, _ in m) and type(c) is not CQ \
                        and c > 0:
                    k = root_const(c, fr)
                    mm = tuple((v, _n(e * fr)) for v, e in m)
                    return Sym.make({mm: 1}) * k
        if len(self.t) == 1 and isinstance(n, float):
            (m, c), = self.t.items()
            if all(VARS[v].positive and VARS[v].value is None
                   for v, _ in m) and type(c) is not CQ and (
                       c == 1 or (c > 0 and FLOAT[0])):
                # exponents are told apart down to 1e-8
                if abs(float(fr) - n) > 1e-9:
                    fr = Fraction(round(n * 10 ** 8), 10 ** 8)
                return Sym.make({tuple((v, _n(e * fr)) for v, e in m):
                                 1 if c == 1 else float(c) ** n})
        return power_atom(self, n)

    def __rpow__(self, o):
        return power_atom(o, self)

    def __round__(self, n=None):
        if self.is_const():
            return round(self.const_value(), n)
        if not self.is_real():
            raise TypeError("type complex doesn't define __round__ method")
        h = 0.5 * 10.0 ** -(n or 0)
        return self + atom("rnd", (self, n), -h, h,
                           lambda x, m: round(complex(x).real, m)
                           - complex(x).real)

    def __abs__(self):
        if self.is_const():
            return abs(self.const_value())
        a, b = dual_parts(self)
        if type(a) is not Sym and a == 0:
            return Sym({((DUAL[0], 1),): 1}) * abs(b)
        if self.is_real():
            if self >= 0:
                return self
            return -self
        # sqrt(|z|^2)
        k, z = positive_content(self)
        return k * sqrt(z * z.conjugate())

    # -- complex structure
    def conjugate(self):
        return Sym({mono_conj(m): c_conj(c) for m, c in self.t.items()})

    conj = conjugate

    def is_real(self):
        for m, c in self.t.items():
            if type(c) is CQ:
                break
            if mono_conj(m) != m:
                break
        else:
            return True
        d = self - self.conjugate()
        return type(d) is not Sym or not d.t

    @property
    def real(self):
        return (self + self.conjugate()) * Fraction(1, 2)

    @property
    def imag(self):
        d = self - self.conjugate()
        return d * Sym({(): CQ(0, Fraction(-1, 2))}) if type(d) is Sym \
            else (d * -0.5j).real

    # -- conversions
    def __float__(self):
        if self.is_const():
            v = self.const_value()
            if isinstance(v, complex):
                if v.imag != 0:
                    raise TypeError("can't convert complex to float")
                v = v.real
            return v
        raise EncodingError("float() of a symbolic value at a C boundary")

    def __complex__(self):
        if self.is_const():
            return complex(self.const_value())
        raise EncodingError("complex() of a symbolic value at a C boundary")

    def __int__(self):
        if self.is_const():
            return int(self.const_value())
        raise EncodingError("int() of a symbolic value")

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            from . import arr
            return arr.compare(self, o, op)
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return NotImplemented
        try:
            d = self - o
        except TypeError:
            return NotImplemented
        if d is NotImplemented:
            return NotImplemented
        if type(d) is not Sym or d.is_const():
            v = d if type(d) is not Sym else d.const_value()
            if op == "eq":
                return v == 0
            if op == "ne":
                return v != 0
            v = v.real
            return {"lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0}[op]
        if DUAL[0] is not None:
            a, b = dual_parts(d)
            if type(a) is not Sym and a == 0:
                return Sym._cmp(b, 0, op) if type(b) is Sym else \
                    _cmp0(b, op)
            if type(a) is not Sym or a is not d and a.is_const():
                return _cmp0(a if type(a) is not Sym else a.const_value(), op)
            if op in ("lt", "le", "gt", "ge") and len(a.t) < len(d.t):
                return a._cmp(0, op)    # the finite part decides
        if op == "ne":
            return SymBool("ne", d)
        if op == "eq":
            return SymBool("not", SymBool("ne", d))
        if not d.is_real():
            raise TypeError("ordering comparison of complex values")
        if op == "lt":
            return SymBool("lt", d)
        if op == "le":
            return SymBool("le", d)
        if op == "gt":
            return SymBool("lt", -d)
        return SymBool("le", -d)

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __bool__(self):
        return bool(self != 0)

    # -- ufunc-style methods (used by numpy on object arrays)
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return fn1("exp", self)

    def log(self):
        return fn1("log", self)


numbers.Complex.register(Sym)


class SymName:
    """A string of unknown content. Equality of two of them is a branch on
    their identities; a constant hash makes dictionaries and sets ask."""
    __slots__ = ("label", "v")

    def __init__(self, label, v):
        self.label, self.v = label, v

    def __hash__(self):
        return 77

    def __eq__(self, o):
        if type(o) is SymName:
            if o.v is self.v:
                return True
            d = self.v - o.v
            if type(d) is not Sym:
                return d == 0
            return bool(SymBool("and", SymBool("le", d), SymBool("le", -d)))
        return False

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return "'" + self.label + "'"

    def __str__(self):
        return self.label

    __format__ = lambda self, spec: self.label


def _cmp0(v, op):
    if op == "eq":
        return v == 0
    if op == "ne":
        return v != 0
    v = v.real
    return {"lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0}[op]


def _n(e):
    return int(e) if e == int(e) else e


def c_inv_num(c):
    ci = c_inv(c)
    return Sym({(): ci}) if type(ci) is CQ else ci


def _need_nonzero(v):
    x = VARS[v]
    if x.value is not None or x.positive or (x.lo > 0) or (x.hi < 0):
        return
    if x.kind == "r" and x.defn is not None:
        return
    from . import ctx
    ctx.note_nonzero(v)


def _factor(n):
    f = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            f[p] = f.get(p, 0) + 1
            n //= p
        p += 1
        if p > 20000:
            return None
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def root_const(c, fr):
    """c**fr for rational c>0, exactly if c has small prime factors."""
    if FLOAT[0]:
        return float(c) ** float(fr)
    c = Fraction(c)
    if c == 1:
        return 1
    if c.numerator < 10**9 and c.denominator < 10**9:
        a, b = _factor(c.numerator), _factor(c.denominator)
        if a is not None and b is not None:
            r = Fraction(1)
            m = ()
            for p, e in list(a.items()) + [(p, -e) for p, e in b.items()]:
                x = Fraction(e) * fr
                fl = math.floor(x)
                r *= Fraction(p) ** fl
                if x != fl:
                    m = mono_mul(m, ((prime_var(p).id, x - fl),))
            mm, cc = mono_reduce(m, r)
            return Sym.make({mm: cc})
    return float(c) ** float(fr)


def sqrt(x):
    if type(x) is not Sym:
        x = to_coef(x)
        if type(x) is CQ:
            import cmath
            return cmath.sqrt(c_complex(x))
        if x < 0:
            raise ValueError("math domain error")
        if x == 0:
            return 0.0
        return root_const(x, Fraction(1, 2))
    if x.is_const() and len(x.t) != 1:
        return math.sqrt(float(x))
    r = dual_apply(x, sqrt, lambda a: 0.5 / sqrt(a))
    if r is not None:
        return r
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if type(c) is not CQ and c > 0 and all(
                VARS[v].positive or (VARS[v].kind == "r" and e % 2 == 0)
                for v, e in m):
            out = Sym.make({tuple((v, _n(e * Fraction(1, 2)))
                                  for v, e in m if VARS[v].positive): 1})
            for v, e in m:
                if not VARS[v].positive:
                    h = Sym({((v, e // 2),): 1})
                    out = out * (abs(h) if (e // 2) % 2 else h)
            return out * root_const(c, Fraction(1, 2))
    iv = interval(x)
    lo, hi = 0.0, 1e9
    if iv is not None and iv[1] > 0:
        lo, hi = math.sqrt(max(iv[0], 0.0)), math.sqrt(iv[1])
    return atom("sqrt", (x,), lo, hi, lambda v: np.lib.scimath.sqrt(v),
                lo > 0)


FORMATTED = {}


def unformat(s):
    """The number a piece of text made by format() stands for."""
    return FORMATTED[s] if s in FORMATTED else float(s)


def positive_content(x):
    """x = k*z with k a positive monomial."""
    common = None
    for m in x.t:
        e = {v: n for v, n in m if VARS[v].positive}
        common = e if common is None else {
            v: min(n, e[v]) for v, n in common.items() if v in e}
    t = min(x.t, key=lambda m: [(VARS[v].name, n) for v, n in m])
    c = x.t[t]
    c = abs(c) if type(c) is not CQ else abs(c.re) or abs(c.im)
    k = Sym({tuple(sorted(common.items())): c})
    return k, x / k


def fn1(name, x):
    f = {"exp": np.exp, "log": np.log, "sin": np.sin, "cos": np.cos,
         "tan": np.tan, "arctan": np.arctan, "arcsin": np.arcsin,
         "arccos": np.arccos, "angle": np.angle}[name]
    if type(x) is not Sym:
        return f(x)
    if x.is_const():
        return f(x.const_value())
    if name == "angle":
        x = positive_content(x)[1]
    r = dual_apply(x, lambda a: fn1(name, a),
                   {"exp": lambda a: fn1("exp", a), "log": lambda a: 1 / a,
                    "sin": lambda a: fn1("cos", a),
                    "cos": lambda a: -fn1("sin", a)}.get(name, _nodiff))
    if r is not None:
        return r
    lo, hi = {"sin": (-1, 1), "cos": (-1, 1), "angle": (-3.15, 3.15)}.get(
        name, (-1e9, 1e9))
    if name == "exp":
        return atom(name, (x,), 0.0, 1e9, f, positive=True)
    return atom(name, (x,), lo, hi, f)


def _nodiff(a):
    raise EncodingError("derivative not available")


def power_atom(a, b):
    if DUAL[0] is not None and any(DUAL[0] in free_vars(x.t) for x in (a, b)
                                   if type(x) is Sym):
        raise EncodingError("power of an infinitesimal")
    return atom("pow", (a, b), -1e9, 1e9, lambda x, y: x ** y)


def free_vars(t):
    out = set()
    for m in t:
        for v, _ in m:
            out.add(v)
    return out


def closure_vars(ids):
    """Base variables behind a set of ids, following atom definitions."""
    todo, base, atoms = list(ids), set(), []
    seen = set()
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        x = VARS[v]
        if x.value is not None:
            continue
        if x.defn is not None:
            atoms.append(v)
            for a in x.defn[1]:
                if type(a) is Sym:
                    todo += list(free_vars(a.t))
        else:
            base.add(v)
    return base, atoms


def make_valuation(assign):
    """assign: base variable name -> number. Returns id -> number, evaluating
    atoms by their definition."""
    cache = {}

    def val(v):
        if v in cache:
            return cache[v]
        x = VARS[v]
        if x.value is not None:
            r = x.value
        elif x.kind == "cbar":
            r = complex(val(x.partner)).conjugate()
        elif x.defn is not None:
            kind, args, f = x.defn
            r = f(*[a.evaluate(val) if type(a) is Sym else a for a in args])
        else:
            r = assign.get(x.name, 0.0)
        cache[v] = r
        return r
    return val
