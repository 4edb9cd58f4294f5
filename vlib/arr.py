"""numpy arrays with symbolic entries, and the shims that replace `numpy`,
`math`, `complex` and `float` in wilson's modules during symbolic execution."""
import builtins
import cmath
import itertools
import math
import numbers
import types
from fractions import Fraction

import numpy as np

from . import sym
from .sym import Sym, SymBool, EncodingError

real_complex = builtins.complex
real_float = builtins.float


def scal(x, attr):
    if type(x) is Sym:
        return getattr(x, attr)
    if attr == "conj":
        return x.conjugate()
    return getattr(x, attr)


def conj1(x):
    return x.conjugate()


class PartView(np.ndarray):
    """What `a.real` / `a.imag` give: reading yields the parts, assignment
    writes through to the parent, as numpy's views do."""

    def __new__(cls, parent, part):
        vals = np.empty(parent.shape, dtype=object)
        pf, vf = np.asarray(parent, dtype=object).view(np.ndarray).ravel(), vals.ravel()
        for i in range(pf.size):
            x = pf[i]
            vf[i] = getattr(x, part)
        o = vals.reshape(parent.shape).view(cls)
        o._parent, o._part = parent, part
        return o

    def __array_finalize__(self, obj):
        self._parent = None
        self._part = None

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self.view(SymArray), k)
        if isinstance(r, SymArray) and self._parent is not None:
            pv = self._parent[k]
            if isinstance(pv, SymArray) and r.shape == pv.shape and \
                    np.shares_memory(pv, self._parent):
                return PartView(pv, self._part)
        return r

    def __setitem__(self, k, v):
        par = self._parent
        if par is None:
            self.view(SymArray)[k] = v
            return
        old = np.ndarray.__getitem__(par.view(np.ndarray), k)
        if isinstance(v, np.ndarray):
            v = np.asarray(v, dtype=object).view(np.ndarray)
        if isinstance(old, np.ndarray) and old.dtype == object:
            vv = np.broadcast_to(np.asarray(v, dtype=object), old.shape)
            new = np.empty(old.shape, dtype=object)
            for i in np.ndindex(*old.shape):
                new[i] = _set_part(old[i], vv[i], self._part)
        else:
            if isinstance(v, np.ndarray) and v.size == 1:
                v = v.ravel()[0]
            new = _set_part(old, v, self._part)
        np.ndarray.__setitem__(par.view(np.ndarray), k, new)
        # refresh our own copy
        fresh = PartView(par, self._part)
        np.ndarray.__setitem__(self.view(np.ndarray), Ellipsis,
                               fresh.view(np.ndarray))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.get("out")
        ins = [x.view(SymArray) if isinstance(x, PartView) else x
               for x in inputs]
        if out and isinstance(out[0], PartView):
            kw = dict(kw)
            kw.pop("out")
            r = getattr(ufunc, method)(*ins, **kw)
            out[0][...] = r
            return out[0]
        return getattr(ufunc, method)(*ins, **kw)

    def __array_function__(self, func, types, args, kwargs):
        return SymArray.__array_function__(
            self.view(SymArray), func, types, _strip_part(args),
            {k: _strip_part(v) for k, v in kwargs.items()})

    @property
    def real(self):
        return self.view(SymArray).real

    @property
    def imag(self):
        return self.view(SymArray).imag


def _strip_part(x):
    if isinstance(x, PartView):
        return x.view(SymArray)
    if type(x) in (list, tuple):
        return type(x)(_strip_part(y) for y in x)
    return x


_I = Sym({(): sym.CQ(0, 1)})


def _set_part(old, v, part):
    if type(old) is not Sym and type(v) is not Sym:
        old, v = real_complex(old), real_float(np.real(v))
        return real_complex(v, old.imag) if part == "real" else \
            real_complex(old.real, v)
    if type(v) is Sym and not v.is_real():
        raise TypeError("can't convert complex to float")
    if part == "real":
        return v + old.imag * _I if _nz(old.imag) else v + 0.0
    return old.real + v * _I


def _nz(x):
    return type(x) is Sym or x != 0


_PYNUM = frozenset([int, real_float, real_complex])


class SymArray(np.ndarray):
    __array_priority__ = 1e5

    def __new__(cls, shape, fill=0.0, kind="c"):
        a = np.empty(shape, dtype=object)
        a[...] = fill
        o = a.view(cls)
        o._kind = kind
        return o

    def __array_finalize__(self, obj):
        self._kind = getattr(obj, "_kind", None)

    # -- parts
    @property
    def real(self):
        return PartView(self, "real")

    @real.setter
    def real(self, v):
        PartView(self, "real")[...] = v

    @property
    def imag(self):
        return PartView(self, "imag")

    @imag.setter
    def imag(self, v):
        PartView(self, "imag")[...] = v

    def conj(self):
        return map1(conj1, self)

    conjugate = conj

    def view(self, *a, **k):
        d = a[0] if a else k.get("dtype")
        if d in (SymFloat, real_float, np.float64) and self._kind != "f":
            out = np.empty(self.shape[:-1] + (2 * self.shape[-1],), object)
            out[..., 0::2] = map1(lambda x: x.real, self).view(np.ndarray)
            out[..., 1::2] = map1(lambda x: x.imag, self).view(np.ndarray)
            out = np.ndarray.view(out, SymArray)
            out._kind = "f"
            return out
        if d in (SymFloat, real_float, np.float64):
            return self
        if d in (SymComplex, real_complex, np.complex128):
            if self._kind == "c":
                return self
            x = np.ndarray.view(self, np.ndarray)
            out = np.empty(self.shape[:-1] + (self.shape[-1] // 2,), object)
            for i in np.ndindex(*out.shape):
                j = i[:-1] + (2 * i[-1],)
                out[i] = x[j] + x[i[:-1] + (2 * i[-1] + 1,)] * _I
            out = np.ndarray.view(out, SymArray)
            out._kind = "c"
            return out
        return np.ndarray.view(self, *a, **k)

    def astype(self, dtype, *a, **k):
        dtype = undtype(dtype)
        if dtype is object:
            return self.copy()
        if np.issubdtype(np.dtype(dtype), np.complexfloating):
            r = self.copy()
            r._kind = "c"
            return r
        if np.issubdtype(np.dtype(dtype), np.floating):
            r = map1(lambda x: x.real, self)
            r._kind = "f"
            return r
        return concretize(self).astype(dtype, *a, **k)

    def item(self, *a):
        r = np.ndarray.item(self, *a)
        return r

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray):
            if isinstance(v, PartView):
                v = v.view(SymArray)
            if v.dtype != object:
                v = v.astype(object)
            if self._kind == "f":
                v = map1(_discard_im, v)
            v = np.asarray(v).view(np.ndarray)
            tgt = np.ndarray.__getitem__(self.view(np.ndarray), k)
            if not isinstance(tgt, np.ndarray) and v.ndim == 0:
                v = v.item()
        elif self._kind == "f" and isinstance(v, numbers.Number):
            if type(v) is Sym:
                if not v.is_real():
                    raise TypeError("float() argument must be a string or a "
                                    "real number, not 'complex'")
            elif isinstance(v, (real_complex, np.complexfloating)):
                raise TypeError("float() argument must be a string or a real "
                                "number, not 'complex'")
        elif isinstance(v, np.generic):
            v = v.item()
        np.ndarray.__setitem__(self.view(np.ndarray), k, v)

    def __getitem__(self, k):
        if isinstance(k, SymArray) and k.dtype == object:
            k = concretize(k)
        r = np.ndarray.__getitem__(self, k)
        if type(r) in _PYNUM:
            return np.complex128(r) if self._kind == "c" or \
                type(r) is real_complex else np.float64(r)
        return r

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        return call_np(func, args, kwargs)

    def __eq__(self, o):
        return compare(self, o, "eq")

    def __ne__(self, o):
        return compare(self, o, "ne")

    def __lt__(self, o):
        return compare(self, o, "lt")

    def __le__(self, o):
        return compare(self, o, "le")

    def __gt__(self, o):
        return compare(self, o, "gt")

    def __ge__(self, o):
        return compare(self, o, "ge")

    __hash__ = None

    def sum(self, axis=None, **k):
        return np.add.reduce(self, axis=axis) if axis is not None else \
            _sum(self.ravel())

    def trace(self, *a, **k):
        return _sum(self[i, i] for i in range(min(self.shape)))

    def dot(self, o):
        return h_dot(self, o)

    def __matmul__(self, o):
        return h_matmul(self, o)

    def __rmatmul__(self, o):
        return h_matmul(o, self)

    def any(self, *a, **k):
        if a or k:
            return np.ndarray.any(concretize_bool(self), *a, **k)
        return builtins.any(bool(x) for x in self.ravel().view(np.ndarray))

    def all(self, *a, **k):
        if a or k:
            return np.ndarray.all(concretize_bool(self), *a, **k)
        return builtins.all(bool(x) for x in self.ravel().view(np.ndarray))

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one "
                             "element is ambiguous. Use a.any() or a.all()")
        return bool(self.ravel().view(np.ndarray)[0])

    def __complex__(self):
        if self.size == 1:
            return real_complex(self.ravel().view(np.ndarray)[0])
        raise TypeError("only length-1 arrays")

    def __repr__(self):
        return "Sym" + np.ndarray.__repr__(self.view(np.ndarray))


def _discard_im(x):
    return x.real


def concretize_bool(a):
    out = np.empty(a.shape, dtype=bool)
    f, g = a.view(np.ndarray).ravel(), out.ravel()
    for i in range(f.size):
        g[i] = bool(f[i])
    return g.reshape(a.shape)


def _sum(it):
    acc = {}
    conc = 0.0
    anysym = False
    for x in it:
        if type(x) is Sym:
            anysym = True
            sym.add_into(acc, x.t)
        else:
            conc = conc + x
    if not anysym:
        return conc
    return Sym.make(acc) + conc if _nz(conc) else Sym.make(acc)


def map1(f, a, *more):
    a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
    out = np.empty(a.shape, dtype=object)
    src = (a if a.dtype == object else a.astype(object)).view(np.ndarray)
    s, o = src.ravel(), out.ravel()
    for i in range(s.size):
        o[i] = f(s[i], *more)
    r = o.reshape(a.shape).view(SymArray)
    r._kind = getattr(a, "_kind", None)
    return r


def wrap(x, kind=None):
    """object ndarray / list / scalar -> SymArray"""
    if isinstance(x, PartView):
        x = x.view(SymArray)
    if isinstance(x, SymArray) and x.dtype == object:
        return x
    if isinstance(x, np.ndarray):
        k = kind or ("c" if x.dtype.kind == "c" else
                     "f" if x.dtype.kind == "f" else None)
        r = (x if x.dtype == object else x.astype(object)).view(SymArray)
        r._kind = k
        return r
    a = np.empty((), dtype=object)
    a[()] = x
    return a.view(SymArray)


def is_symbolic(x, depth=3):
    if type(x) is Sym or type(x) is SymBool:
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and builtins.any(
            type(y) is Sym or type(y) is SymBool
            for y in x.view(np.ndarray).ravel())
    if depth and isinstance(x, (list, tuple)):
        return builtins.any(is_symbolic(y, depth - 1) for y in x)
    return False


def concretize(x):
    """Concrete numpy array from a SymArray whose entries are all constant."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        f = x.view(np.ndarray).ravel()
        vals = [v if not type(v) is Sym else
                (v.const_value() if v.is_const() else None) for v in f]
        if builtins.any(v is None for v in vals):
            raise EncodingError("symbolic array reached a numeric routine")
        r = np.array(vals).reshape(x.shape) if vals else \
            np.zeros(x.shape)
        if getattr(x, "_kind", None) == "c" and r.dtype.kind != "c" and \
                r.dtype.kind in "fi":
            r = r.astype(real_complex)
        if r.dtype.kind == "i" and getattr(x, "_kind", None) == "f":
            r = r.astype(real_float)
        return r
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if type(x) is Sym:
        return x.const_value() if x.is_const() else x
    if type(x) in (list, tuple):
        return type(x)(concretize(y) for y in x)
    return x


def elementwise2(f, a, b):
    A, B = wrap(a).view(np.ndarray), wrap(b).view(np.ndarray)
    A, B = np.broadcast_arrays(A, B)
    out = np.empty(A.shape, dtype=object)
    flat = out.reshape(-1)
    for i, (x, y) in enumerate(zip(A.ravel().tolist(), B.ravel().tolist())):
        flat[i] = f(x, y)
    return out.view(SymArray)


_OPS = {
    "eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
    "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
    "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
}


def compare(a, b, op):
    r = elementwise2(_OPS[op], a, b)
    if not is_symbolic(r):
        return np.array(r.view(np.ndarray), dtype=bool)
    return r


def _isnan1(x):
    return False if type(x) is Sym else bool(np.isnan(x))


_UF1 = {
    "conjugate": conj1, "sqrt": sym.sqrt, "negative": lambda x: -x,
    "absolute": abs, "fabs": abs,
    "square": lambda x: x * x, "reciprocal": lambda x: 1 / x,
    "exp": lambda x: sym.fn1("exp", x), "log": lambda x: sym.fn1("log", x),
    "sin": lambda x: sym.fn1("sin", x), "cos": lambda x: sym.fn1("cos", x),
    "tan": lambda x: sym.fn1("tan", x),
    "arctan": lambda x: sym.fn1("arctan", x),
    "arcsin": lambda x: sym.fn1("arcsin", x),
    "arccos": lambda x: sym.fn1("arccos", x),
    "positive": lambda x: x,
    "isnan": _isnan1, "isfinite": lambda x: True if type(x) is Sym else
    bool(np.isfinite(x)),
    "isinf": lambda x: False if type(x) is Sym else bool(np.isinf(x)),
    "logical_not": lambda x: ~x if type(x) is SymBool else not x,
}
_UF2 = {
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b, "divide": lambda a, b: a / b,
    "true_divide": lambda a, b: a / b, "power": lambda a, b: a ** b,
    "float_power": lambda a, b: a ** b,
    "equal": _OPS["eq"], "not_equal": _OPS["ne"], "less": _OPS["lt"],
    "less_equal": _OPS["le"], "greater": _OPS["gt"],
    "greater_equal": _OPS["ge"],
    "logical_and": lambda a, b: a & b if SymBool in (type(a), type(b)) else (a and b),
    "logical_or": lambda a, b: a | b if SymBool in (type(a), type(b)) else (a or b),
    "maximum": lambda a, b: a if a >= b else b,
    "minimum": lambda a, b: a if a <= b else b,
}


def array_ufunc(ufunc, method, *inputs, **kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    kw.pop("casting", None)
    kw.pop("dtype", None)
    kw.pop("where", None) if kw.get("where") is True else None
    if not is_symbolic(list(inputs)):
        ins = [concretize(x) for x in inputs]
        r = getattr(ufunc, method)(*ins, **kw)
        if isinstance(r, np.ndarray) and r.dtype.kind in "fcO":
            r = wrap(r)
        elif isinstance(r, np.ndarray):
            pass
    elif method == "__call__" and name in _UF1 and len(inputs) == 1:
        r = map1(_UF1[name], inputs[0])
        if name in ("isnan", "isfinite", "isinf"):
            r = np.array(r.view(np.ndarray), dtype=bool)
    elif method == "__call__" and name in _UF2:
        r = elementwise2(_UF2[name], *inputs)
        if r.ndim == 0:
            r = r.view(np.ndarray)[()]
        elif name in ("equal", "not_equal", "less", "less_equal", "greater",
                      "greater_equal") and not is_symbolic(r):
            r = np.array(r.view(np.ndarray), dtype=bool)
    elif method == "__call__" and name == "matmul":
        r = h_matmul(*inputs)
    elif method == "reduce" and name in ("add", "multiply", "maximum",
                                         "minimum", "logical_and",
                                         "logical_or"):
        a = wrap(inputs[0])
        axis = kw.get("axis", 0)
        if axis is None:
            a = a.ravel()
            axis = 0
        f = _UF2[name]
        cols = np.moveaxis(a.view(np.ndarray), axis, 0)
        if cols.shape[0] == 0:
            r = ufunc.identity
        elif name == "add" and cols.ndim == 1:
            r = _sum(cols)
        else:
            acc = cols[0]
            for i in range(1, cols.shape[0]):
                acc = elementwise2(f, acc, cols[i]).view(np.ndarray)
                if acc.ndim == 0:
                    acc = acc[()]
            r = acc
        if kw.get("keepdims"):
            r = np.expand_dims(np.asarray(r, dtype=object), axis)
        if isinstance(r, np.ndarray):
            r = r.view(SymArray)
    elif method == "outer" and name in _UF2:
        a, b = wrap(inputs[0]), wrap(inputs[1])
        r = elementwise2(_UF2[name], a.reshape(a.shape + (1,) * b.ndim), b)
    else:
        raise EncodingError(f"numpy ufunc {name}.{method} on symbolic values")
    if out:
        o = out[0]
        if isinstance(o, SymArray) or (isinstance(o, np.ndarray)
                                       and o.dtype == object):
            wrap(o)[...] = r
            return o
        raise TypeError(
            f"Cannot cast ufunc '{name}' output into a numeric array")
    if isinstance(r, np.ndarray) and r.dtype == object and \
            not isinstance(r, SymArray):
        r = r.view(SymArray)
    if isinstance(r, SymArray):
        ks = {getattr(x, "_kind", None) for x in inputs
              if isinstance(x, np.ndarray)}
        r._kind = "c" if "c" in ks else None
    return r


# ------------------------------------------------------------ numpy functions
def undtype(d):
    if d is SymComplex:
        return real_complex
    if d is SymFloat:
        return real_float
    return d


def _kind_of(dtype):
    if dtype is None:
        return "f"
    d = undtype(dtype)
    if d is object:
        return None
    k = np.dtype(d).kind
    return {"c": "c", "f": "f", "O": None}.get(k, "i")


def nz_entries(a):
    if not isinstance(a, np.ndarray):
        a = np.asarray(a)
    if a.dtype != object:
        return {tuple(map(int, i)): a[tuple(i)].item()
                for i in np.argwhere(a != 0)} if a.ndim else {(): a.item()}
    v = a.view(np.ndarray)
    out = {}
    for i in np.ndindex(*v.shape):
        x = v[i]
        if type(x) is Sym:
            if x.t:
                out[i] = x
        elif x != 0:
            out[i] = x
    return out


def h_einsum(*ops, **kw):
    spec = ops[0]
    ops = list(ops[1:])
    if not isinstance(spec, str):
        raise EncodingError("einsum without subscripts string")
    spec = spec.replace(" ", "")
    if "..." in spec:
        raise EncodingError("einsum ellipsis")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = ins.replace(",", "")
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise ValueError("einsum: number of operands does not match subscripts")
    ops = [wrap(np.asarray(o, dtype=object) if not isinstance(o, np.ndarray)
                else o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string does not match "
                             "operand dimensions")
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n:
                raise ValueError("operands could not be broadcast together")
    if not builtins.any(is_symbolic(o) for o in ops):
        r = np.einsum(",".join(ins) + "->" + out,
                      *[concretize(o) for o in ops])
        return wrap(r) if isinstance(r, np.ndarray) and r.ndim else \
            (r.item() if isinstance(r, (np.ndarray, np.generic)) else r)

    if len(ops) == 1 and len(set(ins[0])) == len(ins[0]) and \
            sorted(out) == sorted(ins[0]):
        # a permutation of the axes
        return wrap(ops[0]).transpose([ins[0].index(c) for c in out]).copy()
    tens = []
    for s, o in zip(ins, ops):
        d = {}
        letters = "".join(dict.fromkeys(s))
        for idx, x in nz_entries(o).items():
            m = {}
            ok = True
            for c, i in zip(s, idx):
                if m.setdefault(c, i) != i:
                    ok = False
                    break
            if ok:
                d[tuple(m[c] for c in letters)] = sym.terms(x)
        tens.append((letters, d))

    def needed(rest):
        s = set(out)
        for l, _ in rest:
            s |= set(l)
        return s

    def reduce_single(l, d, keep):
        kept = "".join(c for c in l if c in keep)
        if kept == l:
            return l, d
        pos = [l.index(c) for c in kept]
        r = {}
        for idx, t in d.items():
            k = tuple(idx[p] for p in pos)
            if k in r:
                sym.add_into(r[k], t)
            else:
                r[k] = dict(t)
        return kept, r

    cur = list(tens)
    cur = [reduce_single(l, d, needed(cur[:i] + cur[i + 1:]))
           for i, (l, d) in enumerate(cur)]
    while len(cur) > 1:
        # choose the pair with the cheapest join
        best = None
        for i in range(len(cur)):
            for j in range(i + 1, len(cur)):
                li, di = cur[i]
                lj, dj = cur[j]
                sh = set(li) & set(lj)
                cost = len(di) * len(dj)
                for c in sh:
                    cost /= dims[c]
                res = len(set(li) | set(lj))
                key = (cost + 3 ** res * 0.1, i, j)
                if best is None or key < best:
                    best = key
        _, i, j = best
        (la, A), (lb, B) = cur[i], cur[j]
        rest = [cur[k] for k in range(len(cur)) if k not in (i, j)]
        keep = needed(rest)
        sh = [c for c in la if c in lb]
        lout = "".join(c for c in la if c in keep) + \
            "".join(c for c in lb if c in keep and c not in la)
        pb = [lb.index(c) for c in sh]
        pa = [la.index(c) for c in sh]
        byk = {}
        for idx, t in B.items():
            byk.setdefault(tuple(idx[p] for p in pb), []).append((idx, t))
        src = [(0, la.index(c)) if c in la else (1, lb.index(c)) for c in lout]
        R = {}
        for idx, t in A.items():
            for idxb, tb in byk.get(tuple(idx[p] for p in pa), ()):
                k = tuple((idx, idxb)[w][p] for w, p in src)
                acc = R.get(k)
                if acc is None:
                    acc = R[k] = {}
                sym.mul_into(acc, t, tb)
        cur = rest + [(lout, R)]
    l, d = reduce_single(*cur[0], set(out))
    pos = [l.index(c) for c in out]
    shape = tuple(dims[c] for c in out)
    if not shape:
        return Sym.make(d.get((), {}))
    r = SymArray(shape, 0.0, "c")
    rv = r.view(np.ndarray)
    for idx, t in d.items():
        rv[tuple(idx[p] for p in pos)] = Sym.make(t)
    return r


def numeric_factor(a, b):
    """a @ b with one of them numbers: monomial by monomial."""
    left = not is_symbolic(a)
    n, s = (a, b) if left else (b, a)
    N = np.array(concretize(n), dtype=complex)
    by = {}
    v = s.view(np.ndarray)
    for i in np.ndindex(*v.shape):
        x = v[i]
        if type(x) is not Sym:
            if x == 0:
                continue
        for m, c in sym.terms(x).items():
            M = by.get(m)
            if M is None:
                M = by[m] = np.zeros(v.shape, complex)
            M[i] = sym.c_complex(c)
    shape = np.empty(a.shape) @ np.empty(b.shape)
    out = {}
    for m, M in by.items():
        R = N @ M if left else M @ N
        big = np.abs(R).max() if R.size else 0
        for i in np.argwhere(np.abs(R) > big * 1e-18):
            i = tuple(i)
            z = complex(R[i])
            out.setdefault(i, {})[m] = sym.cq(z.real, z.imag)
    r = SymArray(shape.shape, 0.0, "c")
    rv = r.view(np.ndarray)
    for i, t in out.items():
        rv[i] = Sym.make(t)
    return r


def h_matmul(a, b, **kw):
    a, b = wrap(a), wrap(b)
    if sym.FLOAT[0] and a.ndim == 2 and b.ndim in (1, 2) and \
            a.shape[0] > 9 and is_symbolic(a) != is_symbolic(b):
        return numeric_factor(a, b)
    if a.ndim == 2 and b.ndim == 2:
        return wrap(h_einsum("ab,bc->ac", a, b))
    if a.ndim == 2 and b.ndim == 1:
        return wrap(h_einsum("ab,b->a", a, b))
    if a.ndim == 1 and b.ndim == 2:
        return wrap(h_einsum("a,ab->b", a, b))
    if a.ndim == 1 and b.ndim == 1:
        return h_einsum("a,a->", a, b)
    raise EncodingError("matmul of higher rank")


def h_dot(a, b, **kw):
    A, B = wrap(a), wrap(b)
    if A.ndim == 0 or B.ndim == 0:
        return A * B
    if B.ndim <= 2 and A.ndim <= 2:
        return h_matmul(A, B)
    L = "abcdefghijklm"
    la = L[:A.ndim]
    lb = list(L[A.ndim:A.ndim + B.ndim])
    lb[-2] = la[-1]
    return h_einsum(f"{la},{''.join(lb)}", A, B)


def h_tensordot(a, b, axes=2):
    A, B = wrap(a), wrap(b)
    L = "abcdefghijklmnop"
    la, lb = list(L[:A.ndim]), list(L[A.ndim:A.ndim + B.ndim])
    if isinstance(axes, int):
        axa, axb = list(range(A.ndim - axes, A.ndim)), list(range(axes))
    else:
        axa, axb = axes
        axa = [axa] if isinstance(axa, int) else list(axa)
        axb = [axb] if isinstance(axb, int) else list(axb)
    for x, y in zip(axa, axb):
        lb[y] = la[x]
    s = set(la[x] for x in axa)
    out = "".join(c for c in la if c not in s) + \
        "".join(c for c in lb if c not in s)
    return h_einsum(f"{''.join(la)},{''.join(lb)}->{out}", A, B)


def h_array(x=None, dtype=None, copy=True, **kw):
    kind = None if dtype is None else _kind_of(dtype)
    if isinstance(x, np.ndarray):
        w = wrap(x)
        if copy:
            w = w.view(np.ndarray).copy().view(SymArray)
            w._kind = getattr(x, "_kind", None)
    else:
        lst = x
        obj = _nested(lst)
        w = obj.view(SymArray)
        if kind is None:
            flat = obj.ravel()
            if builtins.any(isinstance(v, str) or v is None for v in flat):
                return np.array(x, dtype=undtype(dtype))
            kind = "c" if builtins.any(
                isinstance(v, (real_complex, np.complexfloating)) or
                (type(v) is Sym and not v.is_real()) for v in flat) else None
    if kind == "i":
        return np.array(concretize(w), dtype=undtype(dtype))
    if kind == "f":
        if not isinstance(x, np.ndarray):
            for v in w.view(np.ndarray).ravel():
                if isinstance(v, (real_complex, np.complexfloating)) or \
                        (type(v) is Sym and not v.is_real()):
                    raise TypeError("float() argument must be a string or a "
                                    "real number, not 'complex'")
        w = map1(lambda v: v.real, w)
    if kind is not None:
        w._kind = kind
    nd = kw.get("ndmin", 0)
    while w.ndim < nd:
        w = w[None]
    return w


def _nested(x):
    if isinstance(x, np.ndarray):
        return np.asarray(wrap(x)).view(np.ndarray)
    if isinstance(x, (list, tuple)):
        parts = [_nested(y) for y in x]
        if not parts:
            return np.empty((0,), dtype=object)
        sh = parts[0].shape
        if builtins.any(p.shape != sh for p in parts):
            raise ValueError("setting an array element with a sequence. The "
                             "requested array has an inhomogeneous shape")
        out = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if sh else p[()]
        return out
    if isinstance(x, (range, map, zip)) or (
            hasattr(x, "__iter__") and not isinstance(x, (str, dict)) and
            not isinstance(x, numbers.Number) and hasattr(x, "__len__")):
        return _nested(list(x))
    out = np.empty((), dtype=object)
    out[()] = x.item() if isinstance(x, np.generic) else x
    return out


def h_zeros(shape, dtype=None, *a, _fill=0.0, **k):
    kind = _kind_of(dtype)
    if kind == "i":
        return np.full(shape, _fill, dtype=undtype(dtype))
    return SymArray(shape, _fill, kind)


def h_ones(shape, dtype=None, *a, **k):
    return h_zeros(shape, dtype, _fill=1.0)


def h_full(shape, fill_value, dtype=None, **k):
    if dtype is None:
        dtype = real_complex if (type(fill_value) is Sym and
                                 not fill_value.is_real()) or \
            isinstance(fill_value, real_complex) else real_float
    return h_zeros(shape, dtype, _fill=fill_value)


def h_empty(shape, dtype=None, *a, **k):
    return h_zeros(shape, dtype, _fill=0.0)


def h_like(fill):
    def f(a, dtype=None, *args, **k):
        a = np.asarray(a) if not isinstance(a, np.ndarray) else a
        kind = _kind_of(dtype) if dtype is not None else (
            getattr(a, "_kind", None) if a.dtype == object else
            {"c": "c", "f": "f"}.get(a.dtype.kind, "i"))
        if kind == "i":
            return np.full(a.shape, fill, dtype=a.dtype)
        return SymArray(a.shape, fill, kind)
    return f


def h_full_like(a, fill_value, dtype=None, **k):
    r = h_like(0.0)(a, dtype)
    r[...] = fill_value
    return r


def h_eye(n, m=None, k=0, dtype=None, **kw):
    if dtype is not None and _kind_of(dtype) == "i":
        return np.eye(n, m, k, dtype=undtype(dtype))
    r = wrap(np.eye(n, m, k))
    r._kind = "c" if dtype is not None and _kind_of(dtype) == "c" else "f"
    return r


def h_diag(v, k=0):
    v = wrap(v) if isinstance(v, np.ndarray) else h_array(v)
    if v.ndim == 1:
        n = v.size + abs(k)
        r = SymArray((n, n), 0.0, v._kind)
        for i in range(v.size):
            r[(i + max(0, -k), i + max(0, k))] = v[i]
        return r
    return wrap(np.diag(v.view(np.ndarray), k))


def h_trace(a, *args, **k):
    a = wrap(a)
    if a.ndim != 2 or args or k:
        raise EncodingError("trace with extra arguments")
    return a.trace()


def h_concat(fname):
    f = getattr(np, fname)

    def g(arrs, *a, **k):
        arrs = [np.asarray(wrap(x) if isinstance(x, np.ndarray)
                           else h_array(x)).view(np.ndarray) for x in arrs]
        ks = "c"
        r = f(arrs, *a, **k).view(SymArray)
        r._kind = ks
        return r
    return g


def h_real(x):
    if isinstance(x, np.ndarray):
        return wrap(x).real
    if isinstance(x, (list, tuple)):
        return h_array(x).real
    return x.real


def h_imag(x):
    if isinstance(x, np.ndarray):
        return wrap(x).imag
    if isinstance(x, (list, tuple)):
        return h_array(x).imag
    return x.imag


def h_isnan(x, **k):
    if isinstance(x, np.ndarray):
        return np.array(map1(_isnan1, x).view(np.ndarray), dtype=bool)
    if isinstance(x, (list, tuple)):
        return h_isnan(h_array(x))
    return _isnan1(x)


def h_sum(a, axis=None, **k):
    a = wrap(a) if isinstance(a, np.ndarray) else h_array(list(a))
    if axis is None:
        return _sum(a.view(np.ndarray).ravel())
    return a.sum(axis=axis)


def h_shape(x):
    if type(x) is Sym:
        return ()
    if isinstance(x, np.ndarray):
        return x.shape
    return np.shape(x) if not isinstance(x, (list, tuple)) else \
        h_array(x).shape


def h_einsum_path(*ops, **k):
    ops = [np.zeros(o.shape) if isinstance(o, np.ndarray) else o for o in ops]
    return np.einsum_path(*ops, **k)


def h_where(c, *xy):
    if isinstance(c, np.ndarray) and c.dtype == object:
        c = concretize_bool(c)
    if not xy:
        return np.where(c)
    x, y = (np.asarray(wrap(v)).view(np.ndarray) for v in xy)
    return np.where(c, x, y).view(SymArray)


def h_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    d = elementwise2(lambda x, y: x - y, a, b)
    for x in d.view(np.ndarray).ravel():
        if type(x) is Sym:
            if bool(x != 0):
                return False
    A, B = wrap(a), wrap(b)
    A, B = np.broadcast_arrays(A.view(np.ndarray), B.view(np.ndarray))
    for x, y in zip(A.ravel(), B.ravel()):
        if type(x) is not Sym and type(y) is not Sym and \
                not np.allclose(x, y, rtol, atol):
            return False
    return True


def h_kron(a, b):
    A, B = wrap(a), wrap(b)
    if A.ndim != 2 or B.ndim != 2:
        raise EncodingError("kron")
    r = h_einsum("ab,cd->acbd", A, B)
    return r.reshape(A.shape[0] * B.shape[0], A.shape[1] * B.shape[1])


def h_outer(a, b, **k):
    return h_einsum("a,b->ab", wrap(a).ravel(), wrap(b).ravel())


def h_fill_diagonal(a, v, wrap=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = v[i] if isinstance(v, (np.ndarray, list)) else v


def h_iscomplex(x):
    f = lambda v: (not v.is_real()) if type(v) is Sym else bool(np.iscomplex(v))
    return np.array(map1(f, x).view(np.ndarray), dtype=bool) \
        if isinstance(x, np.ndarray) else f(x)


def h_iscomplexobj(x):
    if type(x) is Sym:
        return not x.is_real()
    if isinstance(x, np.ndarray) and x.dtype == object:
        return getattr(x, "_kind", "c") != "f"
    return np.iscomplexobj(x)


def h_isreal(x):
    r = h_iscomplex(x)
    return ~r if isinstance(r, np.ndarray) else not r


def h_angle(x, deg=False):
    return map1(lambda v: sym.fn1("angle", v), x) \
        if isinstance(x, np.ndarray) else sym.fn1("angle", x)


def h_nan_to_num(x, *a, **k):
    f = lambda v: v if type(v) is Sym else np.nan_to_num(v, *a, **k).item()
    return map1(f, x) if isinstance(x, np.ndarray) else f(x)


def h_prod(a, *args, **k):
    r = 1
    for x in wrap(a).view(np.ndarray).ravel():
        r = r * x
    return r


def h_count_nonzero(a, *args, **k):
    return builtins.sum(1 for x in wrap(a).view(np.ndarray).ravel() if x != 0)


def h_nonzero(a):
    return np.nonzero(concretize_bool(map1(lambda x: x != 0, a)))


def h_multi_dot(arrays, **kw):
    r = arrays[0]
    for a in arrays[1:]:
        r = h_dot(r, a)
    return r


def h_inner(a, b):
    return h_tensordot(a, b, axes=([np.ndim(a) - 1], [np.ndim(b) - 1])) \
        if np.ndim(a) and np.ndim(b) else a * b


def h_vdot(a, b):
    a, b = h_array(a).ravel(), h_array(b).ravel()
    return h_dot(a.conj(), b)


def h_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, "fro") or axis is not None or \
            (ord == 2 and np.ndim(x) != 1):
        raise EncodingError("numpy function norm on symbolic values")
    x = h_array(x).ravel()
    return sym.sqrt(_sum([a * a.conjugate() for a in x]))


HANDLERS = {
    "multi_dot": h_multi_dot, "inner": h_inner, "vdot": h_vdot,
    "norm": h_norm,
    "einsum": h_einsum, "matmul": h_matmul, "dot": h_dot,
    "tensordot": h_tensordot, "trace": h_trace, "diag": h_diag,
    "real": h_real, "imag": h_imag, "isnan": h_isnan, "sum": h_sum,
    "shape": h_shape, "einsum_path": h_einsum_path, "where": h_where,
    "allclose": h_allclose, "kron": h_kron, "outer": h_outer,
    "hstack": h_concat("hstack"), "vstack": h_concat("vstack"),
    "concatenate": h_concat("concatenate"), "stack": h_concat("stack"),
    "fill_diagonal": h_fill_diagonal, "iscomplex": h_iscomplex,
    "iscomplexobj": h_iscomplexobj, "isreal": h_isreal, "angle": h_angle,
    "nan_to_num": h_nan_to_num, "prod": h_prod,
    "count_nonzero": h_count_nonzero, "nonzero": h_nonzero,
    "isclose": lambda a, b, **k: compare(a, b, "eq"),
    "array_equal": h_allclose,
    "copy": lambda a, **k: h_array(a, copy=True),
}
# functions that merely rearrange entries
MOVERS = {"transpose", "moveaxis", "swapaxes", "reshape", "ravel", "squeeze",
          "expand_dims", "broadcast_to", "repeat", "tile", "take", "flip",
          "roll", "rollaxis", "triu", "tril", "diagonal", "delete", "insert",
          "append", "pad", "rot90", "fliplr", "flipud", "atleast_1d",
          "atleast_2d", "split", "array_split", "ix_", "block", "put",
          "copyto", "indices", "ndim", "size", "broadcast_arrays"}
CREATORS = {
    "array": h_array, "asarray": lambda x, dtype=None, **k:
        h_array(x, dtype, copy=False),
    "asanyarray": lambda x, dtype=None, **k: h_array(x, dtype, copy=False),
    "ascontiguousarray": lambda x, dtype=None, **k: h_array(x, dtype, False),
    "zeros": h_zeros, "ones": h_ones, "full": h_full, "empty": h_empty,
    "zeros_like": h_like(0.0), "ones_like": h_like(1.0),
    "empty_like": h_like(0.0), "full_like": h_full_like,
    "eye": h_eye, "identity": lambda n, dtype=None: h_eye(n, dtype=dtype),
    "diag": h_diag, "real": h_real, "imag": h_imag, "shape": h_shape,
    "copy": lambda a, **k: h_array(a, copy=True),
}


def _base(x):
    if isinstance(x, np.ndarray) and (x.dtype == object or
                                      isinstance(x, SymArray)):
        return x.view(np.ndarray)
    if type(x) in (list, tuple):
        return type(x)(_base(y) for y in x)
    return x


def _rewrap(r):
    if isinstance(r, np.ndarray) and r.dtype.kind in "fcO":
        return wrap(r)
    if type(r) in (tuple, list):
        return type(r)(_rewrap(x) for x in r)
    if isinstance(r, tuple) and hasattr(r, "_fields"):
        return type(r)(*[_rewrap(x) for x in r])
    if isinstance(r, np.generic):
        return r.item()
    return r


def call_np(func, args, kwargs):
    name = func.__name__
    kwargs = {k: undtype(v) for k, v in kwargs.items()}
    args = [undtype(a) for a in args]
    args = _strip_part(args)
    if is_symbolic(list(args)) or is_symbolic(list(kwargs.values())):
        if isinstance(func, np.ufunc):
            args = [wrap(a) if type(a) is Sym else a for a in args]
            r = array_ufunc(func, "__call__", *args, **kwargs)
            if isinstance(r, np.ndarray) and r.ndim == 0:
                r = r.view(np.ndarray)[()]
            return r
        if name in HANDLERS:
            return HANDLERS[name](*args, **kwargs)
        if name in MOVERS:
            return _rewrap(func(*_base(args), **kwargs))
        raise EncodingError(f"numpy function {name} on symbolic values")
    if name in MOVERS:
        return _rewrap(func(*_base(args), **kwargs))
    args = [concretize(a) for a in args]
    kwargs = {k: concretize(v) for k, v in kwargs.items()}
    return _rewrap(func(*args, **kwargs))


class ModuleShim:
    """Stands in for numpy or one of its submodules."""

    def __init__(self, mod, creators=True):
        self.__dict__["_mod"] = mod
        self.__dict__["_cr"] = creators
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        c = self._cache
        if name not in c:
            c[name] = shim_value(getattr(self._mod, name),
                                 name if self._cr else None)
        return c[name]


class FuncShim:
    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__
        self.__wrapped__ = f

    def __call__(self, *args, **kw):
        return call_np(self.f, args, kw)

    def __getattr__(self, n):
        a = getattr(self.f, n)
        if n in ("reduce", "outer", "accumulate") and isinstance(
                self.f, np.ufunc):
            uf = self.f

            def g(*args, **kw):
                if is_symbolic(list(args)):
                    args = [wrap(h_array(x)) if not isinstance(x, np.ndarray)
                            else x for x in args]
                    return array_ufunc(uf, n, *args, **kw)
                return _rewrap(a(*[concretize(x) for x in args], **kw))
            return g
        return a


class CreatorShim:
    def __init__(self, f, h):
        self.f, self.h = f, h
        self.__name__ = f.__name__

    def __call__(self, *args, **kw):
        args = _strip_part([undtype(a) for a in args])
        kw = {k: undtype(v) for k, v in kw.items()}
        return self.h(*args, **kw)


def shim_value(v, name=None):
    """Replacement for a global of a wilson module; identity if none needed."""
    if v is np:
        return NP
    if isinstance(v, types.ModuleType):
        if v is math:
            return MATH
        if v is cmath:
            return MATH
        if v.__name__.startswith("numpy."):
            return ModuleShim(v, False)
        if v is builtins:
            return v
        return v
    if v is real_complex:
        return SymComplex
    if v is real_float:
        return SymFloat
    if isinstance(v, np.ufunc):
        return FuncShim(v)
    mod = getattr(v, "__module__", None) or ""
    if callable(v) and not isinstance(v, type) and (
            mod.startswith("numpy") or type(v).__name__ in
            ("_ArrayFunctionDispatcher",)):
        n = getattr(v, "__name__", None)
        if n in CREATORS and getattr(np, n, None) is v:
            return CreatorShim(v, CREATORS[n])
        return FuncShim(v)
    if isinstance(v, types.BuiltinFunctionType) and mod == "math":
        return math_shim(v)
    if isinstance(v, types.BuiltinFunctionType) and mod == "cmath":
        return math_shim(v)
    return v


def math_shim(f):
    n = f.__name__
    if n == "sqrt":
        def g(x):
            if type(x) is Sym:
                return sym.sqrt(x)
            if isinstance(x, (int, real_float)) and x > 0:
                r = f(x)
                if r * r == x and r == int(r):
                    return r
                return sym.sqrt(x) if EXACT_ROOTS[0] else r
            return f(x)
    elif n in ("exp", "log", "sin", "cos", "tan", "asin", "acos", "atan"):
        nn = {"asin": "arcsin", "acos": "arccos", "atan": "arctan"}.get(n, n)

        def g(x, *a):
            if type(x) is Sym:
                r = sym.fn1(nn, x)
                if a:
                    r = r / sym.fn1("log", a[0])
                return r
            return f(x, *a)
    elif n == "pow":
        g = lambda x, y: x ** y if Sym in (type(x), type(y)) else f(x, y)
    elif n in ("isnan", "isinf"):
        g = lambda x: False if type(x) is Sym else f(x)
    elif n == "isfinite":
        g = lambda x: True if type(x) is Sym else f(x)
    elif n in ("fabs",):
        g = lambda x: abs(x) if type(x) is Sym else f(x)
    elif n == "fsum":
        g = lambda it: _sum(list(it))
    elif n == "isclose":
        g = lambda a, b, **k: (a == b) if Sym in (type(a), type(b)) \
            else f(a, b, **k)
    else:
        g = f
        return g
    g.__name__ = n
    return g


EXACT_ROOTS = [False]


class _MathShim:
    def __getattr__(self, name):
        v = getattr(math, name)
        return math_shim(v) if callable(v) else v


MATH = _MathShim()
NP = ModuleShim(np)


class _MetaC(type):
    def __instancecheck__(cls, x):
        return isinstance(x, real_complex) or type(x) is Sym

    def __subclasscheck__(cls, c):
        return issubclass(c, real_complex)


class SymComplex(metaclass=_MetaC):
    """`complex` as seen by wilson during symbolic execution."""
    def __new__(cls, re=0, im=0):
        if type(re) is Sym or type(im) is Sym:
            return re + im * _I if _nz(im) else re
        if isinstance(re, np.ndarray):
            re = re.item()
            if type(re) is Sym:
                return re
        return real_complex(re, im) if not isinstance(re, str) else \
            real_complex(re)


class _MetaF(type):
    def __instancecheck__(cls, x):
        return isinstance(x, real_float) or (type(x) is Sym and x.is_real())

    def __subclasscheck__(cls, c):
        return issubclass(c, real_float)


class SymFloat(metaclass=_MetaF):
    """`float` as seen by wilson during symbolic execution."""
    def __new__(cls, x=0.0):
        if type(x) is Sym:
            if not x.is_real():
                raise TypeError("float() argument must be a string or a real "
                                "number, not 'complex'")
            return x
        if isinstance(x, np.ndarray) and x.size == 1:
            return SymFloat(x.ravel().view(np.ndarray)[0]) \
                if x.dtype == object else real_float(x)
        return real_float(x)

    fromhex = real_float.fromhex
