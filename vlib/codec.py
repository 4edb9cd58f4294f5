"""json and yaml as seen by wilson during symbolic execution.

The real encoders and decoders run on the real text; a symbolic number is
represented by its own token, an ordinary finite double with 17 significant
digits, which the decoder's output maps back.  (Assumption: json and yaml treat
all finite non-zero doubles alike.)"""
import json
import random

import numpy as np
import yaml

from .sym import Sym


class Codec:
    def __init__(self, c):
        self.back = {}
        self.fwd = {}
        self.rng = random.Random(5)
        self.json = _Json(self)
        self.yaml = _Yaml(self)

    def token(self, x):
        k = x.key()
        if k not in self.fwd:
            while True:
                t = self.rng.uniform(1.0, 9.0) * 10.0 ** self.rng.randint(-9, 9)
                if len(repr(t)) > 15 and t not in self.back:
                    break
            if not x.is_real():
                t = complex(t, t / 3)
            self.fwd[k] = t
            self.back[t] = x
            if not isinstance(t, complex):
                self.back[-t] = -x
        return self.fwd[k]

    def enc(self, x):
        if type(x) is Sym:
            return self.token(x)
        if isinstance(x, dict):
            y = type(x)() if type(x) in (dict,) else x.__class__()
            for k, v in x.items():
                y[k] = self.enc(v)
            return y
        if type(x) in (list, tuple):
            return type(x)(self.enc(v) for v in x)
        return x

    def dec(self, x):
        if isinstance(x, (float, complex)):
            return self.back.get(x, x)
        if isinstance(x, dict):
            y = x.__class__()
            for k, v in x.items():
                y[k] = self.dec(v)
            return y
        if type(x) in (list, tuple):
            return type(x)(self.dec(v) for v in x)
        return x


class _Mod:
    def __init__(self, codec, mod, enc, dec):
        self.codec, self.mod = codec, mod
        self._enc, self._dec = enc, dec

    def __getattr__(self, n):
        f = getattr(self.mod, n)
        if n in self._enc:
            return lambda d, *a, **k: f(self.codec.enc(d), *a, **k)
        if n in self._dec:
            return lambda *a, **k: self.codec.dec(f(*a, **k))
        return f


def _Json(c):
    return _Mod(c, json, ("dump", "dumps"), ("load", "loads"))


def _Yaml(c):
    return _Mod(c, yaml, ("dump", "safe_dump"),
                ("load", "safe_load", "full_load"))


def stubs(*modnames):
    """stubs= for a harness: json and yaml of these wilson modules."""
    def f(c):
        if not c.symbolic:
            return {}
        from .h import M
        k = Codec(c)
        out = {}
        for n in modnames:
            m = M(n)
            for a in ("json", "yaml"):
                if hasattr(m, a):
                    out[m, a] = getattr(k, a)
        return out
    return f
