"""Swap numpy/math/complex/float in wilson's (and ckmutil's) module globals for
their symbolic counterparts, and back."""
import contextlib
import sys
import types

import numpy as np

from . import arr

PREFIXES = ("wilson", "ckmutil")


def target_modules():
    for n, m in list(sys.modules.items()):
        if m is not None and isinstance(m, types.ModuleType) and \
                n.split(".")[0] in PREFIXES and ".test_" not in n:
            yield n, m


def caches():
    """Everything with an lru_cache, wherever it hangs in wilson."""
    seen = set()
    for n, m in target_modules():
        for k, v in list(vars(m).items()):
            for x in [v] + (list(vars(v).values()) if isinstance(v, type)
                            else []):
                x = getattr(x, "__func__", x)
                if hasattr(x, "cache_clear") and id(x) not in seen:
                    seen.add(id(x))
                    yield x


def clear_caches():
    for c in caches():
        try:
            c.cache_clear()
        except Exception:
            pass
    restore_state()


# Module-level, class-level and default-argument containers of wilson, as they
# were after import: what one path leaves there must not reach the next one.
_SNAP = None


def _containers():
    seen = set()

    def walk(x, depth):
        if isinstance(x, (dict, list, set)) and id(x) not in seen:
            seen.add(id(x))
            yield x
            if depth and len(x) < 500:
                for y in (x.values() if isinstance(x, dict) else x):
                    if isinstance(y, (dict, list, set)):
                        yield from walk(y, depth - 1)

    def func(f):
        f = getattr(f, "__func__", f)
        f = getattr(f, "__wrapped__", f)
        if isinstance(f, types.FunctionType):
            for d in (f.__defaults__ or ()):
                yield from walk(d, 1)
            for d in (f.__kwdefaults__ or {}).values():
                yield from walk(d, 1)
            for d in (f.__closure__ or ()):
                try:
                    yield from walk(d.cell_contents, 1)
                except ValueError:
                    pass
            yield from walk(f.__dict__, 1)
    for n, m in target_modules():
        for k, v in list(vars(m).items()):
            if k.startswith("__"):
                continue
            yield from walk(v, 3)
            yield from func(v)
            if isinstance(v, type) and getattr(
                    v, "__module__", "").split(".")[0] in PREFIXES:
                for k2, v2 in list(vars(v).items()):
                    if not k2.startswith("__"):
                        yield from walk(v2, 2)
                        yield from func(v2)


def snapshot():
    global _SNAP
    mods = {n: set(vars(m)) for n, m in target_modules()}
    _SNAP = (mods, [(x, x.copy()) for x in _containers()])


def restore_state():
    if _SNAP is None:
        return
    for x, y in _SNAP[1]:
        if isinstance(x, list):
            if len(x) != len(y) or any(a is not b for a, b in zip(x, y)):
                x[:] = y
        elif isinstance(x, dict):
            if len(x) != len(y) or any(
                    a is not b or x[a] is not y[b] for a, b in zip(x, y)):
                x.clear()
                x.update(y)
        elif x != y:
            x.clear()
            x.update(y)


def _wrap_data(v, depth=0):
    return v


@contextlib.contextmanager
def symbolic(extra=None):
    """extra: {(module, name): value} further replacements (stubs)."""
    saved = []
    arr.EXACT_ROOTS[0] = True

    def put(m, k, v):
        saved.append((m, k, vars(m).get(k, _MISSING)))
        setattr(m, k, v)
    try:
        for n, m in target_modules():
            for k, v in list(vars(m).items()):
                if k.startswith("__"):
                    continue
                w = arr.shim_value(v)
                if w is not v:
                    put(m, k, w)
            for k, v in (("complex", arr.SymComplex), ("float", arr.SymFloat)):
                if k not in vars(m):
                    put(m, k, v)
        for (m, k), v in (extra or {}).items():
            put(m, k, v)
        yield
    finally:
        for m, k, v in reversed(saved):
            if v is _MISSING:
                try:
                    delattr(m, k)
                except AttributeError:
                    pass
            else:
                setattr(m, k, v)
        arr.EXACT_ROOTS[0] = False


@contextlib.contextmanager
def concrete(extra=None):
    saved = []
    try:
        for (m, k), v in (extra or {}).items():
            saved.append((m, k, vars(m).get(k, _MISSING)))
            setattr(m, k, v)
        yield
    finally:
        for m, k, v in reversed(saved):
            if v is _MISSING:
                delattr(m, k)
            else:
                setattr(m, k, v)


class _Missing:
    pass


_MISSING = _Missing()
