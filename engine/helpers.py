"""Symbolic-aware versions of the builtins that C code would otherwise concretise."""

from __future__ import annotations

import builtins as b

import numpy as np

from engine import sym as S
from engine.sym import SymBool, SymReal, is_sym


def float_(x=0.0):
    t = type(x)
    if t is SymReal:
        return SymReal(x.e, False)
    if t is SymBool:
        return S.mk(S.ex(x))
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return float_(x.view(np.ndarray).ravel().tolist()[0])
    if t is S.SymStr:
        return x.value
    return b.float(x)


def isinstance_(x, cls):
    t = type(x)
    if t is SymReal or t is SymBool:
        like = b.float if t is SymReal else b.bool
        return b.isinstance(x, cls) or like in (cls if b.isinstance(cls, tuple) else getattr(cls, "__args__", (cls,)))
    return b.isinstance(x, cls)


def float64_(x=0.0):
    t = type(x)
    if t is SymReal:
        return SymReal(x.e, True)
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1 and x.ndim == 0:
        return float64_(x.view(np.ndarray).ravel().tolist()[0])
    if isinstance(x, (list, np.ndarray)):
        from engine.shims import np_shim

        return np_shim.array(x)
    return np.float64(x)


def int_(*a, **k):
    if b.len(a) == 1 and not k:
        x = a[0]
        if is_sym(x):
            return S.trunc_int(x)
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return int_(x.view(np.ndarray).ravel().tolist()[0])
    return b.int(*a, **k)


def bool_(x=False):
    t = type(x)
    if t is SymBool:
        return x
    if t is SymReal:
        return S.mkb(x.e != 0)
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return bool_(x.view(np.ndarray).ravel().tolist()[0])
    return b.bool(x)


def round_(x, ndigits=None):
    if is_sym(x):
        return S.rnd(x, ndigits)
    return b.round(x) if ndigits is None else b.round(x, ndigits)


def _ext(name, pick):
    orig = getattr(b, name)

    def f(*a, **k):
        if k.get("key") is not None:
            return orig(*a, **k)
        items = list(a[0]) if b.len(a) == 1 else list(a)
        if items and b.any(is_sym(v) for v in items) and b.all(S.is_num(v) for v in items) and not b.any(S.is_special(v) for v in items):
            r = items[0]
            for v in items[1:]:
                if is_sym(r) or is_sym(v):
                    r = pick(r, v)
                else:
                    r = orig(r, v)
            return r
        if b.len(a) == 1:
            return orig(items, **k)
        return orig(*items, **k)

    return f


max_ = _ext("max", S.smax)
min_ = _ext("min", S.smin)


def sum_(xs, start=0):
    return b.sum(xs, start)


def sorted_(xs, **k):
    return b.sorted(xs, **k)
