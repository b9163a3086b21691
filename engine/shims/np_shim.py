"""Drop-in `numpy` for the modules under test: same API, symbolic elements allowed."""

from __future__ import annotations

from fractions import Fraction
import functools
import types

import numpy as _np

from engine import sym as S
from engine.shims.nparr import (
    UF,
    SymArray,
    _div,
    _isnan,
    _maximum,
    _minimum,
    _plain,
    _reduce,
    _unwrap,
    as_obj,
    as_sym,
    concretise_all,
    elementwise,
    has_sym,
    note_fallback,
    sym_argext,
    sym_argsort,
    wrap_result,
)
from engine.sym import is_sym

__name__ = "numpy"
HANDLERS: dict = {}


def _numeric_list(x):
    """True when x is (nested) float-like content that must stay assignable with symbolic values."""
    if isinstance(x, _np.ndarray):
        return x.dtype.kind in "fO"
    if is_sym(x) or isinstance(x, float):
        return True
    if isinstance(x, (list, tuple)):
        return any(_numeric_list(v) for v in x)
    return False


def array(obj, dtype=None, copy=True, **kw):
    if dtype is not None and dtype in (int, bool, str, _np.int_, _np.bool_, "datetime64", "datetime64[D]") and not has_sym(obj):
        return _np.array(obj, dtype=dtype, **kw)
    if isinstance(obj, SymArray):
        r = obj.copy() if copy else obj
        return r if dtype is None else r.astype(dtype)
    if not isinstance(obj, (_np.ndarray, list, tuple)) and not is_sym(obj) and hasattr(obj, "__iter__") and not isinstance(obj, (str, dict)):
        if hasattr(obj, "__array__"):
            obj = _np.asarray(obj)
        elif not isinstance(obj, (set, frozenset)) and hasattr(obj, "__len__") and hasattr(obj, "__getitem__"):
            obj = list(obj)
    isf = dtype in (float, _np.float64, "float", "float64")
    if isf or _numeric_list(obj) or has_sym(obj):
        a = as_obj(obj)
        if isf:
            a = elementwise_plain(lambda v: v if is_sym(v) and type(v) is S.SymReal else (S.mk(S.ex(v)) if is_sym(v) else float(v)), a)
        else:
            a = elementwise_plain(_plain, a)
        if isf or any(isinstance(v, float) or type(v) is S.SymReal for v in a.ravel().tolist()):
            # ints promote to float in a float array
            a = elementwise_plain(lambda v: float(v) if type(v) is int else v, a)
        return a.view(SymArray)
    r = _np.array(obj, dtype=dtype, **kw)
    return r


def elementwise_plain(fn, a):
    out = _np.empty(a.shape, dtype=object)
    o, i = out.reshape(-1), a.reshape(-1)
    for k in range(i.size):
        o[k] = fn(i[k])
    return out


def asarray(obj, dtype=None, **kw):
    if isinstance(obj, SymArray) and dtype is None:
        return obj
    if isinstance(obj, _np.ndarray) and obj.dtype.kind not in "fO" and dtype is None:
        return obj
    return array(obj, dtype=dtype)


asanyarray = asarray
ascontiguousarray = asarray


def atleast_1d(x, *rest):
    if rest:
        return [atleast_1d(y) for y in (x, *rest)]
    a = asarray(x)
    return a.reshape(1) if a.ndim == 0 else a


def atleast_2d(x):
    a = asarray(x)
    return a.reshape(1, -1) if a.ndim < 2 else a


def full(shape, fill_value, dtype=None, **k):
    if dtype in (int, _np.int_) and not is_sym(fill_value):
        return _np.full(shape, fill_value, dtype=dtype)
    if isinstance(fill_value, (str, bytes)):
        return _np.full(shape, fill_value)
    out = _np.empty(shape, dtype=object)
    if isinstance(fill_value, (_np.ndarray, list, tuple)):
        out[...] = as_obj(fill_value)
    else:
        v = _plain(fill_value)
        if dtype in (float, _np.float64) and not is_sym(v):
            v = float(v)
        flat = out.reshape(-1)
        for i in range(flat.size):
            flat[i] = v
    return out.view(SymArray)


def zeros(shape, dtype=None, **k):
    if dtype in (int, _np.int_):
        return _np.zeros(shape, dtype=dtype)
    return full(shape, False if dtype in (bool, _np.bool_) else 0.0)


def ones(shape, dtype=None, **k):
    if dtype in (int, _np.int_):
        return _np.ones(shape, dtype=dtype)
    return full(shape, True if dtype in (bool, _np.bool_) else 1.0)


def empty(shape, dtype=None, **k):
    return zeros(shape, dtype)


def _shape(a):
    return asarray(a).shape


def full_like(a, fill_value, dtype=None, **k):
    src = asarray(a)
    if dtype is None and src.dtype.kind in "iu" and not is_sym(fill_value) and isinstance(fill_value, (int, _np.integer)):
        return _np.full_like(src, fill_value)
    if dtype is None and src.dtype.kind in "iu" and not is_sym(fill_value):
        return full(src.shape, int(fill_value))
    return full(src.shape, fill_value, dtype=dtype)


def zeros_like(a, dtype=None, **k):
    return zeros(_shape(a), dtype=dtype)


def ones_like(a, dtype=None, **k):
    return ones(_shape(a), dtype=dtype)


def empty_like(a, dtype=None, **k):
    return zeros(_shape(a), dtype=dtype)


def arange(*a, **k):
    r = _np.arange(*[S.concrete(x, "arange") for x in a], **k)
    return wrap_result(r)


def linspace(start, stop, num=50, **k):
    if is_sym(start) or is_sym(stop):
        return as_sym([start + (stop - start) * (i / (num - 1)) for i in range(num)])
    return wrap_result(_np.linspace(start, stop, num, **k))


def where(cond, *ab):
    if not ab:
        return as_sym(cond).nonzero() if has_sym(cond) or isinstance(cond, SymArray) else _np.where(cond)
    a, b = ab
    return elementwise(lambda c, x, y: S.ite(c, x, y) if is_sym(c) else (x if c else y), cond, a, b)


def argwhere(c):
    nz = nonzero(c)
    return _np.stack(nz, axis=-1) if len(nz) else _np.zeros((0, 1), dtype=int)


def nonzero(c):
    if isinstance(c, _np.ndarray) and not isinstance(c, SymArray) and c.dtype != object:
        return _np.nonzero(c)
    if not isinstance(c, (list, tuple, _np.ndarray)) :
        c = [c]
    return as_sym(c).nonzero()


def flatnonzero(c):
    return nonzero(asarray(c).ravel() if isinstance(c, _np.ndarray) else c)[0]


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = float(_np.finfo(float).max)
    pi = big if posinf is None else posinf
    ni = -big if neginf is None else neginf

    def f(v):
        if is_sym(v) or v is None:
            return v
        if _isnan(v):
            return nan
        if v == float("inf"):
            return pi
        if v == float("-inf"):
            return ni
        return v

    return elementwise(f, x)


def _red(fn, ident=None, nan=False):
    def g(a, axis=None, **k):
        initial = k.get("initial", ident)
        if not isinstance(a, _np.ndarray):
            a = as_sym(list(a) if not is_sym(a) and hasattr(a, "__iter__") else a)
        if nan:
            vals = [v for v in as_obj(a).ravel().tolist() if not _isnan(v)]
            a = as_sym(vals)
            if not vals and initial is None:
                return _np.float64("nan")
            axis = None
        where_ = k.get("where")
        return _reduce(fn, a, axis, initial)

    return g


sum = _red(UF[_np.add], 0.0)
nansum = _red(UF[_np.add], 0.0, nan=True)
prod = _red(UF[_np.multiply], 1.0)
max = amax = _red(_maximum)
min = amin = _red(_minimum)
nanmax = _red(_maximum, nan=True)
nanmin = _red(_minimum, nan=True)
any = _red(UF[_np.logical_or], False)
all = _red(UF[_np.logical_and], True)


def mean(a, axis=None, **k):
    return as_sym(a).mean(axis=axis)


average = lambda a, axis=None, weights=None: (  # noqa: E731
    mean(a, axis) if weights is None else sum(as_sym(a) * as_sym(weights)) / sum(as_sym(weights))
)


def nanmean(a, axis=None):
    vals = [v for v in as_obj(a).ravel().tolist() if not _isnan(v)]
    return as_sym(vals).mean() if vals else _np.float64("nan")


def std(a, axis=None, ddof=0, **k):
    if not has_sym(a):
        return _np.float64(_np.std(concretise_all(as_obj(a), "std"), axis=axis, ddof=ddof))
    v = as_sym(a)
    m = v.mean()
    d = v - m
    return S.sqrt((d * d).sum() / (v.size - ddof))


def cumsum(a, axis=None, **k):
    return _np.add.accumulate(as_sym(a).ravel())


def nancumsum(a, axis=None, **k):
    return cumsum(nan_to_num(a))


def diff(a, n=1, axis=-1, **k):
    a = asarray(a)
    if a.ndim == 1:
        return a[1:] - a[:-1]
    return wrap_result(_np.diff(concretise_all(a, "diff"), n=n, axis=axis)) if has_sym(a) else wrap_result(_np.diff(concretise_all(a, ""), n, axis))


def ediff1d(a, **k):
    return diff(asarray(a).ravel())


def clip(a, a_min=None, a_max=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    def f(v):
        if lo is not None:
            v = _maximum(v, lo)
        if hi is not None:
            v = _minimum(v, hi)
        return v
    if isinstance(lo, (list, _np.ndarray)) or isinstance(hi, (list, _np.ndarray)):
        return as_sym(a).clip(lo, hi)
    return elementwise(f, a)


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        if not is_sym(x) and not is_sym(y):
            return bool(_np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=equal_nan))
        if S.is_special(x) or S.is_special(y):
            return False
        return S.cmp("le", S.absolute(S.sub(x, y)), S.add(atol, S.mul(rtol, S.absolute(y))) if is_sym(y) else atol + rtol * abs(y))

    return elementwise(f, a, b)


def allclose(a, b, **k):
    return all(isclose(a, b, **k))


def array_equal(a, b, **k):
    a, b = as_obj(a), as_obj(b)
    if a.shape != b.shape:
        return False
    return all(elementwise(UF[_np.equal], a, b))


def argsort(a, axis=-1, **k):
    return sym_argsort(a)


def sort(a, axis=-1, **k):
    o = as_obj(a).ravel()
    return o[sym_argsort(o)].view(SymArray)


def argmax(a, axis=None, **k):
    return sym_argext(a, lambda x, y: x > y)


def argmin(a, axis=None, **k):
    return sym_argext(a, lambda x, y: x < y)


def searchsorted(a, v, side="left", **k):
    vals = as_obj(a).ravel().tolist()

    def f(x):
        i = 0
        for y in vals:
            if bool(y < x) or (side == "right" and bool(y <= x)):
                i += 1
            else:
                break
        return i

    if isinstance(v, (list, tuple, _np.ndarray)):
        return _np.array([f(x) for x in as_obj(v).ravel().tolist()], dtype=int).reshape(as_obj(v).shape)
    return f(v)


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if not has_sym(a):
        return wrap_result(_np.unique(concretise_all(as_obj(a), "unique"), return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis))
    if axis is not None:
        note_fallback("unique-axis")
        return wrap_result(_np.unique(concretise_all(as_obj(a), "unique"), return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis))
    o = as_obj(a).ravel()
    idx = sym_argsort(o)
    vals, first, counts = [], [], []
    inv = [0] * len(o)
    for i in idx:
        v = o[i]
        if vals and bool(vals[-1] == v):
            counts[-1] += 1
        else:
            vals.append(v)
            first.append(int(i))
            counts.append(1)
        inv[i] = len(vals) - 1
    out = [as_sym(vals)]
    if return_index:
        out.append(_np.array(first))
    if return_inverse:
        out.append(_np.array(inv))
    if return_counts:
        out.append(_np.array(counts))
    return out[0] if len(out) == 1 else tuple(out)


def dot(a, b, **k):
    a, b = as_obj(a), as_obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(UF[_np.multiply], a, b)
    if a.ndim == 1 and b.ndim == 1:
        return sum(elementwise(UF[_np.multiply], a, b))
    if a.ndim == 2 and b.ndim == 1:
        return as_sym([dot(r, b) for r in a])
    if a.ndim == 1 and b.ndim == 2:
        return as_sym([dot(a, b[:, j]) for j in range(b.shape[1])])
    return as_sym([[dot(r, b[:, j]) for j in range(b.shape[1])] for r in a])


matmul = dot


def interp(x, xp, fp, left=None, right=None, period=None):
    from engine.shims.scipy_interpolate import lin_eval

    xs, ys = as_obj(xp).ravel().tolist(), as_obj(fp).ravel().tolist()
    lo = ys[0] if left is None else left
    hi = ys[-1] if right is None else right
    return elementwise(lambda v: lin_eval(v, xs, ys, lo, hi), x)


def isscalar(x):
    return True if is_sym(x) else _np.isscalar(x)


def vectorize(pyfunc, *a, **k):
    def g(*args):
        return elementwise(pyfunc, *args)

    return g


def float_(x=0.0):
    return _np.float64(x)


def isreal(x):
    return True


def _norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        return wrap_result(_np.linalg.norm(concretise_all(as_obj(x), "norm"), ord=ord, axis=axis, keepdims=keepdims))
    a = as_sym(x)
    if ord in (None, 2) and a.ndim == 1:
        return S.sqrt((a * a).sum())
    note_fallback("norm")
    return wrap_result(_np.linalg.norm(concretise_all(a, "norm"), ord=ord, axis=axis, keepdims=keepdims))


class _Linalg(types.ModuleType):
    def __getattr__(self, name):
        return wrap_callable(getattr(_np.linalg, name), "linalg." + name)


linalg = _Linalg("numpy.linalg")
linalg.norm = _norm


class _CClass:
    def __getitem__(self, key):
        return wrap_result(_np.c_[tuple(as_obj(k) for k in key)] if isinstance(key, tuple) else _np.c_[as_obj(key)])


c_ = _CClass()


# structural functions that are safe on plain object arrays
_STRUCT = {
    "concatenate", "stack", "vstack", "hstack", "column_stack", "append", "insert", "delete", "reshape", "ravel",
    "transpose", "squeeze", "tile", "repeat", "expand_dims", "swapaxes", "moveaxis", "roll", "flip", "split",
    "array_split", "meshgrid", "broadcast_to", "take", "copy", "outer", "compress", "choose", "rollaxis", "rot90",
}


def _to_obj_args(x):
    if isinstance(x, SymArray):
        return x.view(_np.ndarray)
    if isinstance(x, list) and has_sym(x):
        try:
            return as_obj(x)
        except ValueError:
            return [_to_obj_args(v) for v in x]
    if isinstance(x, list):
        return [_to_obj_args(v) for v in x]
    if isinstance(x, tuple):
        return tuple(_to_obj_args(v) for v in x)
    if is_sym(x):
        return as_obj(x)
    return x


def generic_call(func, args, kwargs):
    name = getattr(func, "__name__", str(func))
    if name in _STRUCT:
        return wrap_result(func(*[_to_obj_args(a) for a in args], **{k: _to_obj_args(v) for k, v in kwargs.items()}))
    h = globals().get(name)
    if h is not None and callable(h) and getattr(h, "__module__", "").startswith("engine"):
        return h(*args, **kwargs)
    anysym = builtins_any(has_sym(a) for a in args) or builtins_any(has_sym(v) for v in kwargs.values())
    if anysym:
        note_fallback("np." + name)
    ca = [concretise_all(a, name) for a in args]
    ck = {k: concretise_all(v, name) for k, v in kwargs.items()}
    return wrap_result(func(*ca, **ck))


import builtins as _b

builtins_any = _b.any


def wrap_callable(f, name):
    if isinstance(f, _np.ufunc):
        if f not in UF:
            def uf(*a, **k):
                if builtins_any(has_sym(x) or isinstance(x, SymArray) for x in a):
                    return as_sym(a[0]).__array_ufunc__(f, "__call__", *a, **k)
                return wrap_result(f(*a, **k))
            uf.reduce = f.reduce
            return uf
        return _UfuncShim(f)
    if isinstance(f, type) or not callable(f):
        return f

    @functools.wraps(f)
    def g(*a, **k):
        return generic_call(f, a, k)

    return g


class _UfuncShim:
    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__

    def _go(self, method, *a, **k):
        if "out" in k and k["out"] is not None and not isinstance(k["out"], tuple):
            k["out"] = (k["out"],)
        elif "out" in k and k["out"] is None:
            k.pop("out")
        k.pop("dtype", None)
        out = k.pop("out", None)
        first = as_sym(a[0])
        r = first.__array_ufunc__(self.f, method, *a, out=out, **k)
        return r

    def __call__(self, *a, **k):
        return self._go("__call__", *a, **k)

    def reduce(self, a, axis=0, **k):
        return self._go("reduce", a, axis=axis)

    def accumulate(self, a, axis=0, **k):
        return self._go("accumulate", a)

    def outer(self, a, b, **k):
        return self._go("outer", a, b)


_cache: dict = {}


def __getattr__(name):
    if name in _cache:
        return _cache[name]
    f = getattr(_np, name)
    r = wrap_callable(f, name)
    _cache[name] = r
    return r


for _n in (
    "array asarray where argwhere nonzero flatnonzero nan_to_num sum nansum prod max amax min amin nanmax nanmin any all mean "
    "average nanmean std cumsum nancumsum diff clip isclose allclose array_equal argsort sort argmax argmin searchsorted unique "
    "dot interp full_like zeros_like ones_like empty_like atleast_1d atleast_2d"
).split():
    _f = getattr(_np, _n, None)
    if _f is not None:
        HANDLERS[_f] = globals()[_n]


def format_float_positional(x, precision=None, unique=True, fractional=True, trim="k", **k):
    if not is_sym(x):
        return _np.format_float_positional(x, precision, unique=unique, fractional=fractional, trim=trim, **k)
    if not fractional or precision is None:
        raise NotImplementedError("format_float_positional")
    c = S.cur()
    n = c.new_int("digits")
    scaled = S.ex(x) * S.to_q(10**precision)
    c.add(scaled - n <= S.to_q(Fraction(1, 2)))
    c.add(n - scaled <= S.to_q(Fraction(1, 2)))
    return S.SymStr(S.SymReal(S.z3.ToReal(n) / S.to_q(10**precision)))
