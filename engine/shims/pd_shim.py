"""pandas with symbolic values handed over as plain object data."""

from __future__ import annotations

import numpy as np
import pandas as _pd

from engine.shims.nparr import SymArray, has_sym
from engine.sym import is_sym

__name__ = "pandas"


def _conv(x):
    if isinstance(x, SymArray):
        a = x.view(np.ndarray)
        if not has_sym(a):
            try:
                return np.array(a.tolist(), dtype=float)
            except Exception:
                return a
        return a
    if isinstance(x, list) and x and all(isinstance(r, list) for r in x) and any(has_sym(r) for r in x):
        out = np.empty((len(x), len(x[0])), dtype=object)
        for i, r in enumerate(x):
            for j, v in enumerate(r):
                out[i, j] = v
        return out
    if isinstance(x, list) and has_sym(x):
        out = np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            out[i] = v
        return out
    if isinstance(x, dict):
        return {k: _conv(v) for k, v in x.items()}
    return x


def _twin(real):
    class M(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real)

        def __getattr__(cls, n):
            return getattr(real, n)

    class T(metaclass=M):
        def __new__(cls, data=None, *a, **k):
            return real(_conv(data), *a, **k)

    T.__name__ = real.__name__
    return T


Series = _twin(_pd.Series)
DataFrame = _twin(_pd.DataFrame)


def isna(x):
    return False if is_sym(x) else _pd.isna(x)


isnull = isna


def notna(x):
    return True if is_sym(x) else _pd.notna(x)


def __getattr__(name):
    return getattr(_pd, name)


_orig_interpolate = _pd.Series.interpolate


def _interpolate(self, method="linear", *a, **k):
    if self.dtype != object or method not in ("time", "index", "values", "linear"):
        return _orig_interpolate(self, method, *a, **k)
    from engine import sym as S

    vals = self.tolist()
    if method == "linear":
        xs = list(range(len(vals)))
    elif method == "time":
        xs = [t.value / 1e9 for t in self.index]
    else:
        xs = [float(t) for t in self.index]
    isn = [not is_sym(v) and v != v for v in vals]
    known = [i for i, n in enumerate(isn) if not n]
    out = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        if not isn[i]:
            out[i] = v
            continue
        lo = [j for j in known if j < i]
        hi = [j for j in known if j > i]
        if not lo:
            out[i] = float("nan")
        elif not hi:
            out[i] = vals[lo[-1]]
        else:
            a0, b0 = lo[-1], hi[0]
            w = (xs[i] - xs[a0]) / (xs[b0] - xs[a0])
            out[i] = vals[a0] + (vals[b0] - vals[a0]) * w
    return _pd.Series(out, index=self.index, dtype=object)


_pd.Series.interpolate = _interpolate


_orig_astype = _pd.DataFrame.astype


def _astype(self, dtype, *a, **k):
    if dtype is not float or not any(is_sym(v) for v in self.to_numpy(dtype=object).ravel()):
        return _orig_astype(self, dtype, *a, **k)
    cols = {}
    for i, c in enumerate(self.columns):
        col = self.iloc[:, i]
        cols[c] = col if any(is_sym(v) for v in col.tolist()) else col.astype(float)
    return _pd.DataFrame(cols, index=self.index)


_pd.DataFrame.astype = _astype
