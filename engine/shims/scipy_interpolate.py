import math
from fractions import Fraction

import numpy as np
import scipy.interpolate as _si

from engine import sym as S
from engine.shims.nparr import SymArray, _isnan, as_obj, as_sym, concretise_all, elementwise, has_sym, note_fallback, sym_argsort
from engine.sym import is_sym

__name__ = "scipy.interpolate"


def lin_eval(v, xs, ys, lo, hi, extrapolate=False):
    """Piecewise linear value at v; xs ascending.  Merged (no fork) when everything is finite."""
    if _isnan(v):
        return math.nan
    n = len(xs)
    if not extrapolate:
        below = S.cmp("lt", v, xs[0]) if (is_sym(v) or is_sym(xs[0])) else v < xs[0]
        above = S.cmp("gt", v, xs[-1]) if (is_sym(v) or is_sym(xs[-1])) else v > xs[-1]
        if not is_sym(below) and below:
            return lo
        if not is_sym(above) and above:
            return hi
        if S.is_special(lo) or not S.is_num(lo):
            if bool(below):
                return lo
        if S.is_special(hi) or not S.is_num(hi):
            if bool(above):
                return hi
    if not is_sym(v) and S.is_special(v):
        return math.nan

    def seg(i):
        x0, x1, y0, y1 = xs[i], xs[i + 1], ys[i], ys[i + 1]
        if not is_sym(x0) and not is_sym(x1) and x0 == x1:
            # vertical step: scipy/numpy give y1 at v == x
            return y1
        if not is_sym(y0) and not is_sym(y1) and y0 == y1 and S.is_num(y0):
            return float(y0)
        if is_sym(v) and not any(is_sym(k) or S.is_special(k) for k in (x0, x1, y0, y1)):
            x0, x1, y0, y1 = [Fraction(repr(float(k))) for k in (x0, x1, y0, y1)]
            return S.add(y0, S.mul((y1 - y0) / (x1 - x0), S.sub(v, x0)))
        slope = S.div(S.sub(y1, y0) if (is_sym(y1) or is_sym(y0)) else y1 - y0, S.sub(x1, x0) if (is_sym(x1) or is_sym(x0)) else x1 - x0, numpy_semantics=True) if (
            is_sym(x0) or is_sym(x1) or is_sym(y0) or is_sym(y1)
        ) else (y1 - y0) / (x1 - x0)
        d = S.sub(v, x0) if (is_sym(v) or is_sym(x0)) else v - x0
        t = S.mul(slope, d) if (is_sym(slope) or is_sym(d)) else slope * d
        return S.add(y0, t) if (is_sym(y0) or is_sym(t)) else y0 + t

    if any(S.is_special(y) for y in ys) or any(S.is_special(x) for x in xs):
        # nan in the table: fork on the segment
        for i in range(n - 1):
            if bool(v <= xs[i + 1]) or i == n - 2:
                if bool(v == xs[i]):
                    return ys[i]
                if bool(v == xs[i + 1]):
                    return ys[i + 1]
                return seg(i)
    r = seg(n - 2)
    for i in range(n - 3, -1, -1):
        r = S.ite(S.cmp("le", v, xs[i + 1]) if (is_sym(v) or is_sym(xs[i + 1])) else v <= xs[i + 1], seg(i), r)
    if not extrapolate:
        r = S.ite(above, hi, r)
        r = S.ite(below, lo, r)
    return r


def step_eval(v, xs, ys, lo, hi, kind):
    """Value at the closest sample at or before ("previous") / at or after ("next") v; xs ascending."""
    if _isnan(v):
        return math.nan
    if bool(v < xs[0]):
        return lo
    if bool(v > xs[-1]):
        return hi
    if kind == "previous":
        for x, y in zip(xs[::-1], ys[::-1]):
            if bool(x <= v):
                return y
    for x, y in zip(xs, ys):
        if bool(v <= x):
            return y


class interp1d:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        xs, ys = as_obj(x).ravel().tolist(), as_obj(y)
        self._real = None
        self._kind = kind
        if kind not in ("linear", 1, "previous", "next") or ys.ndim != 1 or (kind in ("previous", "next") and isinstance(fill_value, str)):
            note_fallback(f"interp1d kind={kind}")
            self._real = _si.interp1d(
                concretise_all(as_obj(x), "interp1d"), concretise_all(ys, "interp1d"), kind=kind, axis=axis, copy=copy,
                bounds_error=bounds_error, fill_value=concretise_all(fill_value, "interp1d"), assume_sorted=assume_sorted,
            )
            return
        ys = ys.tolist()
        if len(xs) != len(ys):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if not assume_sorted:
            idx = sym_argsort(xs)
            xs, ys = [xs[i] for i in idx], [ys[i] for i in idx]
        if len(xs) == 0:
            raise ValueError("Need at least one value")
        self._xs, self._ys = xs, ys
        self._extra = isinstance(fill_value, str) and fill_value == "extrapolate"
        if self._extra:
            if bounds_error:
                raise ValueError("Cannot extrapolate and raise at the same time.")
            bounds_error = False
            self._lo = self._hi = math.nan
        elif isinstance(fill_value, tuple) and len(fill_value) == 2:
            self._lo, self._hi = [_scal(v) for v in fill_value]
            if bounds_error is None:
                bounds_error = False
        else:
            isnan = not is_sym(fill_value) and isinstance(fill_value, float) and math.isnan(fill_value)
            self._lo = self._hi = _scal(fill_value)
            if bounds_error is None:
                bounds_error = isnan
        self.bounds_error = bounds_error
        self.fill_value = fill_value

    @property
    def x(self):
        return as_sym(self._xs) if self._real is None else self._real.x

    @property
    def y(self):
        return as_sym(self._ys) if self._real is None else self._real.y

    def __call__(self, x):
        if self._real is not None:
            return self._real(concretise_all(x, "interp1d"))
        if self.bounds_error:
            for v in as_obj(x).ravel().tolist():
                if bool(v < self._xs[0]):
                    raise ValueError("A value in x_new is below the interpolation range.")
                if bool(v > self._xs[-1]):
                    raise ValueError("A value in x_new is above the interpolation range.")
        if self._kind in ("previous", "next"):
            f = lambda v: step_eval(v, self._xs, self._ys, self._lo, self._hi, self._kind)  # noqa: E731
        elif len(self._xs) == 1:
            f = lambda v: S.ite(S.cmp("lt", v, self._xs[0]), self._lo, S.ite(S.cmp("gt", v, self._xs[0]), self._hi, self._ys[0])) if (is_sym(v) or is_sym(self._xs[0])) else (math.nan if _isnan(v) else self._lo if v < self._xs[0] else self._hi if v > self._xs[0] else self._ys[0])  # noqa: E731
        else:
            f = lambda v: lin_eval(v, self._xs, self._ys, self._lo, self._hi, self._extra)  # noqa: E731
        if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
            arr = as_obj(x)
            if arr.ndim:
                return elementwise(f, arr)
            x = arr[()]
        a = np.empty((), dtype=object)
        r = f(x)
        a[()] = r if is_sym(r) else float(r) if isinstance(r, np.floating) else r
        return a.view(SymArray)


def _scal(v):
    if isinstance(v, np.ndarray):
        return as_obj(v).ravel().tolist()[0]
    return v if is_sym(v) else float(v) if isinstance(v, np.floating) else v


class LinearNDInterpolator:
    """Concrete data, symbolic query: exact piecewise-linear value over the (concrete) Delaunay triangulation."""

    def __init__(self, points, values, fill_value=np.nan, rescale=False):
        self._points = np.asarray(concretise_all(as_obj(points) if not hasattr(points, "simplices") else points, "LinearND"), dtype=float) if not hasattr(points, "simplices") else points.points
        self._vals = as_obj(values)
        self._fill = fill_value
        self._rescale = rescale
        self._real = _si.LinearNDInterpolator(
            points if hasattr(points, "simplices") else self._points, np.zeros(len(self._points)), fill_value=fill_value, rescale=rescale
        )
        self._tri = self._real.tri

    def __call__(self, *args):
        if len(args) == 1:
            q = as_obj(args[0]) if not isinstance(args[0], tuple) else np.stack(np.broadcast_arrays(*[as_obj(a) for a in args[0]]), axis=-1)
        else:
            q = np.stack(np.broadcast_arrays(*[as_obj(a) for a in args]), axis=-1)
        shape = q.shape[:-1]
        flat = q.reshape(-1, q.shape[-1])
        out = np.empty(len(flat), dtype=object)
        for k in range(len(flat)):
            out[k] = self._one(flat[k].tolist())
        return out.reshape(shape).view(SymArray)

    def _one(self, p):
        if any(_isnan(v) for v in p):
            return math.nan
        vals = self._vals.ravel().tolist()
        nd = len(p)
        if not any(is_sym(v) for v in p):
            off = self._real
            s = int(self._find(np.array(p, dtype=float)))
            if s < 0:
                return self._fill
            return self._bary(s, p, vals)
        tol = 1e-12
        for s in range(len(self._tri.simplices)):
            bs = self._coords(s, p)
            if bs is None:
                continue
            inside = S.land(*[S.cmp("ge", b, -tol) if is_sym(b) else b >= -tol for b in bs])
            if bool(inside):
                r = 0.0
                for b, i in zip(bs, self._tri.simplices[s]):
                    r = r + b * vals[i]
                return r
        return self._fill

    def _scaled(self, p):
        if self._rescale:
            return [(v - float(o)) / float(s) for v, o, s in zip(p, self._real.offset, self._real.scale)]
        return p

    def _find(self, p):
        return self._tri.find_simplex(np.array(self._scaled(p.tolist()))[None, :], tol=1e-9)[0]

    def _coords(self, s, p):
        T = self._tri.transform[s]
        if np.isnan(T).any():
            return None
        nd = len(p)
        p = self._scaled(p)
        d = [p[j] - float(T[nd, j]) for j in range(nd)]
        bs = []
        for i in range(nd):
            acc = 0.0
            for j in range(nd):
                acc = acc + float(T[i, j]) * d[j]
            bs.append(acc)
        last = 1.0
        for b in bs:
            last = last - b
        return [*bs, last]

    def _bary(self, s, p, vals):
        bs = self._coords(s, p)
        r = 0.0
        for b, i in zip(bs, self._tri.simplices[s]):
            r = r + b * vals[i]
        return r


def __getattr__(name):
    return getattr(_si, name)
