"""SymArray: an object-dtype ndarray whose elements may be symbolic, with numpy float semantics."""

from __future__ import annotations

import math

import numpy as np

from engine import sym as S
from engine.sym import SymBool, SymReal, is_sym


def has_sym(x) -> bool:
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(is_sym(v) for v in x.ravel().view(np.ndarray).tolist())
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def _unwrap(v):
    """Element as handed to Python code: numpy scalar semantics."""
    if type(v) is SymReal:
        return SymReal(v.e, True)
    if type(v) is float:
        return np.float64(v)
    return v


def _plain(v):
    if type(v) is SymReal:
        return SymReal(v.e, False)
    if isinstance(v, np.generic):
        return v.item()
    return v


def as_obj(x) -> np.ndarray:
    """plain object ndarray"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(np.ndarray)
        return x.astype(object).view(np.ndarray)
    if is_sym(x) or not isinstance(x, (list, tuple)):
        if not is_sym(x) and hasattr(x, "__array__") and not isinstance(x, (np.generic,)):
            return np.asarray(x).astype(object)
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    # nested sequences
    if len(x) and all(isinstance(v, (list, tuple, np.ndarray)) for v in x):
        subs = [as_obj(v) for v in x]
        if all(s.shape == subs[0].shape for s in subs):
            out = np.empty((len(subs), *subs[0].shape), dtype=object)
            for i, s in enumerate(subs):
                out[i] = s
            return out
        raise ValueError("setting an array element with a sequence. inhomogeneous shape")
    out = np.empty(len(x), dtype=object)
    for i, v in enumerate(x):
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v.item() if v.dtype != object else v.view(np.ndarray)[()]
        elif isinstance(v, np.ndarray) and v.size == 1:
            v = v.ravel().view(np.ndarray).tolist()[0]
        out[i] = v
    return out


def as_sym(x) -> "SymArray":
    return as_obj(x).view(SymArray)


def elementwise(fn, *args):
    arrs = np.broadcast_arrays(*[as_obj(a) for a in args])
    shape = arrs[0].shape
    flats = [a.ravel().tolist() for a in arrs]
    out = np.empty(len(flats[0]), dtype=object)
    for i, vs in enumerate(zip(*flats)):
        r = fn(*vs)
        out[i] = float(r) if type(r) is np.float64 else (bool(r) if type(r) is np.bool_ else r)
    out = out.reshape(shape).view(SymArray)
    if shape == ():
        r = out.view(np.ndarray)[()]
        # as NumPy's scalar: ~ of it is the negation
        return np.bool_(r) if type(r) is bool else _unwrap(r)
    return out


def _isnan(v):
    return False if is_sym(v) else (v is not None and isinstance(v, (float, int, np.floating)) and math.isnan(v))


def _isinf(v):
    return False if is_sym(v) else math.isinf(v)


def _isfinite(v):
    return True if is_sym(v) else math.isfinite(v)


def _concdiv(a, b):
    with np.errstate(all="ignore"):
        return float(np.float64(a) / np.float64(b))


def _div(a, b):
    if not is_sym(a) and not is_sym(b):
        return _concdiv(a, b)
    return S.div(a, b, numpy_semantics=True)


def _arith(fn, cf):
    def g(a, b):
        if not is_sym(a) and not is_sym(b):
            with np.errstate(all="ignore"):
                return cf(a, b)
        return fn(a, b)

    return g


def _maximum(a, b):
    if _isnan(a) or _isnan(b):
        return math.nan
    return S.smax(a, b) if is_sym(a) or is_sym(b) else max(a, b)


def _minimum(a, b):
    if _isnan(a) or _isnan(b):
        return math.nan
    return S.smin(a, b) if is_sym(a) or is_sym(b) else min(a, b)


def _fmax(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return _maximum(a, b)


def _fmin(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return _minimum(a, b)


def _c(op):
    import operator

    o = getattr(operator, op)
    return lambda a, b: S.cmp(op, a, b) if (is_sym(a) or is_sym(b)) and S.is_num(a) and S.is_num(b) else o(a, b)


def _land(a, b):
    return S.land(a, b)


def _lor(a, b):
    return S.lor(a, b)


def _band(a, b):
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)) or type(a) is SymBool or type(b) is SymBool:
        return S.land(a, b)
    return a & b


def _bor(a, b):
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)) or type(a) is SymBool or type(b) is SymBool:
        return S.lor(a, b)
    return a | b


def _inv(a):
    if isinstance(a, (bool, np.bool_)) or type(a) is SymBool:
        return S.lnot(a)
    return ~a


def _sign(a):
    return S.ite(S.cmp("gt", a, 0), 1.0, S.ite(S.cmp("lt", a, 0), -1.0, 0.0)) if is_sym(a) else float(np.sign(a))


UF = {
    np.add: _arith(S.add, lambda a, b: a + b),
    np.subtract: _arith(S.sub, lambda a, b: a - b),
    np.multiply: _arith(S.mul, lambda a, b: a * b),
    np.true_divide: _div,
    np.divide: _div,
    np.power: _arith(S.power, lambda a, b: float(np.power(np.float64(a), b))),
    np.negative: lambda a: S.neg(a) if is_sym(a) else -a,
    np.positive: lambda a: a,
    np.absolute: S.absolute,
    np.fabs: S.absolute,
    np.sqrt: lambda a: S.sqrt(a) if is_sym(a) else float(np.sqrt(a)),
    np.log: lambda a: S.log(a) if is_sym(a) else float(np.log(a)),
    np.log10: lambda a: S.div(S.log(a), math.log(10.0)) if is_sym(a) else float(np.log10(a)),
    np.log2: lambda a: S.div(S.log(a), math.log(2.0)) if is_sym(a) else float(np.log2(a)),
    np.square: lambda a: S.mul(a, a) if is_sym(a) else a * a,
    np.sign: _sign,
    np.floor: S.floor,
    np.ceil: S.ceil,
    np.rint: lambda a: S.rnd(a) if is_sym(a) else float(np.rint(a)),
    np.less: _c("lt"),
    np.less_equal: _c("le"),
    np.greater: _c("gt"),
    np.greater_equal: _c("ge"),
    np.equal: _c("eq"),
    np.not_equal: _c("ne"),
    np.logical_and: _land,
    np.logical_or: _lor,
    np.logical_not: lambda a: S.lnot(a),
    np.logical_xor: lambda a, b: S.mkb(__import__("z3").Xor(S.bx(a), S.bx(b))),
    np.bitwise_and: _band,
    np.bitwise_or: _bor,
    np.invert: _inv,
    np.isnan: _isnan,
    np.isinf: _isinf,
    np.isfinite: _isfinite,
    np.maximum: _maximum,
    np.minimum: _minimum,
    np.fmax: _fmax,
    np.fmin: _fmin,
    np.floor_divide: lambda a, b: S.floor(_div(a, b)),
    np.remainder: lambda a, b: a % b,
}


def note_fallback(name):
    if S.CUR is not None:
        fb = S.CUR.stats.fallbacks
        fb[name] = fb.get(name, 0) + 1


def concretise_all(x, why):
    """Deep copy with all symbolic values concretised and object arrays made numeric."""
    if is_sym(x):
        return S.concrete(x, why)
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return x
        vals = [S.concrete(v, why) for v in x.ravel().view(np.ndarray).tolist()]
        try:
            out = np.array(vals)
            if out.dtype == object or out.dtype.kind in "US":
                return x.view(np.ndarray)
            return out.reshape(x.shape)
        except Exception:
            return x.view(np.ndarray)
    if type(x) is list:
        return [concretise_all(v, why) for v in x]
    if type(x) is tuple:
        return tuple(concretise_all(v, why) for v in x)
    if type(x) is dict:
        return {k: concretise_all(v, why) for k, v in x.items()}
    return x


def wrap_result(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return r.view(SymArray)
        if r.dtype.kind == "f":
            return r.astype(object).view(SymArray)
        return r
    if isinstance(r, (list, tuple)) and type(r) in (list, tuple):
        return type(r)(wrap_result(v) for v in r)
    return r


def _reduce(fn, arr, axis, initial, keepdims=False):
    a = as_obj(arr)
    if axis is None:
        vals = a.ravel().tolist()
        if not vals:
            if initial is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            return initial
        r = vals[0]
        for v in vals[1:]:
            r = fn(r, v)
        return _unwrap(r)
    if isinstance(axis, tuple):
        axis = axis[0]
    moved = np.moveaxis(a, axis, 0)
    if a.ndim == 1:
        r = _reduce(fn, a, None, initial)
        return r
    out = None
    for i in range(moved.shape[0]):
        out = moved[i].view(SymArray) if out is None else elementwise(fn, out, moved[i])
    return out


class SymArray(np.ndarray):
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        fn = UF.get(ufunc)
        anysym = any(has_sym(i) for i in inputs)
        if method == "__call__" and fn is not None and not anysym and ufunc in (np.isnan, np.isinf, np.isfinite):
            r = elementwise(fn, *inputs)
        elif method == "__call__" and fn is not None:
            kwhere = kw.get("where", True)
            if kwhere is not True:
                base = out[0] if out is not None else as_sym(np.full(np.broadcast(*[as_obj(i) for i in inputs]).shape, 0.0))
                arrs = np.broadcast_arrays(*[as_obj(i) for i in inputs], as_obj(kwhere), as_obj(base))
                flat = [a.ravel().tolist() for a in arrs]
                res = np.empty(len(flat[0]), dtype=object)
                for i, vs in enumerate(zip(*flat)):
                    *ins, w, b = vs
                    # where= does not evaluate the masked-out lanes
                    res[i] = fn(*ins) if bool(w) else b
                r = res.reshape(arrs[0].shape).view(SymArray)
            else:
                r = elementwise(fn, *inputs)
        elif method == "reduce" and fn is not None:
            axis = kw.get("axis", 0)
            ident = {np.add: 0.0, np.multiply: 1.0, np.logical_and: True, np.logical_or: False}.get(ufunc)
            r = _reduce(fn, inputs[0], axis, ident)
        elif method == "accumulate" and fn is not None:
            vals = as_obj(inputs[0]).ravel().tolist()
            acc = []
            for v in vals:
                acc.append(v if not acc else fn(acc[-1], v))
            r = as_sym(acc)
        elif method == "outer" and fn is not None:
            a, b = as_obj(inputs[0]).ravel(), as_obj(inputs[1]).ravel()
            r = elementwise(fn, a[:, None], b[None, :])
        else:
            if anysym:
                note_fallback(f"ufunc {ufunc.__name__}.{method}")
            ins = [concretise_all(i, ufunc.__name__) for i in inputs]
            r = wrap_result(getattr(ufunc, method)(*ins, **kw))
        if out is not None and out[0] is not None:
            o = out[0]
            if isinstance(o, SymArray):
                o.view(np.ndarray)[...] = as_obj(r)
            else:
                o[...] = concretise_all(r, "out=")
            return o
        return r

    def __array_function__(self, func, types, args, kwargs):
        from engine.shims import np_shim

        h = np_shim.HANDLERS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        return np_shim.generic_call(func, args, kwargs)

    # -- element access ---------------------------------------------------------------
    @staticmethod
    def _idx(i):
        if isinstance(i, tuple):
            return tuple(SymArray._idx(j) for j in i)
        if isinstance(i, np.ndarray) and i.dtype == object:
            vals = i.ravel().view(np.ndarray).tolist()
            if all(isinstance(v, (bool, np.bool_)) or type(v) is SymBool for v in vals) and vals:
                return np.array([bool(v) for v in vals], dtype=bool).reshape(i.shape)
            return np.array([int(v) if not is_sym(v) else v.__index__() for v in vals], dtype=int).reshape(i.shape)
        if isinstance(i, list) and any(is_sym(v) for v in i):
            return SymArray._idx(as_obj(i))
        if type(i) is SymReal:
            return i.__index__()
        if type(i) is SymBool:
            return bool(i)
        return i

    def __getitem__(self, i):
        r = np.ndarray.__getitem__(self.view(np.ndarray), SymArray._idx(i))
        if isinstance(r, np.ndarray):
            return r.view(SymArray)
        return _unwrap(r)

    def __setitem__(self, i, v):
        if isinstance(v, (list, tuple)) or isinstance(v, np.ndarray):
            v = as_obj(v)
            if v.ndim == 0:
                v = v[()]
        elif isinstance(v, np.generic):
            v = v.item()
        np.ndarray.__setitem__(self.view(np.ndarray), SymArray._idx(i), v)

    def __iter__(self):
        for k in range(len(self)):
            yield self[k]

    def __float__(self):
        return float(self.item())

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).ravel().tolist()[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __contains__(self, v):
        return any(bool(x == v) for x in self.ravel().view(np.ndarray).tolist())

    def tolist(self):
        def conv(x):
            return [conv(v) for v in x] if isinstance(x, list) else _plain(x)

        return conv(self.view(np.ndarray).tolist())

    def item(self, *a):
        return _plain(np.ndarray.item(self.view(np.ndarray), *a))

    def astype(self, dtype, *a, **k):
        if dtype in (float, np.float64, "float", "float64", np.floating):
            return elementwise(lambda v: S.mk(S.ex(v)) if type(v) is SymBool else (v if is_sym(v) else float(v)), self) if self.ndim else self.copy()
        if dtype in (object,):
            return self.copy()
        if dtype in (bool, np.bool_):
            return elementwise(lambda v: S.mkb(S.bx(v)) if is_sym(v) else bool(v), self)
        if dtype in (int, np.int_, np.int64, "int"):
            return elementwise(lambda v: S.trunc_int(v) if is_sym(v) else int(v), self)
        return np.ndarray.astype(self.view(np.ndarray), dtype, *a, **k)

    def any(self, axis=None, **k):
        return _reduce(_lor, self, axis, False)

    def all(self, axis=None, **k):
        return _reduce(_land, self, axis, True)

    def sum(self, axis=None, **k):
        return _reduce(UF[np.add], self, axis, 0.0)

    def min(self, axis=None, **k):
        return _reduce(_minimum, self, axis, None)

    def max(self, axis=None, **k):
        return _reduce(_maximum, self, axis, None)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        s = self.sum(axis=axis)
        return _div(s, n) if not isinstance(s, np.ndarray) else s / n

    def round(self, decimals=0, out=None):
        return elementwise(lambda v: S.rnd(v, decimals) if is_sym(v) else float(np.round(v, decimals)), self)

    def argsort(self, axis=-1, kind=None, **k):
        return sym_argsort(self)

    def sort(self, axis=-1, **k):
        idx = sym_argsort(self)
        vals = self.view(np.ndarray)[idx]
        self.view(np.ndarray)[...] = vals

    def cumsum(self, axis=None, **k):
        return np.add.accumulate(self)

    def nonzero(self):
        m = SymArray._idx(elementwise(lambda v: S.mkb(S.bx(v)) if is_sym(v) else bool(v), self)) if self.size else np.zeros(self.shape, dtype=bool)
        return np.nonzero(m)

    def argmax(self, axis=None, **k):
        return sym_argext(self, lambda a, b: a > b)

    def argmin(self, axis=None, **k):
        return sym_argext(self, lambda a, b: a < b)

    def clip(self, a_min=None, a_max=None, **k):
        r = self
        if a_min is not None:
            r = np.maximum(r, a_min)
        if a_max is not None:
            r = np.minimum(r, a_max)
        return r

    def dot(self, o):
        from engine.shims import np_shim

        return np_shim.dot(self, o)

    def __reduce__(self):
        return (as_sym, (self.tolist(),))

    def __deepcopy__(self, memo):
        return self.copy()


def sym_argsort(a):
    vals = as_obj(a).ravel().tolist()
    import functools

    def c(i, j):
        x, y = vals[i], vals[j]
        if _isnan(x):
            return 0 if _isnan(y) else 1
        if _isnan(y):
            return -1
        if bool(x < y):
            return -1
        if bool(y < x):
            return 1
        return 0

    return np.array(sorted(range(len(vals)), key=functools.cmp_to_key(c)), dtype=int)


def sym_argext(a, better):
    vals = as_obj(a).ravel().tolist()
    best = 0
    for i, v in enumerate(vals):
        if _isnan(v):
            return i
        if i and bool(better(v, vals[best])):
            best = i
    return best
