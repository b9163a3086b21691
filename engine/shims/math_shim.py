import math as _m

from engine import sym as S
from engine.sym import is_sym


def isnan(x):
    return False if is_sym(x) else _m.isnan(x)


def isinf(x):
    return False if is_sym(x) else _m.isinf(x)


def isfinite(x):
    return True if is_sym(x) else _m.isfinite(x)


def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not is_sym(a) and not is_sym(b) and not is_sym(abs_tol):
        return _m.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    if S.is_special(a) or S.is_special(b):
        return False
    d = S.absolute(S.sub(a, b))
    lim = S.smax(S.mul(rel_tol, S.smax(S.absolute(a), S.absolute(b))), abs_tol) if rel_tol else abs_tol
    return S.cmp("le", d, lim)


def fabs(x):
    return S.absolute(x)


def floor(x):
    return S.floor(x)


def ceil(x):
    return S.ceil(x)


def trunc(x):
    return S.trunc_int(x) if is_sym(x) else _m.trunc(x)


def sqrt(x):
    if is_sym(x):
        if bool(S.cmp("lt", x, 0)):
            raise ValueError("math domain error")
        return S.sqrt(x).item()
    return _m.sqrt(x)


def log(x, *base):
    if is_sym(x):
        r = S.log(x)
        return r / log(*base) if base else r
    return _m.log(x, *base)


def log10(x):
    return S.log(x) / _m.log(10.0) if is_sym(x) else _m.log10(x)


def log2(x):
    return S.log(x) / _m.log(2.0) if is_sym(x) else _m.log2(x)


def pow(a, b):
    return S.power(a, b) if is_sym(a) or is_sym(b) else _m.pow(a, b)


def fsum(xs):
    return sum(xs)


def copysign(a, b):
    if is_sym(a) or is_sym(b):
        m = S.absolute(a)
        return S.ite(S.cmp("ge", b, 0), m, S.neg(m) if is_sym(m) else -m)
    return _m.copysign(a, b)


def __getattr__(name):
    return getattr(_m, name)
