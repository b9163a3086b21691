import decimal as _d
from fractions import Fraction

from engine import sym as S
from engine.sym import is_sym

__name__ = "decimal"


class _SymDecimal:
    def __init__(self, x):
        self.x = x

    def adjusted(self):
        """exponent of the leading digit"""
        a = S.absolute(self.x)
        if bool(S.cmp("eq", a, 0)):
            return 0
        if bool(S.cmp("ge", a, 1)):
            for k in range(1, 40):
                if bool(S.cmp("lt", a, 10**k)):
                    return k - 1
        else:
            for k in range(1, 40):
                if bool(S.cmp("ge", a, Fraction(1, 10**k))):
                    return -k
        raise NotImplementedError("magnitude")


class _M(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (_d.Decimal, _SymDecimal))


class Decimal(metaclass=_M):
    def __new__(cls, x="0", *a):
        return _SymDecimal(x) if is_sym(x) else _d.Decimal(x, *a)


def __getattr__(name):
    return getattr(_d, name)
