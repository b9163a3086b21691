"""Symbolic datetimes (seconds since 1970-01-01 as a real) for calendar-free period arithmetic."""

from __future__ import annotations

from datetime import datetime, timedelta

import z3

from engine import sym as S

EPOCH = datetime(1970, 1, 1)


def dt_e(x):
    """seconds expression"""
    if type(x) is SymDT:
        return x.e
    td = x - EPOCH
    s = td.days * 86400 + td.seconds
    return z3.RealVal(s) + z3.RealVal(td.microseconds) / 1000000 if td.microseconds else z3.IntVal(s)


def td_e(x):
    if type(x) is SymTD:
        return x.e
    s = x.days * 86400 + x.seconds
    return z3.RealVal(s) + z3.RealVal(x.microseconds) / 1000000 if x.microseconds else z3.IntVal(s)


def _real(e):
    return z3.simplify(z3.ToReal(e)) if z3.is_int(e) else e


def _isdt(x):
    return type(x) is SymDT or isinstance(x, datetime)


def _istd(x):
    return type(x) is SymTD or isinstance(x, timedelta)


class SymDT:
    __slots__ = ("e",)
    tzinfo = None

    def __init__(self, e):
        self.e = z3.simplify(e)

    @property
    def __class__(self):
        return datetime

    def __hash__(self):
        return 11

    def __lt__(self, o):
        return S.mkb(self.e < dt_e(o)) if _isdt(o) else NotImplemented

    def __le__(self, o):
        return S.mkb(self.e <= dt_e(o)) if _isdt(o) else NotImplemented

    def __gt__(self, o):
        return S.mkb(self.e > dt_e(o)) if _isdt(o) else NotImplemented

    def __ge__(self, o):
        return S.mkb(self.e >= dt_e(o)) if _isdt(o) else NotImplemented

    def __eq__(self, o):
        return S.mkb(self.e == dt_e(o)) if _isdt(o) else False

    def __ne__(self, o):
        return S.mkb(self.e != dt_e(o)) if _isdt(o) else True

    def __sub__(self, o):
        if _isdt(o):
            return SymTD(self.e - dt_e(o))
        if _istd(o):
            return SymDT(self.e - td_e(o))
        return NotImplemented

    def __rsub__(self, o):
        return SymTD(dt_e(o) - self.e) if _isdt(o) else NotImplemented

    def __add__(self, o):
        return SymDT(self.e + td_e(o)) if _istd(o) else NotImplemented

    __radd__ = __add__

    def timestamp(self):
        return S.mk(_real(self.e))

    def utcoffset(self):
        return None

    def __repr__(self):
        return f"<symdt {str(self.e)[:40]}>"

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def isoformat(self, *a):
        return repr(self)

    def strftime(self, *a):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self


class SymTD:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = z3.simplify(e)

    @property
    def __class__(self):
        return timedelta

    def __hash__(self):
        return 13

    def total_seconds(self):
        return S.mk(_real(self.e))

    @property
    def days(self):
        return S.mk(z3.simplify(z3.ToReal(z3.ToInt(_real(self.e) / 86400))))

    @property
    def seconds(self):
        return S.mk(z3.simplify(_real(self.e) - 86400 * z3.ToReal(z3.ToInt(_real(self.e) / 86400))))

    microseconds = 0

    def _c(self, op, o):
        return S.mkb(S._CMP[op](self.e, td_e(o))) if _istd(o) else NotImplemented

    def __lt__(self, o):
        return self._c("lt", o)

    def __le__(self, o):
        return self._c("le", o)

    def __gt__(self, o):
        return self._c("gt", o)

    def __ge__(self, o):
        return self._c("ge", o)

    def __eq__(self, o):
        return self._c("eq", o) if _istd(o) else False

    def __ne__(self, o):
        return self._c("ne", o) if _istd(o) else True

    def __bool__(self):
        return S.cur().branch(self.e != 0)

    def __add__(self, o):
        if _istd(o):
            return SymTD(self.e + td_e(o))
        if _isdt(o):
            return SymDT(self.e + dt_e(o))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return SymTD(self.e - td_e(o)) if _istd(o) else NotImplemented

    def __rsub__(self, o):
        if _istd(o):
            return SymTD(td_e(o) - self.e)
        if _isdt(o):
            return SymDT(dt_e(o) - self.e)
        return NotImplemented

    def __neg__(self):
        return SymTD(-self.e)

    def __abs__(self):
        return SymTD(z3.If(self.e >= 0, self.e, -self.e))

    def __mul__(self, k):
        return SymTD(_real(self.e) * S.ex(k))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _istd(o):
            return S.div(S.mk(_real(self.e)), S.mk(z3.simplify(_real(td_e(o)))))
        return SymTD(S.ex(S.div(S.mk(_real(self.e)), o)))

    def __repr__(self):
        return f"<symtd {str(self.e)[:40]}>"

    __str__ = __repr__

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self
