"""Shared builders for harnesses (work with symbolic and plain values alike)."""

from __future__ import annotations

from datetime import datetime, timedelta


def sym_dates(ctx, n, prefix="d", first=datetime(2020, 1, 1), span_days=2000):
    """n strictly increasing dates (whole seconds, at least one hour apart); the first one is fixed."""
    dates = [first]
    for i in range(1, n):
        d = ctx.date(f"{prefix}{i}", first, first + timedelta(days=span_days))
        ctx.assume(d - dates[-1] >= timedelta(hours=1))
        dates.append(d)
    return dates


def make_periods(dates):
    from libecalc.common.time_utils import Period, Periods

    return Periods([Period(a, b) for a, b in zip(dates[:-1], dates[1:])])


def days(p):
    return (p.end - p.start).total_seconds() / 86400


def reals(ctx, name, n, lo=None, hi=None):
    return [ctx.real(f"{name}{i}", lo, hi) for i in range(n)]


def attempt(fn, *exc):
    """(value, None) or (None, exception); only the listed exception types are caught."""
    try:
        return fn(), None
    except exc as e:
        return None, e
