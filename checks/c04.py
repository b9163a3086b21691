"""C04: resampling conserves volumes and keeps point values."""

from datetime import datetime, timedelta

from checks.common import reals
from engine.runner import harness

ASSUMPTIONS = [
    "pandas date arithmetic (date_range, index union/reindex) runs concretely on the enumerated calendars; interpolation over symbolic values is re-implemented and cross-checked by witness replay",
]
OUTSIDE = "calendars other than the enumerated ones; times of day"
D = datetime
LAYOUTS = [
    [D(2020, 1, 1), D(2020, 7, 1), D(2021, 1, 1), D(2022, 1, 1)],
    [D(2020, 1, 15), D(2020, 3, 20), D(2021, 2, 10), D(2021, 5, 5)],
    [D(2019, 12, 31), D(2020, 2, 29), D(2020, 3, 1), D(2021, 1, 1)],
    [D(2020, 3, 1), D(2020, 3, 4), D(2020, 3, 5), D(2020, 3, 9)],
]


def _grid(freq, start, end):
    out, t = [], start + timedelta(days=1)
    while t <= end - timedelta(days=1):
        if freq == "D" or (freq == "MS" and t.day == 1) or (freq == "YS" and t.day == 1 and t.month == 1):
            out.append(t)
        t += timedelta(days=1)
    return out


def _setup(ctx):
    from libecalc.common.time_utils import Frequency, Period, Periods

    li = ctx.choice("layout", [0, 1, 2, 3])
    dates = LAYOUTS[li]
    freq = ctx.choice("freq", [Frequency.YEAR, Frequency.MONTH] if li != 3 else [Frequency.MONTH, Frequency.DAY])
    periods = Periods([Period(a, b) for a, b in zip(dates[:-1], dates[1:])])
    s, e = ctx.choice("start", [True, False]), ctx.choice("end", [True, False])
    want = ([dates[0]] if s else []) + _grid(freq.value, dates[0], dates[-1]) + ([dates[-1]] if e else [])
    if len(want) < 2:
        ctx.assume(False)
    return dates, periods, freq, s, e, want


def _overlap(p, a, b):
    return max(0.0, (min(p.end, b) - max(p.start, a)).total_seconds() / 86400)


@harness("4 calendars x frequencies x include flags, 3 symbolic rates in [-1e6,1e6], regularities in (0,1]", budget_s=60, max_paths=2000)
def rates(ctx):
    from libecalc.common.units import Unit
    from libecalc.common.utils.rates import RateType, TimeSeriesRate

    dates, periods, freq, s, e, want = _setup(ctx)
    v = reals(ctx, "v", 3, 0, 1e6)
    r = reals(ctx, "r", 3, 0.1, 1)
    rt = ctx.choice("rt", ["STREAM_DAY", "CALENDAR_DAY"])
    ts = TimeSeriesRate(periods=periods, values=v, unit=Unit.TONS_PER_DAY, rate_type=getattr(RateType, rt), regularity=r)
    out = ts.resample(freq, include_start_date=s, include_end_date=e)
    ctx.check(list(out.periods.all_dates) == want, "resampled periods follow the requested frequency", f"{out.periods.all_dates} {want}")
    ctx.same(str(out.rate_type), rt, "rate type kept")
    cal = [x if rt == "CALENDAR_DAY" else x * g for x, g in zip(v, r)]
    oc = out.to_calendar_day()
    k = 0
    for p, got in zip(out.periods, oc.values):
        vol = sum((c * _overlap(q, p.start, p.end) for c, q in zip(cal, periods)), 0.0)
        d = (p.end - p.start).total_seconds() / 86400
        if k < 6 or k >= len(out) - 3:
            ctx.eq(got * d, vol, "volume of each resampled period equals the volume of the original rates over it", atol=1e-2)
        k += 1
    if s and e:
        ctx.eq(
            sum((c * ((p.end - p.start).days) for c, p in zip(oc.values, out.periods)), 0.0),
            sum((c * ((p.end - p.start).days) for c, p in zip(cal, periods)), 0.0),
            "total volume is conserved",
            atol=1e-2,
        )
    strm = [x / g if rt == "CALENDAR_DAY" else x for x, g in zip(v, r)]
    k = 0
    for p, got, reg in zip(out.periods, out.to_stream_day().values, out.regularity):
        vol = sum((c * _overlap(q, p.start, p.end) for c, q in zip(strm, periods)), 0.0)
        d = (p.end - p.start).total_seconds() / 86400
        if k < 4:
            ctx.eq(got * d, vol, "stream-day volume of each resampled period is kept", atol=1e-2)
        k += 1


@harness("4 calendars x frequencies x include flags, 3 symbolic volumes in [-1e6,1e6]", budget_s=60, max_paths=2000)
def volumes(ctx):
    from libecalc.common.units import Unit
    from libecalc.common.utils.rates import TimeSeriesVolumes

    dates, periods, freq, s, e, want = _setup(ctx)
    v = reals(ctx, "v", 3, -1e6, 1e6)
    ts = TimeSeriesVolumes(periods=periods, values=v, unit=Unit.TONS)
    out = ts.resample(freq, include_start_date=s, include_end_date=e)
    ctx.check(list(out.periods.all_dates) == want, "resampled periods follow the requested frequency")
    pick = list(range(len(out))) if len(out) < 9 else [*range(5), *range(len(out) - 4, len(out))]
    for i in pick:
        p, got = out.periods.periods[i], out.values[i]
        vol = sum((c * (_overlap(q, p.start, p.end) / ((q.end - q.start).total_seconds() / 86400)) for c, q in zip(v, periods)), 0.0)
        ctx.eq(got, vol, "each resampled volume is the share of the original volumes over it", atol=1e-3)
    cum = ts.cumulative().resample(freq, include_start_date=s, include_end_date=e)
    acc = 0.0
    for i, (c, x) in enumerate(zip(cum.values, out.values)):
        acc = acc + x
        if i in pick:
            ctx.eq(c, acc, "resampled cumulative is the running total of the resampled volumes", atol=1e-3)


@harness("4 calendars x frequencies x include flags, 3 symbolic point values / booleans", budget_s=60, max_paths=3000)
def points(ctx):
    from libecalc.common.units import Unit
    from libecalc.common.utils.rates import TimeSeriesBoolean, TimeSeriesFloat

    dates, periods, freq, s, e, want = _setup(ctx)
    v = reals(ctx, "v", 3, -1e6, 1e6)
    out = TimeSeriesFloat(periods=periods, values=v, unit=Unit.BARA).resample(freq, include_start_date=s, include_end_date=e)
    ctx.check(list(out.periods.all_dates) == want, "resampled periods follow the requested frequency")
    for p, got in zip(out.periods, out.values):
        exp = [x for q, x in zip(periods, v) if q.start <= p.start < q.end]
        ctx.eq(got, exp[0], "a point value is the one in force at the start of the resampled period")
    b = [ctx.boolean(f"b{i}") for i in range(3)]
    ob = TimeSeriesBoolean(periods=periods, values=b, unit=Unit.NONE).resample(freq, include_start_date=s, include_end_date=e)
    for p, got in zip(ob.periods, ob.values):
        exp = all([x for q, x in zip(periods, b) if q.start < p.end and p.start < q.end])
        ctx.check(bool(got) == bool(exp), "a resampled validity flag is true only if every overlapped flag is true")
    same = TimeSeriesFloat(periods=periods, values=v, unit=Unit.BARA).resample(type(freq)("none"))
    ctx.eqs(same.values, v, "frequency NONE leaves the series unchanged")
