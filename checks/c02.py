"""C02: calendar-day / stream-day conversion and rate addition."""

from checks.common import make_periods, reals, sym_dates
from engine.runner import harness

ASSUMPTIONS = ["floats are treated as exact reals; results compared with relative tolerance 1e-6"]
OUTSIDE = "Rounding behaviour of IEEE doubles; more than 3 periods."


def _rate(values, periods, reg, rt, unit=None):
    from libecalc.common.units import Unit
    from libecalc.common.utils.rates import RateType, TimeSeriesRate

    return TimeSeriesRate(periods=periods, values=values, unit=unit or Unit.STANDARD_CUBIC_METER_PER_DAY, rate_type=getattr(RateType, rt), regularity=reg)


@harness("2 periods of symbolic length, values in [-1e9,1e9], regularity in [0,1], both rate types", budget_s=25)
def conversion(ctx):
    periods = make_periods(sym_dates(ctx, 3))
    vals = reals(ctx, "v", 2, -1e9, 1e9)
    reg = reals(ctx, "r", 2, 0, 1)
    rt = ctx.choice("rt", ["STREAM_DAY", "CALENDAR_DAY"])
    ts = _rate(vals, periods, reg, rt)
    cal = ts.to_calendar_day()
    strm = ts.to_stream_day()
    ctx.same(str(cal.rate_type), "CALENDAR_DAY", "calendar-day conversion reports calendar-day type")
    ctx.same(str(strm.rate_type), "STREAM_DAY", "stream-day conversion reports stream-day type")
    for v, r, c, s in zip(vals, reg, cal.values, strm.values):
        if rt == "STREAM_DAY":
            ctx.eq(s, v, "stream-day rate unchanged")
            ctx.eq(c, v * r, "calendar day = stream day * regularity")
        else:
            ctx.eq(c, v, "calendar-day rate unchanged")
            if r == 0:
                ctx.eq(s, 0.0, "zero regularity gives zero stream-day rate")
            else:
                ctx.eq(s * r, v, "stream day * regularity = calendar day", rtol=1e-6)
    back = (cal.to_stream_day() if rt == "STREAM_DAY" else strm.to_calendar_day())
    for v, r, b in zip(vals, reg, back.values):
        if r > 0.001:
            ctx.eq(b, v, "round trip")
    ctx.eqs(cal.regularity, reg, "regularity kept")
    ctx.eqs(strm.regularity, reg, "regularity kept")


@harness("2 periods, values in [0,1e6], regularities in [0,1] equal or different, both rate types", budget_s=40)
def addition(ctx):
    periods = make_periods(sym_dates(ctx, 3))
    n = 2
    a, b = reals(ctx, "a", n, 0, 1e6), reals(ctx, "b", n, 0, 1e6)
    ra = reals(ctx, "ra", n, 0, 1)
    same = ctx.choice("same", [True, False])
    rb = ra if same else reals(ctx, "rb", n, 0, 1)
    rt = ctx.choice("rt", ["STREAM_DAY", "CALENDAR_DAY"])
    if rt == "CALENDAR_DAY":
        # nothing is produced when the plant never runs
        for i in range(n):
            ctx.assume(ctx.implies(ra[i] == 0, a[i] == 0))
            ctx.assume(ctx.implies(rb[i] == 0, b[i] == 0))
    x, y = _rate(a, periods, ra, rt), _rate(b, periods, rb, rt)
    s = x + y
    ctx.same(str(s.rate_type), rt, "sum keeps the rate type")
    ctx.eqs(s.values, [p + q for p, q in zip(a, b)], "rates add")
    cal = [p + q for p, q in zip(x.to_calendar_day().values, y.to_calendar_day().values)]
    ctx.eqs(s.to_calendar_day().values, cal, "calendar-day rate of the sum is the sum of calendar-day rates", atol=1e-5)
    strm = [p + q for p, q in zip(x.to_stream_day().values, y.to_stream_day().values)]
    for got, want in zip(s.to_stream_day().values, strm):
        if want < 1e7:
            ctx.eq(got, want, "stream-day rate of the sum is the sum of stream-day rates", atol=1e-4)


@harness("1 period, mismatching units or rate types", budget_s=10)
def addition_rejects(ctx):
    from libecalc.common.units import Unit

    periods = make_periods(sym_dates(ctx, 2))
    v, w = ctx.real("v", -1e6, 1e6), ctx.real("w", -1e6, 1e6)
    kind = ctx.choice("kind", ["unit", "type"])
    x = _rate([v], periods, [1.0], "STREAM_DAY", Unit.TONS_PER_DAY)
    y = _rate([w], periods, [1.0], "STREAM_DAY" if kind == "unit" else "CALENDAR_DAY", Unit.KILO_PER_DAY if kind == "unit" else Unit.TONS_PER_DAY)
    try:
        x + y
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, "adding rates of different unit or rate type is rejected")


@harness("3 periods, stream-day series combined with an installation regularity series; sub-span of the periods", budget_s=20)
def from_stream_day(ctx):
    from libecalc.common.units import Unit
    from libecalc.common.utils.rates import TimeSeriesFloat, TimeSeriesRate, TimeSeriesStreamDayRate
    from libecalc.common.time_utils import Periods

    periods = make_periods(sym_dates(ctx, 4))
    reg = reals(ctx, "r", 3, 0, 1)
    i = ctx.choice("i", [0, 1, 2])
    j = ctx.choice("j", [1, 2, 3])
    ctx.assume(i < j)
    sub = Periods(periods.periods[i:j])
    vals = reals(ctx, "v", j - i, -1e6, 1e6)
    series = TimeSeriesStreamDayRate(periods=sub, values=vals, unit=Unit.MEGA_WATT)
    r = TimeSeriesRate.from_timeseries_stream_day_rate(series, TimeSeriesFloat(periods=periods, values=reg, unit=Unit.NONE))
    ctx.same(str(r.rate_type), "STREAM_DAY", "type")
    ctx.eqs(r.values, vals, "values kept")
    ctx.eqs(r.regularity, reg[i:j], "each value gets the regularity of its own period")
    ctx.eqs(r.to_calendar_day().values, [v * g for v, g in zip(vals, reg[i:j])], "calendar-day rate uses the regularity of its own period")
    back = r.to_stream_day_timeseries()
    ctx.eqs(back.values, vals, "back to the stream-day series")
    two = series + TimeSeriesStreamDayRate(periods=sub, values=reals(ctx, "w", j - i, -1e6, 1e6), unit=Unit.MEGA_WATT)
    ctx.eqs(two.values, [a + ctx.real(f"w{k}", -1e6, 1e6) for k, a in enumerate(vals)], "stream-day series add elementwise")
