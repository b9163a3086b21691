"""C03: volumes, cumulatives and units of integrated rates."""

from checks.common import days, make_periods, reals, sym_dates
from engine.runner import harness

ASSUMPTIONS = ["floats are treated as exact reals; results compared with relative tolerance 1e-6"]
OUTSIDE = "more than 3 periods; rounding of IEEE doubles"


def _ts(kind, **k):
    import libecalc.common.utils.rates as r

    return getattr(r, kind)(**k)


@harness("3 periods of symbolic length (1 h .. 5 years), values in [-1e7,1e7], regularity in [0,1], both rate types", budget_s=40)
def rate_to_volume(ctx):
    from libecalc.common.units import Unit
    from libecalc.common.utils.rates import RateType, TimeSeriesRate

    n = 3
    periods = make_periods(sym_dates(ctx, n + 1))
    v = reals(ctx, "v", n, -1e7, 1e7)
    reg = reals(ctx, "r", n, 0, 1)
    rt = ctx.choice("rt", ["STREAM_DAY", "CALENDAR_DAY"])
    ts = TimeSeriesRate(periods=periods, values=v, unit=Unit.TONS_PER_DAY, rate_type=getattr(RateType, rt), regularity=reg)
    vol = ts.to_volumes()
    ctx.same(vol.unit, Unit.TONS, "volume unit")
    want = [(x if rt == "CALENDAR_DAY" else x * g) * days(p) for x, g, p in zip(v, reg, periods)]
    ctx.eqs(vol.values, want, "volume of a period = calendar-day rate * days in the period", atol=1e-3)
    cum = vol.cumulative()
    acc, exp = 0.0, []
    for w in want:
        acc = acc + w
        exp.append(acc)
    ctx.eqs(cum.values, exp, "cumulative is the running total", atol=1e-3)
    ctx.eqs(cum.to_volumes().values, want, "volumes recovered from the cumulative", atol=1e-3)
    rate = vol.to_rate(regularity=reg)
    cal = [x if rt == "CALENDAR_DAY" else x * g for x, g in zip(v, reg)]
    ctx.eqs(rate.values, cal, "average rate recovered from the volume", atol=1e-3)
    ctx.same(str(rate.rate_type), "CALENDAR_DAY", "average rate is a calendar-day rate")
    ctx.same(rate.unit, Unit.TONS_PER_DAY, "rate unit recovered")
    ctx.check(list(vol.periods) == list(periods) and list(cum.periods) == list(periods), "periods kept")


@harness("3 periods, values in [0,1e7]; each value may be missing (nan)", budget_s=20)
def monotone(ctx):
    from libecalc.common.units import Unit

    n = 3
    periods = make_periods(sym_dates(ctx, n + 1))
    v = [ctx.real(f"v{i}", 0, 1e7) if not ctx.choice(f"nan{i}", [False, True]) else float("nan") for i in range(n)]
    cum = _ts("TimeSeriesVolumes", periods=periods, values=v, unit=Unit.TONS).cumulative()
    prev = 0.0
    for x, c in zip(v, cum.values):
        ctx.le(prev, c, "cumulative of non-negative volumes never decreases")
        ctx.eq(c, prev + (0.0 if ctx.isnan(x) else x), "a missing volume adds nothing")
        prev = c


@harness("3 periods with missing values (nan) at any place", budget_s=20)
def filling(ctx):
    from libecalc.common.units import Unit

    n = 3
    periods = make_periods(sym_dates(ctx, n + 1))
    v = [ctx.real(f"v{i}", -1e7, 1e7) if not ctx.choice(f"nan{i}", [False, True]) else float("nan") for i in range(n)]
    ts = _ts("TimeSeriesFloat", periods=periods, values=list(v), unit=Unit.NONE)
    f = ctx.real("f", -10, 10)
    ctx.eqs(ts.fill_nan(f).values, [f if ctx.isnan(x) else x for x in v], "missing values replaced by the fill value")
    last, exp = float("nan"), []
    for x in v:
        last = last if ctx.isnan(x) else x
        exp.append(last)
    ctx.eqs(ts.forward_fill().values, exp, "forward fill repeats the last value")


@harness("all rate units with a volume unit; 1 period of symbolic length", budget_s=20)
def power_to_energy(ctx):
    from libecalc.common.units import Unit
    from libecalc.common.utils.rates import RateType, TimeSeriesRate

    p = make_periods(sym_dates(ctx, 2))
    mw = ctx.real("mw", 0, 1e4)
    ts = TimeSeriesRate(periods=p, values=[mw], unit=Unit.MEGA_WATT, rate_type=RateType.CALENDAR_DAY, regularity=[1.0])
    vol = ts.to_volumes()
    ctx.same(vol.unit, Unit.MEGA_WATT_DAYS, "power integrates to megawatt days")
    ctx.eq(vol.to_unit(Unit.GIGA_WATT_HOURS).values[0], mw * days(p.periods[0]) * 24 / 1000, "energy in GWh = MW * hours / 1000")
    kg = TimeSeriesRate(periods=p, values=[mw], unit=Unit.KILO_PER_DAY, rate_type=RateType.CALENDAR_DAY, regularity=[1.0])
    ctx.eq(kg.to_volumes().to_unit(Unit.TONS).values[0], mw * days(p.periods[0]) / 1000, "kg per day integrates to tons")
    ctx.eq(kg.to_unit(Unit.TONS_PER_DAY).to_volumes().values[0], kg.to_volumes().to_unit(Unit.TONS).values[0], "unit conversion and integration commute")


@harness("2 periods, symbolic volumes and denominators (zero allowed)", budget_s=20)
def ratio(ctx):
    from libecalc.common.units import Unit

    p = make_periods(sym_dates(ctx, 3))
    a, b = reals(ctx, "a", 2, 0, 1e7), reals(ctx, "b", 2, 0, 1e7)
    kind = ctx.choice("kind", ["TimeSeriesVolumes", "TimeSeriesVolumesCumulative"])
    den = ctx.choice("den", ["STANDARD_CUBIC_METER", "BOE"])
    q = _ts(kind, periods=p, values=a, unit=Unit.KILO) / _ts(kind, periods=p, values=b, unit=getattr(Unit, den))
    ctx.same(q.unit, Unit.KG_SM3 if den != "BOE" else Unit.KG_BOE, "ratio unit")
    for x, y, z in zip(a, b, q.values):
        if y == 0:
            ctx.check(ctx.isnan(z), "ratio with zero denominator is missing")
        else:
            ctx.eq(z * y, x, "ratio = numerator / denominator", atol=1e-4)
