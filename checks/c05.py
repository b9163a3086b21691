"""C05: unit conversions are exact inverses and compose."""

from checks.common import make_periods, reals, sym_dates
from engine.runner import harness

ASSUMPTIONS = ["floats are treated as exact reals; results compared with relative tolerance 1e-6"]
OUTSIDE = "unit pairs without a conversion (they are required to be refused)"

# value * factor + offset in a base unit per physical quantity, from the SI definitions and eCalc's documented conventions
SI = {
    "TONS_PER_DAY": ("massrate", 1000.0, 0.0),
    "KILO_PER_DAY": ("massrate", 1.0, 0.0),
    "KILO": ("mass", 1.0, 0.0),
    "TONS": ("mass", 1000.0, 0.0),
    "STANDARD_CUBIC_METER": ("volume", 1.0, 0.0),
    "LITRES": ("volume", 0.001, 0.0),
    "BOE": ("volume", 1 / 6.29, 0.0),
    "CELSIUS": ("temp", 1.0, 273.15),
    "KELVIN": ("temp", 1.0, 0.0),
    "BARA": ("pressure", 1e5, 0.0),
    "KILO_PASCAL": ("pressure", 1e3, 0.0),
    "PASCAL": ("pressure", 1.0, 0.0),
    "PERCENTAGE": ("frac", 0.01, 0.0),
    "FRACTION": ("frac", 1.0, 0.0),
    "POLYTROPIC_HEAD_JOULE_PER_KG": ("head", 1.0, 0.0),
    "POLYTROPIC_HEAD_KILO_JOULE_PER_KG": ("head", 1000.0, 0.0),
    "POLYTROPIC_HEAD_METER_LIQUID_COLUMN": ("head", 9.81, 0.0),
    "KG_SM3": ("intensity", 1.0, 0.0),
    "KG_BOE": ("intensity", 6.29, 0.0),
    "MEGA_WATT_DAYS": ("energy", 24.0, 0.0),
    "GIGA_WATT_HOURS": ("energy", 1000.0, 0.0),
}


def _conv(u, v):
    try:
        return u.to(v)
    except NotImplementedError:
        return None


@harness("every ordered pair of units, one symbolic value in [-1e12,1e12]", budget_s=40, max_paths=2000)
def pairs(ctx):
    from libecalc.common.units import Unit

    units = [u for u in Unit]
    x = ctx.real("x", -1e12, 1e12)
    for u in units:
        for v in units:
            f = _conv(u, v)
            if f is None:
                continue
            y = f(x)
            su, sv = SI.get(u.name), SI.get(v.name)
            if u is v:
                ctx.eq(y, x, "converting to the same unit changes nothing")
                continue
            if su is None or sv is None or su[0] != sv[0]:
                ctx.fail(f"a conversion exists only between units of one quantity: {u.name} -> {v.name}")
                continue
            ctx.eq(y * sv[1] + sv[2], x * su[1] + su[2], f"conversion preserves the physical quantity: {u.name} -> {v.name}", atol=1e-6)
            g = _conv(v, u)
            if g is not None:
                ctx.eq(g(y), x, f"round trip: {u.name} -> {v.name} -> {u.name}")
            for w in units:
                h, k = _conv(v, w), _conv(u, w)
                if h is not None and k is not None and w not in (u, v):
                    ctx.eq(h(y), k(x), f"conversions compose: {u.name} -> {v.name} -> {w.name}")


@harness("every convertible pair; lists and arrays of 2 symbolic values", budget_s=30)
def containers(ctx):
    from libecalc.common.units import Unit

    xs = reals(ctx, "x", 2, -1e9, 1e9)
    names = list(SI)
    for a in names:
        for b in names:
            f = _conv(getattr(Unit, a), getattr(Unit, b))
            if f is None or a == b:
                continue
            want = [f(x) for x in xs]
            got = f(list(xs))
            ctx.check(isinstance(got, list), "list stays a list")
            ctx.eqs(got, want, "a list converts elementwise")
            ctx.eqs(f(ctx.array(xs)), want, "an array converts elementwise")


@harness("convertible pairs; time series of 2 periods; every rate/volume unit pair", budget_s=30)
def series(ctx):
    from libecalc.common.units import Unit
    from libecalc.common.utils.rates import TimeSeriesFloat

    xs = reals(ctx, "x", 2, -1e9, 1e9)
    periods = make_periods(sym_dates(ctx, 3))
    for a, b in [("KILO_PER_DAY", "TONS_PER_DAY"), ("TONS_PER_DAY", "KILO_PER_DAY"), ("BARA", "PASCAL"), ("CELSIUS", "KELVIN"), ("MEGA_WATT_DAYS", "GIGA_WATT_HOURS"), ("KILO", "TONS"), ("STANDARD_CUBIC_METER", "BOE")]:
        u, v = getattr(Unit, a), getattr(Unit, b)
        ts = TimeSeriesFloat(periods=periods, values=list(xs), unit=u)
        out = ts.to_unit(v)
        ctx.same(out.unit, v, "series carries the new unit")
        ctx.eqs(out.values, [u.to(v)(x) for x in xs], "series converts every value")
        ctx.eqs(ts.values, xs, "the original series is untouched")
        ctx.same(ts.unit, u, "the original series keeps its unit")
    for u in Unit:
        try:
            vol = u.rate_to_volume()
        except NotImplementedError:
            continue
        ctx.same(vol.volume_to_rate(), u, "rate unit and volume unit are inverse")


RATE = {"STANDARD_CUBIC_METER_PER_DAY": "STANDARD_CUBIC_METER", "MEGA_WATT": "MEGA_WATT_DAYS", "TONS_PER_DAY": "TONS", "KILO_PER_DAY": "KILO", "LITRES_PER_DAY": "LITRES"}


@harness("every unit", budget_s=10)
def rate_units(ctx):
    from libecalc.common.units import Unit

    for r, v in RATE.items():
        ctx.same(getattr(Unit, r).rate_to_volume(), getattr(Unit, v), "volume unit of a rate unit")
        ctx.same(getattr(Unit, v).volume_to_rate(), getattr(Unit, r), "rate unit of a volume unit")
