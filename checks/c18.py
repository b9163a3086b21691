"""C18: the output files give the model's results: resampled, with emission intensities, rounded no more than stated."""

import io
import json
from datetime import datetime

from checks.common import reals
from checks.model import GENSET_FILE, Results, asset_result, consumer, doc, el, fuel, installation, run
from engine import sym as S
from engine.runner import harness

ASSUMPTIONS = ["a formatted number is one of the closest with the requested number of decimals (numpy's algorithm)", "JSON text round-trips its data"]
OUTSIDE = "writing to disk, logging; magnitudes outside [1e-7, 1e9]"


@harness("any number of magnitude 1e-7 to 1e9, and 0; precision 0 to 6", budget_s=60, max_paths=2000)
def rounding(ctx):
    from libecalc.common.math.numbers import Numbers

    p = ctx.choice("precision", [0, 1, 2, 3, 4, 5, 6])
    x = ctx.real("x", -1e9, 1e9)
    a = ctx.abs(x)
    ctx.assume(ctx.Or(x == 0, a >= 1e-7))
    v = S.untoken(Numbers.format_to_precision(x, p))
    unit = 10.0**-p
    ctx.check(ctx.abs(v - x) <= 0.5 * unit * ctx.max(1.0, a) * (1 + 1e-9), "the error is at most half of the last decimal kept")
    ctx.check(ctx.abs(v - x) <= 0.5 + 1e-9, "digits before the decimal point are kept")
    ctx.check(v * x >= 0, "the sign is kept")
    if a <= unit / 10:
        ctx.check(v == 0, "numbers below the precision are 0")
    if ctx.symbolic:
        ctx.check(S.floor(v * 10**p) == v * 10**p, "no more decimals than the precision")
    else:
        ctx.check(abs(v * 10**p - round(v * 10**p)) <= 1e-6 * max(1, abs(v)), "no more decimals than the precision")


@harness("any whole number up to 1e9; precision 0 to 6", budget_s=30, max_paths=500)
def whole(ctx):
    from libecalc.common.math.numbers import Numbers

    p = ctx.choice("precision", [0, 3, 6])
    n = ctx.integer("n", -(10**9), 10**9)
    v = S.untoken(Numbers.format_to_precision(n * 1.0, p))
    ctx.check(v == n, "whole numbers are not changed")


CALENDARS = {
    "years": [datetime(2020, 1, 1), datetime(2021, 1, 1), datetime(2022, 1, 1), datetime(2023, 1, 1)],
    "irregular": [datetime(2020, 1, 1), datetime(2020, 5, 11), datetime(2021, 3, 1), datetime(2023, 1, 1)],
}


def volume(dates, values, a, b):
    """integral of the daily values from a to b"""
    out = 0.0
    for s, e, v in zip(dates, dates[1:], values):
        days = (min(e, b) - max(s, a)).total_seconds() / 86400
        if days > 0:
            out = out + v * days
    return out


def build(ctx, dates, f, v, h, load, reg):
    n = len(dates) - 1
    emitter = {"NAME": "flare", "CATEGORY": "COLD-VENTING-FUGITIVE", "TYPE": "DIRECT_EMISSION",
               "EMISSIONS": [{"NAME": "co2", "RATE": {"VALUE": "SIM;V", "UNIT": "KG_PER_DAY", "TYPE": "STREAM_DAY"}}]}
    d = doc([
        installation("A", genset_consumers=[consumer("a", el("SIM;L"))], fuel_consumers=[consumer("f", fuel("SIM;F"))], venting=[emitter],
                     regularity="SIM;R", hcexport="SIM;H"),
    ], start=dates[0], end=dates[-1])
    return run(d, columns={"F": f, "V": v, "H": h, "L": load, "R": reg}, dates=dates[:n], facility=GENSET_FILE)


def inputs(ctx, n, zero_export=False):
    f, v = reals(ctx, "f", n, 0, 90000), reals(ctx, "v", n, 0, 5000)
    h = reals(ctx, "h", n, 0, 1e6)
    return f, v, h


@harness("emission intensity of an installation with fuel and venting: any rates and exports; 2 calendars, yearly and unchanged frequency; 3 periods", budget_s=100, max_paths=1000)
def intensity(ctx):
    from libecalc.common.time_utils import Frequency

    from ecalc_cli.emission_intensity import EmissionIntensityCalculator

    cal = ctx.choice("calendar", list(CALENDARS))
    freq = ctx.choice("frequency", ["YEAR", "NONE"])
    dates = CALENDARS[cal]
    n = len(dates) - 1
    reg = ctx.choice("regularity", [[1.0, 1.0, 1.0], [1.0, 0.5, 0.9]])
    f, v, h = inputs(ctx, n)
    if freq == "YEAR" and reg[1] != 1.0:
        # the regularities of years are quotients
        varied = ctx.choice("varied", ["f", "v", "h"])
        f, v, h = [x if name == varied else [700.0, 0.0, 300.0] for name, x in (("f", f), ("v", v), ("h", h))]
    load = [0.0] * n
    if freq == "YEAR":
        ctx.assume(ctx.And(*[ctx.Or(y >= 1, not S.is_sym(y)) for y in (*f, *v)]))
    ctx.assume(ctx.And(*[ctx.Or(x == 0, x >= 1) for x in h]))
    res = asset_result(build(ctx, dates, f, v, h, load, reg))
    if freq == "YEAR":
        res = res.resample(Frequency.YEAR)
    c = res.component_result
    calc = EmissionIntensityCalculator(hydrocarbon_export_rate=c.hydrocarbon_export_rate, emissions=c.emissions, frequency=Frequency[freq])
    out = calc.get_results().results
    ctx.check(len(out) == 1 and out[0].name.lower() == "co2", "one result, for CO2")
    out = out[0]
    kg = [(a * 2.5 + b) * r for a, b, r in zip(f, v, reg)]
    sm3 = h  # given per calendar day
    new = CALENDARS["years"] if freq == "YEAR" else dates
    ctx.check([p.start for p in out.intensity_sm3.periods] == new[:-1], "periods")
    rows = []
    for i in range(len(new) - 1):
        rows.append((out.intensity_sm3.values[i], out.intensity_boe.values[i], new[0], new[i + 1], "cumulative"))
        if freq == "YEAR":
            rows.append((out.intensity_yearly_sm3.values[i], out.intensity_yearly_boe.values[i], new[i], new[i + 1], "yearly"))
    if freq == "NONE":
        ctx.check(out.intensity_yearly_sm3 is None and out.intensity_yearly_boe is None, "yearly intensities for yearly results only")
    for got, got_boe, a, b, what in rows:
        e, x = volume(dates, kg, a, b), volume(dates, sm3, a, b)
        if x == 0:
            ctx.check(ctx.isnan(got) and ctx.isnan(got_boe), f"no {what} intensity without export")
        else:
            ctx.eq(got * x, e, f"{what} intensity is CO2 over export", atol=1e-6)
            ctx.eq(got_boe * x * 6.29, e, f"{what} intensity per barrel", atol=1e-6)
    units = {k: getattr(out, k).unit.value for k in ("intensity_sm3", "intensity_boe")}
    ctx.check(units == {"intensity_sm3": "kg/Sm3", "intensity_boe": "kg/BOE"}, "units", units)
    df = out.to_dataframe(prefix="co2")
    ctx.check([str(x) for x in df.columns][:2] == ["co2.intensity_sm3[kg/Sm3]", "co2.intensity_boe[kg/BOE]"], "column names")
    ctx.check([x.to_pydatetime() for x in df.index] == new[:-1], "dates of the table")
    for i in range(len(new) - 1):
        about(ctx, df.iloc[i, 0], out.intensity_sm3.values[i], "table: per Sm3")
        about(ctx, df.iloc[i, 1], out.intensity_boe.values[i], "table: per barrel")


def parse_csv(ctx, text):
    head, *lines = text.strip().split("\n")
    return head.split(","), [line.split(",") for line in lines]


def about(ctx, got, want, label):
    """equal but for rounding to 6 significant decimals (and 5 in tables)"""
    if ctx.isnan(want):
        ctx.check(got is None or (not S.is_sym(got) and got != got), label, f"{got} for a missing value")
        return
    ctx.check(got is not None, label, "missing")
    if S.is_sym(got) and S.is_sym(want) and got.e.eq(want.e):
        ctx.check(True, label)
        return
    d = ctx.abs(got - want)
    ctx.check(ctx.Or(d <= 6e-6, d <= 1.1e-6 * ctx.abs(want)), label, f"{got} != {want}")


@harness("JSON (simple and detailed) and CSV of a model with generator set, fuel consumer and venting: any loads and rates; yearly and unchanged frequency; 3 periods", budget_s=80, max_paths=600)
def files(ctx):
    from libecalc.common.math.numbers import Numbers
    from libecalc.common.time_utils import Frequency
    from libecalc.infrastructure.file_utils import OutputFormat, get_result_output

    cal = ctx.choice("calendar", list(CALENDARS))
    freq = ctx.choice("frequency", ["YEAR", "NONE"])
    dates = CALENDARS[cal]
    n = len(dates) - 1
    f, v, h = inputs(ctx, n)
    load = [30.0, *reals(ctx, "load", 1, 0.001, 50), 0.0]
    ctx.assume(ctx.abs(load[1] - 40) > 1e-3)
    for x in (*f, *v, *h):
        ctx.assume(x >= 1)
    res = asset_result(build(ctx, dates, f, v, h, load, [1.0, 1.0, 1.0] if freq == "YEAR" else [1.0, 0.5, 0.9]))
    if freq == "YEAR":
        res = res.resample(Frequency.YEAR)
    if ctx.symbolic:
        rounded = res  # see `rounding`: numbers are within the tolerance
    else:
        rounded = Numbers.format_results_to_precision(result=res, precision=6)
    kind = ctx.choice("output", ["simple", "detailed", "csv"])
    option = ctx.choice("date format", [0, 1, 2] if ctx.thorough else [["simple", "detailed", "csv"].index(kind)])
    fmt = ["%Y-%m-%d %H:%M:%S", "%Y%m%d %H:%M:%S", "%d.%m.%Y %H:%M:%S"][option]
    starts = [p.start.strftime(fmt) for p in res.periods]
    components = [res.component_result, *res.sub_components]
    if kind == "csv":
        head, rows = parse_csv(ctx, get_result_output(rounded, OutputFormat.CSV, False, option))
        ctx.check([r[0] for r in rows] == starts, "one row for each period", [r[0] for r in rows])
        col = {h: k for k, h in enumerate(head)}
        ctx.check(len(col) == len(head), "column names are unique")
        for c in components:
            cells = [("is_valid[N/A]", c.is_valid)]
            for name in ("energy_usage", "power", "hydrocarbon_export_rate", "power_electrical", "energy_usage_cumulative", "power_cumulative"):
                s = getattr(c, name, None)
                if s is None:
                    continue
                unit = s.unit.value
                if name.endswith("cumulative"):
                    unit += " (cd)"
                else:
                    day = "sd" if s.rate_type.value == "STREAM_DAY" else "cd"
                    unit = f"MW ({day})" if unit == "MW" else unit.replace("/d", f"/{day}")
                cells.append((f"{name}[{unit}]", s))
            for e in c.emissions.values():
                day = "sd" if e.rate.rate_type.value == "STREAM_DAY" else "cd"
                cells += [(f"{e.name}.rate[t/{day}]", e.rate), (f"{e.name}.cumulative[t (cd)]", e.cumulative)]
            for name, s in cells:
                k = col.get(f"{c.name}.{name}")
                ctx.check(k is not None, f"column {name} of {c.name}", list(col))
                for row, x in zip(rows, s.values):
                    if name.startswith("is_valid"):
                        ctx.check(S.untoken(row[k]) == (1 if x else 0), "validity in the table")
                    else:
                        about(ctx, S.untoken(row[k]), x, "number in the table")
        return
    data = get_result_output(rounded, OutputFormat.JSON, kind == "simple", option)
    data = json.loads(data) if isinstance(data, str) else data
    if kind == "simple":
        found = {c["name"]: c for c in data["components"]}
        ctx.check(len(found) == len(components) == len(data["components"]), "every component is written once")
    else:
        found = {c["name"]: c for c in [data["component_result"], *data["sub_components"]]}
        ctx.check(len(found) == len(components), "every component is written once")
    for c in components:
        j = found[c.name]
        ctx.check(j["componentType"] == c.componentType.value, "component type")
        value = (lambda x: x) if kind == "simple" else (lambda x: x["values"])
        for i in range(len(starts)):
            about(ctx, value(j["energy_usage"])[i], c.energy_usage.values[i], "energy usage")
            ctx.check(bool(value(j["is_valid"])[i]) == bool(c.is_valid.values[i]), "validity")
            if c.power is not None:
                about(ctx, value(j["power"])[i], c.power.values[i], "power")
            for name, e in c.emissions.items():
                about(ctx, value(j["emissions"][name]["rate"])[i], e.rate.values[i], "emission rate")
        unit = j["energy_usage_unit"] if kind == "simple" else j["energy_usage"]["unit"]
        ctx.check(unit == c.energy_usage.unit.value, "unit")
        if kind == "detailed":
            ctx.check([p["start"] for p in j["periods"]["periods"]] == starts, "dates", j["periods"])
            for i in range(len(starts)):
                about(ctx, j["energy_usage_cumulative"]["values"][i], c.energy_usage_cumulative.values[i], "cumulative energy usage")
                for name, e in c.emissions.items():
                    about(ctx, j["emissions"][name]["cumulative"]["values"][i], e.cumulative.values[i], "cumulative emissions")


@harness("rounding of a nested result: models, lists, dicts, other types", budget_s=20, max_paths=300)
def nested(ctx):
    from libecalc.common.math.numbers import Numbers
    from libecalc.common.time_utils import Periods
    from libecalc.common.units import Unit
    from libecalc.common.utils.rates import TimeSeriesFloat

    x = ctx.real("x", 0.001, 99)
    y = ctx.real("y", -99, 99)
    dates = CALENDARS["years"]
    s = TimeSeriesFloat(periods=Periods.create_periods(dates[:3], include_before=False, include_after=False), values=[x, y], unit=Unit.MEGA_WATT)
    data = {"a": [x, {"b": y}], "s": s, "t": "1.23456789", "i": 7, "n": None, "v": True, "d": dates[0]}
    r = Numbers.format_results_to_precision(data, 2)
    tol = lambda v: 0.00501 * ctx.max(1.0, ctx.abs(v))
    for got, want in ((r["a"][0], x), (r["a"][1]["b"], y), (r["s"].values[0], x), (r["s"].values[1], y)):
        ctx.check(ctx.abs(got - want) <= tol(want), "nested numbers are rounded")
    ctx.check((r["t"], r["i"], r["n"], r["v"], r["d"]) == ("1.23456789", 7, None, True, dates[0]), "other values are kept")
    ctx.check(r["s"].unit == Unit.MEGA_WATT and r["s"].periods == s.periods, "units and periods are kept")
    ctx.same(s.values[0], x, "the original is not rounded")
    ctx.same(data["a"][0], x, "the original is not rounded")


@harness("compressor train models of a result, dated: every stage, stream condition, rate, turbine and flag; any values; 3 periods, regularity", budget_s=60, max_paths=300)
def train_models(ctx):
    from types import SimpleNamespace as N

    from libecalc.common.component_type import ComponentType
    from libecalc.common.time_utils import Periods
    from libecalc.common.units import Unit
    from libecalc.common.utils.rates import TimeSeriesFloat
    from libecalc.domain.process.compressor.core.results import CompressorTrainCommonShaftFailureStatus as Failure
    from libecalc.domain.process.core.results.compressor import CompressorStageResult, CompressorStreamCondition, CompressorTrainResult
    from libecalc.domain.process.core.results.turbine import TurbineResult
    from libecalc.presentation.json_result.mapper import ModelResultHelper

    dates = CALENDARS["years"]
    everything = Periods.create_periods(dates, include_before=False, include_after=False)
    cut = ctx.choice("second model from period", [1, 2])
    parts = [Periods(everything.periods[:cut]), Periods(everything.periods[cut:])]
    reg = reals(ctx, "reg", len(everything), 0.1, 1)
    regularity = TimeSeriesFloat(periods=everything, values=reg, unit=Unit.NONE)
    turbine = ctx.choice("turbine", [False, True])
    several = ctx.choice("several streams", [False, True])
    CONDITION = ("pressure", "actual_rate_m3_per_hr", "actual_rate_before_asv_m3_per_hr", "standard_rate_sm3_per_day", "standard_rate_before_asv_sm3_per_day", "density_kg_per_m3", "kappa", "z", "temperature_kelvin")
    RATES = ("standard_rate_sm3_per_day", "standard_rate_before_asv_sm3_per_day")
    STAGE = ("energy_usage", "power", "mass_rate_kg_per_hr", "mass_rate_before_asv_kg_per_hr", "polytropic_enthalpy_change_kJ_per_kg", "polytropic_head_kJ_per_kg",
             "polytropic_efficiency", "polytropic_enthalpy_change_before_choke_kJ_per_kg", "speed", "asv_recirculation_loss_mw")
    FLAGS = ("is_valid", "rate_has_recirculation", "rate_exceeds_maximum", "pressure_is_choked", "head_exceeds_maximum")
    bits = ctx.choice("flags", [0b10110, 0b01101, 0b11111])
    trains, requested = [], []
    for m, ps in enumerate(parts):
        n = len(ps)
        xs = lambda name: reals(ctx, f"{name}{m}", n, 1, 1e6)  # noqa: E731
        condition = lambda name: CompressorStreamCondition(**{k: xs(f"{name} {k}") for k in CONDITION})  # noqa: E731
        stages = [CompressorStageResult(**{k: xs(f"stage {i} {k}") for k in STAGE}, **{k: [bool(bits >> ((b + i + t + m) % 5) & 1) for t in range(n)] for b, k in enumerate(FLAGS)},
                                        energy_usage_unit=Unit.MEGA_WATT, power_unit=Unit.MEGA_WATT, fluid_composition={"methane": 0.9}, chart_area_flags=[f"{m}{i}{t}" for t in range(n)],
                                        inlet_stream_condition=condition(f"in {i}"), outlet_stream_condition=condition(f"out {i}")) for i in range(2)]
        failures = [[Failure.NO_FAILURE, Failure.ABOVE_MAXIMUM_POWER][(t + m) % 2] for t in range(n)]
        rate = xs("rate")
        r = CompressorTrainResult(rate_sm3_day=[rate, xs("other rate")] if several else rate, max_standard_rate=xs("max"), inlet_stream_condition=condition("in"), outlet_stream_condition=condition("out"),
                                  stage_results=stages, failure_status=failures, turbine_result=None, energy_usage=xs("use"), energy_usage_unit=Unit.MEGA_WATT, power=xs("power"), power_unit=Unit.MEGA_WATT)
        if turbine:
            r.turbine_result = TurbineResult(load=xs("load"), efficiency=xs("efficiency"), load_unit=Unit.MEGA_WATT, exceeds_maximum_load=[bool(bits >> t & 1) for t in range(n)],
                                             energy_usage=xs("fuel"), energy_usage_unit=Unit.STANDARD_CUBIC_METER_PER_DAY)
        trains.append((r, rate))
        requested.append((xs("ps"), xs("pd")))
    index = {p.period: m for m, p in enumerate(parts)}
    model = lambda period: N(get_requested_inlet_pressure=lambda: requested[index[period]][0], get_requested_outlet_pressure=lambda: requested[index[period]][1])  # noqa: E731
    got = ModelResultHelper.process_single_compressor_model(
        consumer=N(name="train", energy_usage_model=N(get_model=model)), consumer_result=N(temporal_results=[N(periods=p, energy_function_result=r) for p, (r, _) in zip(parts, trains)]),
        container_info=N(name="train", component_type=ComponentType.COMPRESSOR), regularity=regularity)
    ctx.same(len(got), 2, "one result for each dated model")

    def rates(series, want, label, k):
        ctx.eqs(series.to_calendar_day().values, [w * g for w, g in zip(want, reg[k])], label)

    def conditions(a, b, label, k):
        for f in CONDITION:
            rates(getattr(a, f), getattr(b, f), f"{label}: {f}", k) if f in RATES else ctx.eqs(getattr(a, f).values, getattr(b, f), f"{label}: {f}")

    for m, (g, ps, (r, rate)) in enumerate(zip(got, parts, trains)):
        k = slice(0, cut) if m == 0 else slice(cut, None)
        ctx.check(g.periods == ps, "periods of the model")
        use = r.get_energy_result()
        rates(g.energy_usage, use.energy_usage.values, "energy usage", k)
        ctx.check(g.energy_usage.unit == use.energy_usage.unit, "unit of the energy usage")
        rates(g.power, use.power.values, "power", k)
        rates(g.rate, rate, "rate", k)
        rates(g.maximum_rate, r.max_standard_rate, "maximum rate", k)
        ctx.eqs(g.requested_inlet_pressure.values, requested[m][0], "requested inlet pressure")
        ctx.eqs(g.requested_outlet_pressure.values, requested[m][1], "requested outlet pressure")
        valid = [f is Failure.NO_FAILURE and all(s.is_valid[t] for s in r.stage_results) and not (turbine and r.turbine_result.exceeds_maximum_load[t]) for t, f in enumerate(r.failure_status)]
        ctx.check([bool(v) for v in g.is_valid.values] == valid, "valid when nothing failed")
        ctx.check(list(g.failure_status) == list(r.failure_status), "failures")
        conditions(g.inlet_stream_condition, r.inlet_stream_condition, "inlet", k)
        conditions(g.outlet_stream_condition, r.outlet_stream_condition, "outlet", k)
        ctx.same(len(g.stage_results), 2, "stages")
        for a, b in zip(g.stage_results, r.stage_results):
            for f in STAGE:
                rates(getattr(a, f), getattr(b, f), f"stage: {f}", k) if f in ("energy_usage", "power", "asv_recirculation_loss_mw") else ctx.eqs(getattr(a, f).values, getattr(b, f), f"stage: {f}")
            for f in FLAGS:
                ctx.check([bool(v) for v in getattr(a, f).values] == getattr(b, f), f"stage: {f}")
            ctx.check(a.chart_area_flags == b.chart_area_flags, "stage: area of the chart")
            conditions(a.inlet_stream_condition, b.inlet_stream_condition, "stage inlet", k)
            conditions(a.outlet_stream_condition, b.outlet_stream_condition, "stage outlet", k)
        days = [(p.end - p.start).total_seconds() / 86400 for p in ps]
        total, sums = 0, []
        for x, gr, d in zip(use.power.values, reg[k], days):
            total = total + x * gr * d * 24 / 1000
            sums.append(total)
        ctx.eqs(g.power_cumulative.values, sums, "cumulative power")
        if turbine:
            t = g.turbine_result
            rates(t.load, r.turbine_result.get_energy_result().power.values, "turbine load", k)
            rates(t.fuel_rate, r.turbine_result.get_energy_result().energy_usage.values, "turbine fuel", k)
            ctx.eqs(t.efficiency.values, r.turbine_result.efficiency, "turbine efficiency")
            ctx.check([bool(v) for v in t.exceeds_maximum_load.values] == r.turbine_result.exceeds_maximum_load, "turbine above its maximum load")
            ctx.check([bool(v) for v in t.is_valid.values] == [not v for v in r.turbine_result.exceeds_maximum_load], "turbine valid")
        else:
            ctx.check(g.turbine_result is None, "no turbine")
