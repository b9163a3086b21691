"""C11: emissions follow from fuel burnt and from the venting emitters' own definitions (whole model runs)."""

from checks.c09 import CONDITIONS, RATE_TYPES, _stream
from checks.common import reals
from checks.model import GENSET_FILE, Results, consumer, doc, el, fuel, installation, interp, years, GENSET_X, GENSET_Y
from engine.runner import harness

ASSUMPTIONS = ["yearly periods, one CSV with a value per period"]
OUTSIDE = "more than 3 emissions per fuel/emitter, more than 3 periods"


@harness("fuel emissions: number, series and expression factors, 2 fuels by date and per consumer override; 3 periods", budget_s=60, max_paths=2500)
def fuel_emissions(ctx):
    n = 3
    dates = years(n)
    f, reg, k = reals(ctx, "f", n, 0, 1e5), reals(ctx, "reg", n, 0, 1), reals(ctx, "k", n, 0, 10)
    fuels = [
        {"NAME": "gas", "EMISSIONS": [{"NAME": "co2", "FACTOR": 2.5}, {"NAME": "ch4", "FACTOR": "SIM;K"}]},
        {"NAME": "diesel", "EMISSIONS": [{"NAME": "co2", "FACTOR": "SIM;K {*} 2 {+} 1"}, {"NAME": "nox", "FACTOR": 0}]},
    ]
    kind = ctx.choice("kind", ["gas", "diesel", "dated", "dated_early"])
    spec = {"gas": "gas", "diesel": "diesel", "dated": {dates[0]: "gas", dates[1]: "diesel"}, "dated_early": {years(1, 2015)[0]: "diesel", dates[2]: "gas"}}[kind]
    which = {"gas": "ggg", "diesel": "ddd", "dated": "gdd", "dated_early": "ddg"}[kind]
    override = ctx.choice("override", [False, True])
    c = consumer("x", fuel("SIM;F"), "FLARE")
    inst = installation(fuel_consumers=[c], regularity="SIM;REG")
    if override:
        c["FUEL"] = spec
        inst["FUEL"] = "gas"
    else:
        inst["FUEL"] = spec
    d = doc([inst], end=years(n + 1)[-1], fuels=fuels)
    r = Results(d, columns={"F": f, "REG": reg, "K": k}, dates=dates, facility=GENSET_FILE)
    x = r["x"]
    names = {"g": ["co2", "ch4"], "d": ["co2", "nox"]}
    ctx.same(sorted(x.emissions), sorted({m for w in which for m in names[w]}), "emissions reported")
    factor = {("g", "co2"): lambda i: 2.5, ("g", "ch4"): lambda i: k[i], ("d", "co2"): lambda i: k[i] * 2 + 1}
    ndays = [366, 365, 365]
    for name, e in x.emissions.items():
        total = 0
        for i in range(n):
            want = f[i] * factor.get((which[i], name), lambda i: 0)(i) / 1000
            ctx.eq(e.rate.to_calendar_day().values[i], want * reg[i], "emission is fuel times the factor in force (calendar day)")
            ctx.eq(e.rate.to_stream_day().values[i], ctx.ite(reg[i] != 0, want, 0), "emission is fuel times the factor in force (stream day)")
            total = total + want * reg[i] * ndays[i]
            ctx.eq(e.cumulative.values[i], total, "cumulative emission")
        ctx.same((e.rate.unit.value, e.cumulative.unit.value), ("t/d", "t"), "emission units")


@harness("venting emitter with direct emissions (3 emissions, 2 of the same name): unit x rate type x condition; 2 periods", budget_s=60, max_paths=2500)
def direct_venting(ctx):
    n = 2
    v, w, reg, c, dd = reals(ctx, "v", n, 0, 1e4), reals(ctx, "w", n, 0, 1e4), reals(ctx, "reg", n, 0, 1), reals(ctx, "c", n, -10, 10), reals(ctx, "d", n, -10, 10)
    unit = ctx.choice("unit", [None, "KG_PER_DAY", "TONS_PER_DAY"])
    rt = ctx.choice("rate_type", RATE_TYPES)
    kind = ctx.choice("condition", list(CONDITIONS))
    extra, on = CONDITIONS[kind]
    rate = {"VALUE": "SIM;V", **{k.upper(): x for k, x in extra.items()}}
    if unit:
        rate["UNIT"] = unit
    if rt:
        rate["TYPE"] = rt
    em = [{"NAME": "CH4", "RATE": rate}, {"NAME": "co2", "RATE": {"VALUE": "SIM;W {*} 2"}}, {"NAME": "co2", "RATE": {"VALUE": 3, "UNIT": "TONS_PER_DAY"}}]
    vent = {"NAME": "vent", "CATEGORY": "COLD-VENTING-FUGITIVE", "TYPE": "DIRECT_EMISSION", "EMISSIONS": em}
    d = doc([installation(fuel_consumers=[consumer("x", fuel(5), "FLARE")], venting=[vent], regularity="SIM;REG")])
    r = Results(d, columns={"V": v, "W": w, "REG": reg, "C": c, "D": dd}, dates=years(n), facility=GENSET_FILE)
    e = r["vent"].emissions
    for i in range(n):
        raw = ctx.ite(on(ctx, c[i], dd[i]), v[i], 0) * (1 if unit == "TONS_PER_DAY" else 0.001)
        want = _stream(ctx, raw, reg[i], rt)
        ctx.eq(e["ch4"].rate.to_calendar_day().values[i], want * reg[i], "vented emission in tonnes per calendar day")
        ctx.eq(e["co2"].rate.to_calendar_day().values[i], (w[i] * 2 / 1000 + 3) * reg[i], "emissions of the same name add up")
        inst = r["A"].emissions
        ctx.eq(inst["co2"].rate.to_calendar_day().values[i], (w[i] * 2 / 1000 + 3 + 5 * 2.5 / 1000) * reg[i], "installation emission is the sum of fuel and venting")
        ctx.eq(inst["ch4"].rate.to_calendar_day().values[i], want * reg[i], "installation emission of a vented component")


@harness("venting emitter by oil volume: rate type x condition, factor number or expression, 3 emissions, 2 of the same name; 2 periods", budget_s=60, max_paths=2500)
def oil_venting(ctx):
    n = 2
    o, k, reg, c, dd = reals(ctx, "o", n, 0, 1e5), reals(ctx, "k", n, 0, 10), reals(ctx, "reg", n, 0, 1), reals(ctx, "c", n, -10, 10), reals(ctx, "d", n, -10, 10)
    rt = ctx.choice("rate_type", RATE_TYPES)
    kind = ctx.choice("condition", list(CONDITIONS))
    extra, on = CONDITIONS[kind]
    rate = {"VALUE": "SIM;O {*} 0.5", "UNIT": "SM3_PER_DAY", **{a.upper(): x for a, x in extra.items()}}
    if rt:
        rate["TYPE"] = rt
    vent = {"NAME": "vent", "CATEGORY": "STORAGE", "TYPE": "OIL_VOLUME", "VOLUME": {"RATE": rate, "EMISSIONS": [{"NAME": "ch4", "EMISSION_FACTOR": "SIM;K {+} 1"}, {"NAME": "nmvoc", "EMISSION_FACTOR": 0.25}, {"NAME": "nmvoc", "EMISSION_FACTOR": "SIM;K"}]}}
    d = doc([installation(fuel_consumers=[consumer("x", fuel(5), "FLARE")], venting=[vent], regularity="SIM;REG")])
    r = Results(d, columns={"O": o, "K": k, "REG": reg, "C": c, "D": dd}, dates=years(n), facility=GENSET_FILE)
    e = r["vent"].emissions
    store = r.model.get_installations()[0].get_storage_containers()
    ctx.same(len(store), 1, "one storage container")
    rates = store[0].get_storage_rates()
    for i in range(n):
        oil = _stream(ctx, ctx.ite(on(ctx, c[i], dd[i]), o[i] * 0.5, 0), reg[i], rt)
        ctx.eq(e["ch4"].rate.to_calendar_day().values[i], oil * (k[i] + 1) / 1000 * reg[i], "emission is oil volume times factor")
        ctx.eq(e["nmvoc"].rate.to_calendar_day().values[i], oil * (0.25 + k[i]) / 1000 * reg[i], "emissions of the same name add up")
        ctx.eq(rates.to_calendar_day().values[i], oil * reg[i], "storage rate is the oil volume")


@harness("emissions of a generator set and two fuel consumers with different fuels add up per installation and asset; 2 installations with different regularity; 2 periods", budget_s=60, max_paths=2500)
def totals(ctx):
    n = 2
    l = reals(ctx, "l", n, 0.01, 9)
    f, g = reals(ctx, "f", n, 0, 1e5), reals(ctx, "g", n, 0, 1e5)
    r1, r2 = reals(ctx, "r1", n, 0, 1), reals(ctx, "r2", n, 0, 1)
    fuels = [{"NAME": "gas", "EMISSIONS": [{"NAME": "co2", "FACTOR": 2.5}]}, {"NAME": "diesel", "EMISSIONS": [{"NAME": "co2", "FACTOR": 3}, {"NAME": "nox", "FACTOR": 1}]}]
    a = installation("A", genset_consumers=[consumer("e", el("SIM;L"))], fuel_consumers=[consumer("f", fuel("SIM;F"), "FLARE")], regularity="SIM;R1")
    b = installation("B", fuel_consumers=[consumer("g", fuel("SIM;G"), "FLARE")], regularity="SIM;R2")
    b["FUEL"] = "diesel"
    r = Results(doc([a, b], fuels=fuels), columns={"L": l, "F": f, "G": g, "R1": r1, "R2": r2}, dates=years(n), facility=GENSET_FILE)
    for i in range(n):
        burnt = (l[i] * 7000 + f[i]) * r1[i]
        ctx.eq(r["A"].emissions["co2"].rate.to_calendar_day().values[i], burnt * 2.5 / 1000, "installation emission is the sum of its emitters")
        ctx.eq(r.asset.emissions["co2"].rate.to_calendar_day().values[i], burnt * 2.5 / 1000 + g[i] * r2[i] * 3 / 1000, "asset emission is the sum over installations")
        ctx.eq(r.asset.emissions["nox"].rate.to_calendar_day().values[i], g[i] * r2[i] / 1000, "emission present on one installation only")
        ctx.eq(r["A"].energy_usage.to_calendar_day().values[i], burnt, "installation fuel")
        ctx.eq(r.asset.energy_usage.to_calendar_day().values[i], burnt + g[i] * r2[i], "asset fuel")
    ctx.same(sorted(r["A"].emissions), ["co2"], "emissions of the installation")
