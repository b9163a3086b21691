"""C16: the long and short term prognosis exports are sums of the model's results by category."""

from datetime import datetime

from checks.common import reals
from checks.model import GENSET_FILE, consumer, doc, el, fuel, installation, run
from engine.runner import harness

ASSUMPTIONS = ["in the symbolic runs numbers are exported unformatted (formatting is checked by C18); replays use the real formatting"]
OUTSIDE = "more than 2 installations; other calendars than those listed"

D = datetime
GAS, DIESEL = {"co2": 2.5, "nox": 0.75, "nmvoc": 0.25, "ch4": 0.125}, {"co2": 3.0, "nox": 0.5, "ch4": 0.0625}
FUELS = [{"NAME": n, "CATEGORY": c, "EMISSIONS": [{"NAME": e, "FACTOR": f} for e, f in es.items()]}
         for n, c, es in [("gas", "FUEL-GAS", GAS), ("diesel", "DIESEL", DIESEL)]]
FILES = {**GENSET_FILE, "comp.csv": {"RATE": [1.0, 1e6], "FUEL": [100.0, 40000.0], "POWER": [1.0, 9.0]}}
INPUTS = [{"NAME": "comp", "FILE": "comp.csv", "TYPE": "COMPRESSOR_TABULAR"}]


def number(ctx, x):
    return float(x) if isinstance(x, str) else x


class Unformatted:
    """export values as they are"""

    def __init__(self, ctx):
        self.on = ctx.symbolic

    def __enter__(self):
        import libecalc.presentation.exporter.appliers as m

        self.m, self.old = m, m.Numbers
        if self.on:
            m.Numbers = type("N", (), {"format_to_precision": staticmethod(lambda value, precision: value)})

    def __exit__(self, *a):
        self.m.Numbers = self.old


def export(ctx, model, config, freq):
    from libecalc.common.time_utils import Frequency
    from libecalc.presentation.exporter.configs.configs import LTPConfig, STPConfig
    from libecalc.presentation.exporter.infrastructure import ExportableYamlModel

    c = {"LTP": LTPConfig, "STP": STPConfig}[config]
    with Unformatted(ctx):
        groups = c.filter(getattr(Frequency, freq)).filter(ExportableYamlModel(model)).query_results
    return {g.group_name: {q.name: q for q in g.query_results} for g in groups}


CALENDARS = {  # start dates of the periods, end, frequency, expected periods
    "years from uneven periods": ([D(2020, 1, 1), D(2020, 9, 12), D(2021, 1, 1)], D(2022, 1, 1), "YEAR", [D(2020, 1, 1), D(2021, 1, 1), D(2022, 1, 1)]),
    "years, period over new year": ([D(2020, 3, 1), D(2020, 11, 1), D(2021, 5, 1)], D(2022, 1, 1), "YEAR", [D(2020, 3, 1), D(2021, 1, 1), D(2022, 1, 1)]),
    "months": ([D(2020, 1, 1), D(2020, 2, 11), D(2020, 2, 21)], D(2020, 4, 1), "MONTH", [D(2020, 1, 1), D(2020, 2, 1), D(2020, 3, 1), D(2020, 4, 1)]),
    "as is": ([D(2020, 1, 1), D(2020, 2, 11), D(2020, 12, 5)], D(2021, 4, 1), "NONE", None),
}


def days(a, b):
    return (b - a).total_seconds() / 86400


def overlap(p, q):
    return max(0.0, days(max(p[0], q[0]), min(p[1], q[1])))


class Case:
    def __init__(self, ctx, cal, change):
        self.starts, self.end, self.freq, out = CALENDARS[cal]
        cuts = sorted({*self.starts, *([change] if change else [])})
        self.periods = list(zip(cuts, [*cuts[1:], self.end]))
        out = out or [*cuts, self.end]
        self.out = list(zip(out, out[1:]))
        # the input value in force in each period
        self.source = [max(i for i, s in enumerate(self.starts) if s <= p[0]) for p in self.periods]

    def per_period(self, values):
        return [values[i] for i in self.source]

    def total(self, daily):
        """calendar-day rates -> volumes per exported period"""
        return [sum((r * overlap(p, o) for r, p in zip(daily, self.periods) if overlap(p, o)), 0.0) for o in self.out]


def only(case, values, start=None, end=None):
    return [v if (start is None or p[0] >= start) and (end is None or p[0] < end) else 0.0 for v, p in zip(values, case.periods)]


def compare(ctx, got, want, name, unit):
    ctx.same(str(got.unit), unit, f"unit of {name}")
    ctx.check(len(got.values) == len(want), f"{name}: number of periods")
    ctx.eqs([number(ctx, v) for v in got.values.values()], want, name, atol=1e-6)


def check_columns(ctx, result, want, case):
    """want: column -> (unit, daily values)"""
    for name, q in result.items():
        ctx.same([(p.start, p.end) for p in q.values], case.out, f"periods of {name}")
        if name in want:
            unit, daily = want[name]
            compare(ctx, q, case.total(daily), name, unit)
        else:
            ctx.eqs([number(ctx, v) for v in q.values.values()], [0.0] * len(case.out), f"{name} has no contribution", atol=1e-9)
    for name in want:
        ctx.check(name in result, f"{name} is exported")


def add(*xs):
    return [sum(x[1:], x[0]) for x in zip(*xs)]


def scale(k, xs):
    return [k * x for x in xs]


MASS = [("co2", "Co2Mass"), ("nox", "NoxMass"), ("nmvoc", "NmvocMass"), ("ch4", "Ch4Mass")]


def fuel_columns(want, prefix, uses, unit):
    """uses: [(daily rate, emission factors)]"""
    n = len(uses[0][0])
    want[f"{prefix}Consumption"] = (unit, add(*[u for u, _ in uses]))
    for e, col in MASS:
        terms = [scale(f[e] / 1000, u) for u, f in uses if e in f]
        want[prefix + col] = ("t", add(*terms) if terms else [0.0] * n)


@harness("fuel and emissions of 6 fuel consumers by consumer, fuel and installation category, with dated fuels and categories; 4 calendars, any rates", budget_s=45)
def fuels(ctx):
    cal = ctx.choice("calendar", list(CALENDARS))
    change = D(2020, 2, 16) if cal == "months" else D(2020, 10, 7)
    case = Case(ctx, cal, change)
    names = ["FL", "BO", "HE", "EN", "MO", "LO"]
    x = {k: reals(ctx, k.lower(), 3, 0, 1e5) for k in names}
    reg = 0.75
    f = lambda name, cat, ref=None, d="gas": {**consumer(name, fuel(f"SIM;{ref or name}"), cat), "FUEL": d}
    d = doc([
        installation("A", fuel_consumers=[
            f("FL", "FLARE"), f("BO", "BOILER", d={case.starts[0]: "gas", change: "diesel"}),
            f("HE", {case.starts[0]: "HEATER", change: "MISCELLANEOUS"}, d="diesel"), f("EN", "MISCELLANEOUS", d="diesel")],
            genset_consumers=[consumer("LO", el("SIM;LO"))], regularity=reg),
        {**installation("B", fuel_consumers=[f("MO", "MISCELLANEOUS", d={case.starts[0]: "diesel", change: "gas"}), f("MF", "FLARE", "FL")]), "CATEGORY": "MOBILE"},
    ], start=case.starts[0], end=case.end, fuels=FUELS, inputs=INPUTS)
    for v in x["LO"]:
        ctx.assume(ctx.And(v >= 0.01, v <= 9.99))
    model = run(d, columns=x, dates=case.starts, facility=FILES)
    v = {k: case.per_period(x[k]) for k in names}
    A = {k: scale(reg, v[k]) for k in names}
    gs = scale(7000.0, A["LO"])
    got = export(ctx, model, "LTP", case.freq)
    ctx.same(sorted(got), ["A", "B"], "one group per installation")
    want = {}
    fuel_columns(want, "turbineFuelGas", [(gs, GAS)], "Sm3")
    fuel_columns(want, "flareGas", [(A["FL"], GAS)], "Sm3")
    bo_gas, bo_die, he = only(case, A["BO"], end=change), only(case, A["BO"], start=change), only(case, A["HE"], end=change)
    fuel_columns(want, "boilerFuelGas", [(bo_gas, GAS)], "Sm3")
    fuel_columns(want, "boilerDiesel", [(bo_die, DIESEL)], "L")
    fuel_columns(want, "heaterDiesel", [(he, DIESEL)], "L")
    fuel_columns(want, "engineDiesel", [(bo_die, DIESEL), (A["HE"], DIESEL), (A["EN"], DIESEL)], "L")
    want["gasTurbineGeneratorConsumption"] = ("GWh", scale(24 / 1000, A["LO"]))
    check_columns(ctx, got["A"], want, case)
    want = {}
    fuel_columns(want, "engineNoCo2TaxDiesel", [(only(case, v["MO"], end=change), DIESEL)], "L")
    check_columns(ctx, got["B"], want, case)
    # short term prognosis
    got = export(ctx, model, "STP", case.freq)
    gasA, dieA = add(gs, A["FL"], bo_gas), add(bo_die, A["HE"], A["EN"])
    tot = lambda e, g, d: ("t", add(scale(GAS[e] / 1000, g), scale(DIESEL[e] / 1000, d)))
    want = {"co2Emission": tot("co2", gasA, dieA), "methaneEmission": tot("ch4", gasA, dieA), "flare": ("Sm3", A["FL"]),
            "flareGasCo2Mass": ("t", scale(GAS["co2"] / 1000, A["FL"])), "flareGasCh4Mass": ("t", scale(GAS["ch4"] / 1000, A["FL"]))}
    check_columns(ctx, got["A"], want, case)
    want = {"co2FromMobileUnits": tot("co2", add(only(case, v["MO"], start=change), v["FL"]), only(case, v["MO"], end=change))}
    check_columns(ctx, got["B"], want, case)


@harness("electricity by producer and consumer category, cable loss, largest usage from shore, compressor power; dated categories; 4 calendars, any loads", budget_s=45, max_paths=800)
def power(ctx):
    cal = ctx.choice("calendar", list(CALENDARS))
    change = D(2020, 2, 16) if cal == "months" else D(2020, 10, 7)
    case = Case(ctx, cal, change)
    cat = ctx.choice("installation", ["FIXED", "MOBILE"])
    x = {k: reals(ctx, k.lower(), 3, *b) for k, b in {"A": (0, 4), "W": (-4, 0), "CL": (0, 0.5), "MX": (0, 100), "Q": (1, 9e5)}.items()}
    reg = 0.75
    d = doc([{**installation("A", genset_consumers=[consumer("a", el("SIM;A")), consumer("w", el("SIM;W"), {case.starts[0]: "OFFSHORE-WIND", change: "STEAM-TURBINE-GENERATOR"})],
        genset={"CATEGORY": {case.starts[0]: "TURBINE-GENERATOR", change: "POWER-FROM-SHORE"}, "CABLE_LOSS": "SIM;CL", "MAX_USAGE_FROM_SHORE": "SIM;MX"},
        fuel_consumers=[consumer("k", {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "comp", "RATE": "SIM;Q"}, {case.starts[0]: "COMPRESSOR", change: "GAS-DRIVEN-COMPRESSOR"})], regularity=reg),
        "CATEGORY": cat}], start=case.starts[0], end=case.end, fuels=FUELS, inputs=INPUTS)
    second, most = 1.5, 7.0  # another generator set, from shore throughout
    d["INSTALLATIONS"][0]["GENERATORSETS"].append({"NAME": "gs_shore", "ELECTRICITY2FUEL": "genset", "CATEGORY": "POWER-FROM-SHORE", "MAX_USAGE_FROM_SHORE": most,
                                                   "CONSUMERS": [consumer("b", el(str(second)))]})
    for a, w in zip(x["A"], x["W"]):
        ctx.assume(a + w >= 0.01)
    ctx.assume(ctx.And(*[q >= 2 for q in x["Q"]]))
    model = run(d, columns=x, dates=case.starts, facility=FILES)
    v = {k: case.per_period(x[k]) for k in x}
    G = 24 / 1000 * reg
    load = add(v["A"], v["W"])
    stream = scale(1 / reg, v["Q"])  # compressor rates are calendar-day rates
    kw = [1.0 + (q - 1.0) * (8.0 / (1e6 - 1.0)) for q in stream]
    kf = [100.0 + (q - 1.0) * (39900.0 / (1e6 - 1.0)) for q in stream]
    for q in stream:
        ctx.assume(q <= 1e6 - 1)
    shore = lambda xs: only(case, xs, start=change)
    both = [second] * len(load)
    onshore = ("GWh", scale(G, add(shore([l * (1 + c) for l, c in zip(load, v["CL"])]), both)))
    want = {"powerSupplyOnshore": onshore, "fromShoreConsumption": ("GWh", scale(G, add(shore(load), both)))}
    peak = [most + ctx.max(*[m if p[0] >= change else 0.0 for m, p in zip(v["MX"], case.periods) if overlap(p, o)]) if sum(overlap(p, o) > 0 for p in case.periods) > 1
            else most + next(m if p[0] >= change else 0.0 for m, p in zip(v["MX"], case.periods) if overlap(p, o)) for o in case.out]
    fuelgas = [reg * f for f in add(only(case, [7000.0 * l for l in load], end=change), shore(kf))]
    if cat == "FIXED":
        want["gasTurbineGeneratorConsumption"] = ("GWh", scale(G, only(case, load, end=change)))
        want["gasTurbineCompressorConsumption"] = ("GWh", scale(G, shore(kw)))
        want["offshoreWindConsumption"] = ("GWh", scale(-G, only(case, v["W"], end=change)))
        want["steamTurbineGeneratorConsumption"] = ("GWh", scale(-G, shore(v["W"])))
        fuel_columns(want, "turbineFuelGas", [(fuelgas, GAS)], "Sm3")
    result = export(ctx, model, "LTP", case.freq)["A"]
    compare(ctx, result.pop("fromShorePeakMaximum"), peak, "fromShorePeakMaximum", "MW")
    check_columns(ctx, result, want, case)
    result = export(ctx, model, "STP", case.freq)["A"]
    allgas = scale(reg, add([7000.0 * (l + second) for l in load], kf))
    want = {"powerSupplyOnshore": onshore}
    want.update({"co2Emission": ("t", scale(GAS["co2"] / 1000, allgas)), "methaneEmission": ("t", scale(GAS["ch4"] / 1000, allgas))}
                if cat == "FIXED" else {"co2FromMobileUnits": ("t", scale(GAS["co2"] / 1000, allgas))})
    check_columns(ctx, result, want, case)


@harness("venting, storage and loading by category; FIXED or MOBILE; 4 calendars, any rates", budget_s=30)
def venting(ctx):
    cal = ctx.choice("calendar", list(CALENDARS))
    case = Case(ctx, cal, None)
    cat = ctx.choice("installation", ["FIXED", "MOBILE"])
    x = {k: reals(ctx, k.lower(), 3, 0, 1e4) for k in ["V", "S", "L", "C"]}
    reg = 0.5
    emission = lambda n, r, t="STREAM_DAY", u="KG_PER_DAY": {"NAME": n, "RATE": {"VALUE": r, "UNIT": u, "TYPE": t}}
    oil = lambda ref: {"RATE": {"VALUE": ref, "UNIT": "SM3_PER_DAY", "TYPE": "STREAM_DAY"}, "EMISSIONS": [{"NAME": "ch4", "EMISSION_FACTOR": 0.5}, {"NAME": "nmvoc", "EMISSION_FACTOR": 0.25}]}
    d = doc([{**installation("A", venting=[
        {"NAME": "v", "CATEGORY": "COLD-VENTING-FUGITIVE", "TYPE": "DIRECT_EMISSION", "EMISSIONS": [emission("co2", "SIM;V"), emission("ch4", "SIM;C", "CALENDAR_DAY"), emission("nmvoc", "SIM;V {*} 2", u="TONS_PER_DAY")]},
        {"NAME": "s", "CATEGORY": "STORAGE", "TYPE": "OIL_VOLUME", "VOLUME": oil("SIM;S")},
        {"NAME": "l", "CATEGORY": "LOADING", "TYPE": "OIL_VOLUME", "VOLUME": oil("SIM;L")}], regularity=reg), "CATEGORY": cat}],
        start=case.starts[0], end=case.end, fuels=FUELS)
    model = run(d, columns=x, dates=case.starts, facility=GENSET_FILE)
    v = {k: case.per_period(x[k]) for k in x}
    S, L, V, C = scale(reg, v["S"]), scale(reg, v["L"]), scale(reg, v["V"]), v["C"]
    t = lambda xs: ("t", scale(1 / 1000, xs))
    ch4 = add(C, scale(0.5, S), scale(0.5, L))
    if cat == "FIXED":
        want = {"co2VentingMass": t(V), "coldVentAndFugitivesCh4Mass": t(C), "coldVentAndFugitivesNmvocMass": ("t", scale(2.0, V)),
                "storageCh4Mass": t(scale(0.5, S)), "storageNmvocMass": t(scale(0.25, S)), "loadingCh4Mass": t(scale(0.5, L)),
                "loadingNmvocMass": t(scale(0.25, L)), "loadedAndStoredOil": ("Sm3", L)}
        short = {"co2Emission": t(V), "methaneEmission": t(ch4)}
    else:
        want = {"coldVentAndFugitivesNoCo2TaxCh4Mass": t(C), "coldVentAndFugitivesNoCo2TaxNmvocMass": ("t", scale(2.0, V))}
        short = {"co2FromMobileUnits": t(V)}
    check_columns(ctx, export(ctx, model, "LTP", case.freq)["A"], want, case)
    check_columns(ctx, export(ctx, model, "STP", case.freq)["A"], short, case)
