"""C15: what is reported for an installation and the asset is the sum (and the validity the conjunction) of its parts."""

from checks.common import reals
from checks.model import GENSET_FILE, GENSET_X, GENSET_Y, Results, consumer, doc, el, fuel, installation, interp, years
from engine.runner import harness

ASSUMPTIONS = ["regularity is greater than 0"]
OUTSIDE = "more than 2 installations, 3 periods; compressor trains as consumers"

DAYS = {2020: 366, 2021: 365, 2022: 365}
# fuel driven sampled compressor with shaft power
CR, CF, CP = [1e5, 1e6, 2e6], [10000.0, 40000.0, 60000.0], [2.0, 10.0, 14.0]
FILES = {**GENSET_FILE, "comp.csv": {"RATE": CR, "FUEL": CF, "POWER": CP}, "comp2.csv": {"RATE": CR, "FUEL": CF}}
INPUTS = [{"NAME": "comp", "FILE": "comp.csv", "TYPE": "COMPRESSOR_TABULAR"}, {"NAME": "comp2", "FILE": "comp2.csv", "TYPE": "COMPRESSOR_TABULAR"},
          {"NAME": "tab", "FILE": "tab.csv", "TYPE": "TABULAR"}]
TX, TF = [0.0, 10.0, 20.0], [1.0, 5.0, 6.0]
FILES["tab.csv"] = {"RATE": TX, "POWER": TF}


def compressor(ctx, q):
    """fuel, power below the largest tabulated rate"""
    on = q > 0
    x = ctx.max(q, CR[0])
    return ctx.ite(on, interp(ctx, x, CR, CF), 0.0), ctx.ite(on, interp(ctx, x, CR, CP), 0.0)


def cumulative(ctx, daily, factor=1.0):
    out, total = [], 0.0
    for y, v in zip(DAYS, daily):
        total = total + v * (DAYS[y] * factor)
        out.append(total)
    return out


def running(ctx, *rates):
    """a compressor rate is zero, or large enough to be told from zero"""
    for q in rates:
        ctx.assume(ctx.Or(q == 0, q >= 1))


def comp_model(ref="comp", q="SIM;Q"):
    return {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": ref, "RATE": q}


@harness("two installations with electrical and mechanical power, fuel and export, each with its own regularity: any values; 2 periods", budget_s=100, max_paths=1500)
def totals(ctx):
    n = 2
    a, b, c = reals(ctx, "a", n, 0, 15), reals(ctx, "b", n, 0, 15), reals(ctx, "c", n, 0, 30)
    q, f = reals(ctx, "q", n, 0, 9e5), reals(ctx, "f", n, 0, 50000)
    running(ctx, *q)
    ha, hb = reals(ctx, "ha", n, 0, 1e7), reals(ctx, "hb", n, 0, 1e7)
    ra, rb = reals(ctx, "ra", n, 0.5, 1), reals(ctx, "rb", n, 0.5, 1)
    if ctx.choice("varied", ["loads", "regularity"]) == "loads":
        ra, rb = [1.0, 0.5], [0.75, 1.0]
    else:
        a, b, c, q, f = [2.0, 0.0], [1.0, 14.0], [0.0, 25.0], [4e5, 9e5], [100.0, 0.0]
    where = ctx.choice("mechanical", ["A", "B"])  # the installation with the compressor
    cons = {"A": [consumer("f1", fuel("SIM;F"))], "B": []}
    cons[where].append(consumer("k", comp_model(), category="COMPRESSOR"))
    d = doc([
        installation("A", genset_consumers=[consumer("a", el("SIM;A")), consumer("b", el("SIM;B"))], fuel_consumers=cons["A"], regularity="SIM;RA", hcexport="SIM;HA"),
        installation("B", genset_consumers=[consumer("c", el("SIM;C"))], fuel_consumers=cons["B"] or None, regularity="SIM;RB", hcexport="SIM;HB"),
    ], end=years(n + 1)[-1], inputs=INPUTS)
    r = Results(d, columns={"A": a, "B": b, "C": c, "Q": q, "F": f, "HA": ha, "HB": hb, "RA": ra, "RB": rb}, dates=years(n), facility=FILES)
    A, B, asset = r["A"], r["B"], r.asset
    rw = ra if where == "A" else rb
    ea = [(x + y) for x, y in zip(a, b)]
    comp = [compressor(ctx, x / y) for x, y in zip(q, rw)]
    mech = [x[1] for x in comp]
    # stream day electrical and mechanical power
    ctx.eqs(A.power_electrical.to_stream_day().values, ea, "electrical power of A")
    ctx.eqs(B.power_electrical.to_stream_day().values, c, "electrical power of B")
    W = r[where]
    other = B if where == "A" else A
    ctx.eqs(W.power_mechanical.to_stream_day().values, mech, "mechanical power")
    ctx.check(other.power_mechanical is None, "no mechanical power without mechanical consumers")
    ctx.eqs(W.power.to_stream_day().values, [x + y for x, y in zip(ea if where == "A" else c, mech)], "power of the installation with both")
    ctx.eqs(other.power.to_stream_day().values, c if where == "A" else ea, "power of the installation with electrical only")
    cal = lambda xs, rs: [x * y for x, y in zip(xs, rs)]
    add = lambda *ls: [sum(x) for x in zip(*ls)]
    el_cal = add(cal(ea, ra), cal(c, rb))
    ctx.eqs(asset.power_electrical.to_calendar_day().values, el_cal, "electrical power of the asset")
    ctx.eqs(asset.power_mechanical.to_calendar_day().values, cal(mech, rw), "mechanical power of the asset")
    ctx.eqs(asset.power.to_calendar_day().values, add(el_cal, cal(mech, rw)), "power of the asset")
    gwh = 24 / 1000
    ctx.eqs(asset.power_cumulative.values, cumulative(ctx, add(el_cal, cal(mech, rw)), gwh), "cumulative power of the asset [GWh]")
    ctx.eqs(asset.power_electrical_cumulative.values, cumulative(ctx, el_cal, gwh), "cumulative electrical power of the asset [GWh]")
    ctx.eqs(asset.power_mechanical_cumulative.values, cumulative(ctx, cal(mech, rw), gwh), "cumulative mechanical power of the asset [GWh]")
    ctx.eqs(A.power_electrical_cumulative.values, cumulative(ctx, cal(ea, ra), gwh), "cumulative electrical power of A [GWh]")
    ctx.eqs(W.power_mechanical_cumulative.values, cumulative(ctx, cal(mech, rw), gwh), "cumulative mechanical power [GWh]")
    ctx.eqs(r["a"].power_cumulative.values, cumulative(ctx, cal(a, ra), gwh), "cumulative power of a consumer [GWh]")
    ctx.eqs(r["k"].power.to_stream_day().values, mech, "power of the compressor")
    # fuel
    ga = cal([interp(ctx, x, GENSET_X, GENSET_Y) for x in ea], ra)
    gb = cal([interp(ctx, x, GENSET_X, GENSET_Y) for x in c], rb)
    k = cal([x[0] for x in comp], rw)
    f1 = cal(f, ra)  # stream-day rate unless given otherwise
    ctx.eqs(r["k"].energy_usage.to_calendar_day().values, k, "fuel of the compressor")
    fa = add(ga, f1, k) if where == "A" else add(ga, f1)
    fb = add(gb, k) if where == "B" else gb
    ctx.eqs(A.energy_usage.to_calendar_day().values, fa, "fuel of A")
    ctx.eqs(B.energy_usage.to_calendar_day().values, fb, "fuel of B")
    ctx.eqs(asset.energy_usage.to_calendar_day().values, add(fa, fb), "fuel of the asset")
    ctx.eqs(asset.energy_usage_cumulative.values, cumulative(ctx, add(fa, fb)), "cumulative fuel of the asset")
    ctx.eqs(A.energy_usage_cumulative.values, cumulative(ctx, fa), "cumulative fuel of A")
    ctx.eqs(r["gs_B"].energy_usage_cumulative.values, cumulative(ctx, gb), "cumulative fuel of a generator set")
    ctx.eqs(r["gs_A"].power_cumulative.values, cumulative(ctx, cal(ea, ra), gwh), "cumulative power of a generator set [GWh]")
    ctx.eqs(asset.emissions["co2"].rate.to_calendar_day().values, [2.5 / 1000 * x for x in add(fa, fb)], "emissions of the asset")
    ctx.eqs(asset.emissions["co2"].cumulative.values, cumulative(ctx, [2.5 / 1000 * x for x in add(fa, fb)]), "cumulative emissions of the asset")
    # export and regularity
    ctx.eqs(A.hydrocarbon_export_rate.to_calendar_day().values, ha, "hydrocarbon export of A")
    ctx.eqs(asset.hydrocarbon_export_rate.to_calendar_day().values, add(ha, hb), "hydrocarbon export of the asset")
    ctx.eqs(A.regularity.values, ra, "regularity of A")
    ctx.eqs(B.regularity.values, rb, "regularity of B")


@harness("validity of consumers, generator sets, installations and the asset: any loads, tabulated rates; 2 periods", budget_s=60, max_paths=2500)
def validity(ctx):
    n = 2
    a, t, c = reals(ctx, "a", n, 0, 50), reals(ctx, "t", n, -10, 30), reals(ctx, "c", n, 0, 50)
    if not ctx.thorough:  # quick: one period with any values beside one with given values
        j = ctx.choice("given", [0, 1])
        ctx.assume(ctx.And(a[j] == 30, t[j] == 10, c[j] == 45))
    f = [0.0, 5.0]
    tab = {"TYPE": "TABULATED", "ENERGYFUNCTION": "tab", "VARIABLES": [{"NAME": "RATE", "EXPRESSION": "SIM;T"}]}
    vent = [{"NAME": "v", "CATEGORY": "STORAGE", "TYPE": "DIRECT_EMISSION", "EMISSIONS": [{"NAME": "ch4", "RATE": {"VALUE": 4}}]}]
    d = doc([
        installation("A", genset_consumers=[consumer("a", el("SIM;A")), consumer("t", tab)], fuel_consumers=[consumer("f", fuel("SIM;F"))]),
        installation("B", genset_consumers=[consumer("c", el("SIM;C"))], venting=vent),
        installation("C", venting=[{**vent[0], "NAME": "w"}]),
    ], end=years(n + 1)[-1], inputs=INPUTS)
    r = Results(d, columns={"A": a, "T": t, "F": f, "C": c}, dates=years(n), facility=FILES)
    from checks.c13 import same_bool

    for i in range(n):
        tok = ctx.And(t[i] >= TX[0], t[i] <= TX[-1])
        demand = a[i] + ctx.ite(tok, interp(ctx, t[i], TX, TF), 0.0)
        ga, gb, fok = demand <= 40, c[i] <= 40, True
        v = lambda name: r[name].is_valid.values[i]
        same_bool(ctx, v("t"), tok, "tabulated consumer valid inside its table")
        ctx.check(v("f"), "a direct fuel rate is valid")
        ctx.check(v("a"), "a load is valid")
        same_bool(ctx, v("gs_A"), ga, "generator set valid within capacity")
        same_bool(ctx, v("gs_B"), gb, "generator set valid within capacity")
        ctx.check(v("v"), "venting is valid")
        same_bool(ctx, v("A"), ctx.And(tok, fok, ga), "installation valid when all its parts are")
        same_bool(ctx, v("B"), gb, "installation valid when all its parts are")
        ctx.check(v("C"), "venting installation is valid")
        same_bool(ctx, r.asset.is_valid.values[i], ctx.And(tok, fok, ga, gb), "asset valid when all its parts are")


@harness("fuel-driven compressor without shaft power beside one with: any rates; 1-2 periods, dated", budget_s=40, max_paths=800)
def partial_power(ctx):
    n = 2
    q, p = reals(ctx, "q", n, 0, 1.9e6), reals(ctx, "p", n, 0, 1.9e6)
    running(ctx, *q, *p)
    d = doc([installation("A", fuel_consumers=[consumer("k", comp_model()), consumer("m", comp_model("comp2", "SIM;P"))])], end=years(n + 1)[-1], inputs=INPUTS)
    r = Results(d, columns={"Q": q, "P": p}, dates=years(n), facility=FILES)
    k, m = [compressor(ctx, x) for x in q], [compressor(ctx, x) for x in p]
    ctx.eqs(r["k"].energy_usage.to_calendar_day().values, [x[0] for x in k], "fuel of the compressor with shaft power")
    ctx.eqs(r["m"].energy_usage.to_calendar_day().values, [x[0] for x in m], "fuel of the compressor without shaft power")
    ctx.check(r["m"].power is None, "no power when the table has none")
    ctx.eqs(r.asset.power_mechanical.to_stream_day().values, [x[1] for x in k], "mechanical power of the asset")
    ctx.eqs(r.asset.energy_usage.to_calendar_day().values, [x[0] + y[0] for x, y in zip(k, m)], "fuel of the asset")
    ctx.check(r.asset.power_electrical is None, "no electrical power without electrical consumers")
