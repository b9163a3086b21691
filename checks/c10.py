"""C10: generator sets deliver the power their consumers need, burning fuel by the tabulated curve (whole model runs)."""

from checks.common import reals
from checks.model import GENSET_FILE, GENSET_X, GENSET_Y, Results, consumer, doc, el, installation, interp, years
from engine.runner import harness

ASSUMPTIONS = ["yearly periods, one CSV with a value per period", "concrete electricity-to-fuel curves (4 and 3 points)"]
OUTSIDE = "more than 3 consumers per generator set, more than 3 periods"

X2, Y2 = [5.0, 15.0, 25.0], [30000.0, 90000.0, 100000.0]


def _fuel(ctx, p, xs=GENSET_X, ys=GENSET_Y):
    inside = interp(ctx, p, xs, ys)
    f = ctx.ite(p > xs[-1], max(ys), ctx.ite(p < xs[0], min(ys), inside))
    return ctx.ite(p > 0, f, 0.0)


@harness("generator set with 1-3 direct consumers, any load in [-5,30] MW each, any regularity; 2 periods", budget_s=60, max_paths=3000)
def power_and_fuel(ctx):
    n = 2
    k = ctx.choice("consumers", [1, 2, 3])
    loads = [reals(ctx, f"l{j}_", n, -5, 30) for j in range(k)]
    reg = reals(ctx, "reg", n, 0, 1)
    d = doc([installation(genset_consumers=[consumer(f"c{j}", el(f"SIM;L{j}")) for j in range(k)], regularity="SIM;REG")], end=years(n + 1)[-1])
    r = Results(d, columns={"REG": reg, **{f"L{j}": v for j, v in enumerate(loads)}}, dates=years(n), facility=GENSET_FILE)
    g = r["gs_A"]
    for i in range(n):
        p = sum(v[i] for v in loads)
        ctx.eq(g.power.values[i], p, "generator set power is the sum of its consumers")
        f = _fuel(ctx, p)
        ctx.eq(g.energy_usage.to_stream_day().values[i], ctx.ite(reg[i] != 0, f, 0.0), "fuel by the tabulated curve (stream day)")
        ctx.eq(g.energy_usage.to_calendar_day().values[i], f * reg[i], "fuel by the tabulated curve (calendar day)")
        ctx.eq(g.power_capacity_margin.values[i], 40.0 - p, "capacity margin")
        ok = g.is_valid.values[i]
        ctx.check(ok if not ctx.symbolic and p <= 40 else ctx.Or(ctx.And(ok, p <= 40), ctx.And(ctx.Not(ok), p > 40)), "valid exactly when within capacity")
        ctx.eq(g.emissions["co2"].rate.to_calendar_day().values[i], f * reg[i] * 2.5 / 1000, "emission from the fuel burnt")


@harness("dated generator set models (two curves), first definition before the start or at a period; 2 consumers; 3 periods", budget_s=60, max_paths=3000)
def dated_curves(ctx):
    n = 3
    dates = years(n)
    a = ctx.choice("a", [0, 1])
    b = ctx.choice("b", [k for k in (1, 2) if k > a])
    starts = [years(1, 2018)[0], *dates[1:]]
    l = reals(ctx, "l", n, 0, 30)
    d = doc(
        [installation(genset_consumers=[consumer("x", el("SIM;L")), consumer("y", el(4))], genset={"ELECTRICITY2FUEL": {starts[a]: "genset", starts[b]: "genset2"}})],
        end=years(n + 1)[-1], inputs=[{"NAME": "genset2", "FILE": "genset2.csv", "TYPE": "ELECTRICITY2FUEL"}],
    )
    r = Results(d, columns={"L": l}, dates=dates, facility={**GENSET_FILE, "genset2.csv": {"POWER": X2, "FUEL": Y2}})
    g = r["gs_A"]
    for i in range(n):
        p = l[i] + 4
        cap = 25.0 if i >= b else 40.0
        if i < a:
            ctx.check(ctx.Not(g.is_valid.values[i]), "a period without a generator set model is invalid")
            continue
        f = _fuel(ctx, p, X2, Y2) if i >= b else _fuel(ctx, p)
        ctx.eq(g.energy_usage.values[i], f, "fuel by the curve in force")
        ctx.eq(g.power_capacity_margin.values[i], cap - p, "capacity margin of the model in force")
        ok = g.is_valid.values[i]
        ctx.check(ctx.Or(ctx.And(ok, p <= cap), ctx.And(ctx.Not(ok), p > cap)), "valid exactly when within the capacity in force")


@harness("any fuel values on the curve (3 points, rows in any order), any load; 1 period", budget_s=40)
def any_curve(ctx):
    from itertools import permutations

    p = ctx.real("l", -5, 60)
    ys = reals(ctx, "y", 3, 0, 1e5)
    order = ctx.choice("order", list(permutations(range(3))))
    xs = [10.0, 20.0, 35.0]
    d = doc([installation(genset_consumers=[consumer("x", el("SIM;L"))])], end=years(2)[-1])
    r = Results(d, columns={"L": [p]}, dates=years(1), facility={"genset.csv": {"FUEL": [ys[k] for k in order], "POWER": [xs[k] for k in order]}})
    want = interp(ctx, p, xs, ys)
    g = r["gs_A"].energy_usage.values[0]
    ctx.eq(g, ctx.ite(p <= 0, 0.0, ctx.ite(p < 10, ctx.min(*ys), ctx.ite(p > 35, ctx.max(*ys), want))), "fuel by linear interpolation in the table, its extremes outside")
    ctx.eq(r["gs_A"].power_capacity_margin.values[0], 35 - p, "capacity margin")


@harness("power from shore: cable loss and maximum usage, category constant or changing; 2 periods", budget_s=40)
def power_from_shore(ctx):
    n = 2
    dates = years(n)
    l, loss, mx, reg = reals(ctx, "l", n, 0, 30), reals(ctx, "loss", n, 0, 0.3), reals(ctx, "mx", n, 0, 50), reals(ctx, "reg", n, 0, 1)
    cat = ctx.choice("category", ["POWER-FROM-SHORE", "changing", "back"])
    pfs = {"POWER-FROM-SHORE": [True, True], "changing": [False, True], "back": [True, False]}[cat]
    name = {True: "POWER-FROM-SHORE", False: "TURBINE-GENERATOR"}
    spec = {"CATEGORY": name[pfs[0]] if pfs[0] == pfs[1] else {dates[0]: name[pfs[0]], dates[1]: name[pfs[1]]}, "CABLE_LOSS": "SIM;LOSS", "MAX_USAGE_FROM_SHORE": "SIM;MX"}
    d = doc([installation(genset_consumers=[consumer("x", el("SIM;L"))], genset=spec, regularity="SIM;REG")], end=years(n + 1)[-1])
    r = Results(d, columns={"L": l, "LOSS": loss, "MX": mx, "REG": reg}, dates=dates, facility=GENSET_FILE)
    prod = r.model.get_installations()[0].get_electricity_producers()
    ctx.same(len(prod), 1, "one electricity producer")
    got = prod[0].get_power_production()
    ctx.eqs(got.to_stream_day().values, [x * (1 + (q if s else 0)) for x, q, s in zip(l, loss, pfs)] if got.rate_type.value == "STREAM_DAY" else got.to_stream_day().values, "power production includes the cable loss when from shore")
    ctx.eqs(got.to_calendar_day().values, [x * (1 + (q if s else 0)) * w for x, q, s, w in zip(l, loss, pfs, reg)], "power production per calendar day")
    mxs = prod[0].get_maximum_power_production()
    ctx.eqs(mxs.values, mx, "maximum usage from shore")
    ctx.eqs(r["gs_A"].power.values, l, "power requirement is not affected by the cable loss")
