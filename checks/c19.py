"""C19: comparing two models gives, at every instant both cover, the changed model's value less the reference's."""

from datetime import datetime

from checks.common import reals
from engine.runner import harness

ASSUMPTIONS = []
OUTSIDE = "other components than an asset, an installation, a fuel consumer and a compressor; more than 4 periods"

D = lambda y, m=1, d=1: datetime(y, m, d)  # noqa: E731
CALENDARS = {
    "years": [D(2020), D(2021), D(2022), D(2023)],
    "later": [D(2021), D(2022), D(2023), D(2024)],
    "irregular": [D(2019, 6), D(2020, 3, 7), D(2021), D(2022, 2)],
    "one": [D(2020), D(2023)],
    "inside": [D(2021, 3), D(2021, 9), D(2022, 4)],
    "touching": [D(2023), D(2024)],
}


def component(ctx, who, name, kind, dates, emissions, power):
    from libecalc.common.time_utils import Periods
    from libecalc.presentation.simple_result.simple import SimpleComponentResult, SimpleEmissionResult

    n = len(dates) - 1
    valid = [ctx.choice(f"{who}ok{i}", [1, 0]) if i == n - 1 and name == "x" else 1 for i in range(n)]
    return SimpleComponentResult(
        componentType=kind, component_level="CONSUMER", parent="p", name=name,
        periods=Periods.create_periods(dates, include_before=False, include_after=False),
        is_valid=valid,
        energy_usage=reals(ctx, f"{who}{name}e", n, -1e6, 1e6), energy_usage_unit="Sm3/d",
        power=reals(ctx, f"{who}{name}p", n, -1e3, 1e3) if power else None,
        emissions={k: SimpleEmissionResult(name=k, rate=reals(ctx, f"{who}{name}{k}", n, 0, 1e4)) for k in emissions},
    )


def at(dates, values, t):
    for s, e, v in zip(dates, dates[1:], values):
        if s <= t < e:
            return v
    raise KeyError(t)


@harness("two models with 2 of 3 components each, 2 emissions: any values; 12 pairs of calendars", budget_s=60, max_paths=8000)
def delta(ctx):
    from libecalc.common.errors.exceptions import EcalcError
    from libecalc.common.time_utils import Periods
    from libecalc.presentation.simple_result.simple import SimpleResultData

    ca, cb = ctx.choice("calendars", [
        ("years", "years"), ("years", "later"), ("later", "years"), ("years", "irregular"), ("irregular", "years"), ("years", "one"), ("one", "irregular"),
        ("inside", "one"), ("irregular", "inside"), ("inside", "years"), ("years", "touching"), ("touching", "years"),
    ])
    names = ctx.choice("components", [("x", "x"), ("x", "y"), ("xy", "yx"), ("xy", "y")])
    em = ctx.choice("emissions", [(("co2",), ("co2",)), (("co2",), ("co2", "ch4")), (("ch4", "co2"), ("nox", "co2"))])
    power = ctx.choice("power", [True, False])
    KIND = {"x": "COMPRESSOR", "y": "GENERIC"}
    dates = {"r": CALENDARS[ca], "c": CALENDARS[cb]}
    models, parts = {}, {}
    for who, ns, es in (("r", names[0], em[0]), ("c", names[1], em[1])):
        parts[who] = {n: component(ctx, who, n, KIND[n], dates[who], es, power) for n in ns}
        models[who] = SimpleResultData(periods=Periods.create_periods(dates[who], include_before=False, include_after=False), components=list(parts[who].values()))
    lo, hi = max(dates["r"][0], dates["c"][0]), min(dates["r"][-1], dates["c"][-1])
    original = {who: {n: (list(p.energy_usage), [q.start for q in p.periods]) for n, p in parts[who].items()} for who in parts}
    try:
        changed, reference, diff, errors = SimpleResultData.delta_profile(reference_model=models["r"], changed_model=models["c"])
    except EcalcError:
        ctx.check(lo >= hi, "models that overlap can be compared")
        return
    ctx.check(lo < hi, "models that do not overlap are rejected")
    ctx.check(errors == [], "no errors", errors)
    cuts = sorted({t for d in dates.values() for t in d if lo <= t <= hi})
    ctx.check([p.start for p in diff.periods] == cuts[:-1] and [p.end for p in diff.periods] == cuts[1:], "the periods are those of both models within the common time")
    ids = sorted(set(names[0]) | set(names[1]))
    got = {c.name: c for c in diff.components}
    ctx.check(sorted(c.name for c in diff.components) == ids, "every component of either model, once")
    if sorted(got) != ids:
        return
    emissions = sorted(set(em[0]) | set(em[1]))
    for n in ids:
        ctx.check(got[n].periods == diff.periods, "periods of the component")
        here = {who for who in parts if n in parts[who]}
        expected = sorted({e for who, es in (("r", em[0]), ("c", em[1])) if who in here for e in es})
        ctx.check(sorted(got[n].emissions) == expected, "every emission of either component", sorted(got[n].emissions))
        ctx.check(len(got[n].energy_usage) == len(cuts) - 1, "a value for each period")
        for i, t in enumerate(cuts[:-1]):
            def value(who, f):
                return at(dates[who], f(parts[who][n]), t) if n in parts[who] else 0.0

            ctx.eq(got[n].energy_usage[i], value("c", lambda p: p.energy_usage) - value("r", lambda p: p.energy_usage), "energy usage: changed less reference")
            if power:
                ctx.eq(got[n].power[i], value("c", lambda p: p.power) - value("r", lambda p: p.power), "power: changed less reference")
            for e in expected:
                rate = lambda who: value(who, lambda p: p.emissions[e].rate if e in em["rc".index(who)] else [0.0] * (len(dates[who]) - 1))
                ctx.eq(got[n].emissions[e].rate[i], rate("c") - rate("r"), "emissions: changed less reference")
            ok = all(at(dates[who], parts[who][n].is_valid, t) for who in here)
            ctx.check(bool(got[n].is_valid[i]) == ok, "valid when both are")
            for m, who in ((changed, "c"), (reference, "r")):
                c = next(c for c in m.components if c.name == n)
                ctx.eq(c.energy_usage[i], value(who, lambda p: p.energy_usage), "the compared models keep their values")
    for who in parts:
        for n, (e, starts) in original[who].items():
            ctx.check([q.start for q in parts[who][n].periods] == starts and len(parts[who][n].energy_usage) == len(e), "the models compared are not changed")
