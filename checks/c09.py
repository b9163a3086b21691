"""C09: conditions, regularity, rate type and power loss are applied to consumers as documented (whole model runs)."""

from checks.common import reals
from checks.model import GENSET_FILE, Results, consumer, doc, el, fuel, installation, years
from engine.runner import harness

ASSUMPTIONS = ["inputs come from one CSV with a value per period, yearly periods"]
OUTSIDE = "more than 2-3 periods; conditions on compressors/pumps are covered at mapping level only"

CONDITIONS = {
    "none": ({}, lambda ctx, c, d: True),
    "compare": ({"condition": "SIM;C > 2"}, lambda ctx, c, d: c > 2),
    "value": ({"condition": "SIM;C"}, lambda ctx, c, d: c != 0),
    "zero": ({"condition": 0}, lambda ctx, c, d: False),
    "one": ({"condition": 1}, lambda ctx, c, d: True),
    "list": ({"conditions": ["SIM;C > 2", "SIM;D <= 1"]}, lambda ctx, c, d: ctx.And(c > 2, d <= 1)),
    "list1": ({"conditions": ["SIM;D {+} 1 < SIM;C"]}, lambda ctx, c, d: d + 1 < c),
}
RATE_TYPES = [None, "STREAM_DAY", "CALENDAR_DAY"]


def _columns(ctx, n=2):
    return {
        "REG": reals(ctx, "reg", n, 0, 1),
        "LOAD": reals(ctx, "load", n, -5, 30),
        "FUEL": reals(ctx, "fuel", n, 0, 1e5),
        "C": reals(ctx, "c", n, -10, 10),
        "D": reals(ctx, "d", n, -10, 10),
        "PLF": reals(ctx, "plf", n, 0, 0.5),
    }


def _stream(ctx, x, reg, rate_type):
    return ctx.ite(reg != 0, x / ctx.ite(reg != 0, reg, 1), 0.0) if rate_type == "CALENDAR_DAY" else x


def _bool(ctx, x):
    return x


@harness("direct electricity consumer: 7 kinds of condition x 3 rate types x 3 power loss factors; 2 periods, symbolic regularity/load/condition inputs", budget_s=60, max_paths=3000)
def direct_electricity(ctx):
    col = _columns(ctx)
    kind = ctx.choice("condition", list(CONDITIONS))
    rt = ctx.choice("rate_type", RATE_TYPES)
    plf = ctx.choice("plf", [None, 0.1, "SIM;PLF"])
    extra, on = CONDITIONS[kind]
    d = doc([installation(genset_consumers=[consumer("x", el(consumption_rate_type=rt, powerlossfactor=plf, **extra))], regularity="SIM;REG")])
    r = Results(d, columns=col, dates=years(2), facility=GENSET_FILE)["x"]
    for i in range(2):
        raw = ctx.ite(on(ctx, col["C"][i], col["D"][i]), col["LOAD"][i], 0.0)
        want = _stream(ctx, raw, col["REG"][i], rt)
        loss = {None: 0.0, 0.1: 0.1}.get(plf, col["PLF"][i])
        ctx.eq(r.power.values[i] * (1 - loss), want, "power of a direct electricity consumer (stream day)")
        ctx.eq(r.power.to_calendar_day().values[i] * (1 - loss), want * col["REG"][i], "power of a direct electricity consumer (calendar day)")
        ctx.check(r.is_valid.values[i], "a direct electricity consumer is valid")
    ctx.check(r.energy_usage.values == r.power.values, "energy usage of an electricity consumer is its power")


@harness("direct fuel consumer: 7 kinds of condition x 3 rate types; 2 periods, symbolic regularity/rate/condition inputs", budget_s=40, max_paths=2000)
def direct_fuel(ctx):
    col = _columns(ctx)
    kind = ctx.choice("condition", list(CONDITIONS))
    rt = ctx.choice("rate_type", RATE_TYPES)
    extra, on = CONDITIONS[kind]
    d = doc([installation(fuel_consumers=[consumer("x", fuel(consumption_rate_type=rt, **extra), "FLARE")], regularity="SIM;REG")])
    r = Results(d, columns=col, dates=years(2), facility=GENSET_FILE)["x"]
    for i in range(2):
        want = ctx.ite(on(ctx, col["C"][i], col["D"][i]), col["FUEL"][i], 0.0)
        want = _stream(ctx, want, col["REG"][i], rt)
        ctx.eq(r.energy_usage.values[i], want * col["REG"][i], "fuel rate of a direct fuel consumer (calendar day)")
        ctx.eq(r.energy_usage.to_stream_day().values[i], ctx.ite(col["REG"][i] != 0, want, 0.0), "fuel rate of a direct fuel consumer (stream day)")
        ctx.check(r.is_valid.values[i], "a direct fuel consumer is valid")


@harness("negative fuel rate, masked or not by the condition; 2 periods", budget_s=20)
def negative_fuel_rate(ctx):
    col = _columns(ctx)
    col["FUEL"] = reals(ctx, "fuel_", 2, -100, 100)
    masked = ctx.choice("masked", [False, True])
    d = doc([installation(fuel_consumers=[consumer("x", fuel(condition="SIM;C > 2" if masked else None), "FLARE")], regularity="SIM;REG")])
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException
    from libecalc.common.errors.ecalc_validation_error import EcalcValidationException

    bad = ctx.Or(*[ctx.And(f < 0, c > 2) if masked else f < 0 for f, c in zip(col["FUEL"], col["C"])])
    try:
        Results(d, columns=col, dates=years(2), facility=GENSET_FILE)
        rejected = False
    except (ModelValidationException, EcalcValidationException):
        rejected = True
    ctx.check(bad if rejected else ctx.Not(bad), "a negative fuel rate is rejected unless switched off")


@harness("REGULARITY as number (0, 0.9, default), series and dated expressions; values outside [0,1] rejected; 3 periods", budget_s=40, max_paths=2000)
def regularity(ctx):
    from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    n = 3
    dates = years(n)
    reg, oil, load = reals(ctx, "reg", n, -0.5, 1.5), reals(ctx, "oil", n, 0, 1e5), reals(ctx, "load", n, 0, 30)
    kind = ctx.choice("kind", ["default", 0, 0.9, "series", "dated"])
    spec = {"default": None, "series": "SIM;REG", "dated": {dates[0]: "SIM;REG", dates[2]: 0.25}}.get(kind, kind)
    want = {"default": [1.0] * n, 0: [0.0] * n, 0.9: [0.9] * n, "series": reg, "dated": [reg[0], reg[1], 0.25]}[kind]
    k = {} if spec is None else {"regularity": spec}
    hc = ctx.choice("hc", ["SIM;OIL", None, 7, "dated"])
    if hc is not None:
        k["hcexport"] = {dates[0]: "SIM;OIL", dates[1]: "SIM;OIL {*} 3"} if hc == "dated" else hc
    d = doc([installation(fuel_consumers=[consumer("x", fuel("SIM;LOAD"))], **k)], end=years(n + 1)[-1])
    bad = ctx.Or(*[ctx.Or(w < 0, w > 1) for w in want])
    try:
        r = Results(d, columns={"REG": reg, "OIL": oil, "LOAD": load}, dates=dates, facility=GENSET_FILE)
        rejected = False
    except (ModelValidationException, EcalcValidationException):
        rejected = True
    ctx.check(bad if rejected else ctx.Not(bad), "regularity outside [0,1] is rejected, inside is accepted")
    if rejected:
        return
    ctx.eqs(r["A"].regularity.values, want, "regularity in force")
    wanthc = {"SIM;OIL": oil, None: [0.0] * n, 7: [7.0] * n, "dated": [oil[0], oil[1] * 3, oil[2] * 3]}[hc]
    ctx.eqs(r["A"].hydrocarbon_export_rate.values, wanthc, "hydrocarbon export rate")
    ctx.eqs(r["A"].hydrocarbon_export_rate.to_stream_day().to_calendar_day().values, [ctx.ite(w != 0, h, 0.0) for w, h in zip(want, wanthc)], "export is per calendar day with this regularity")
    ctx.eqs(r["x"].energy_usage.to_calendar_day().values, [w * x for w, x in zip(want, load)], "regularity applies to the consumers")


@harness("dated energy usage models: definitions from 2 dates (first possibly before or after the start); 3 periods", budget_s=40)
def dated_models(ctx):
    n = 3
    dates = years(n)
    load, reg, c = reals(ctx, "load", n, 0, 10), reals(ctx, "reg", n, 0, 1), reals(ctx, "c", n, -10, 10)
    starts = [years(1, 2018)[0], *dates]
    a = ctx.choice("a", [0, 1, 2])
    b = ctx.choice("b", [k for k in (1, 2, 3) if k > a])
    m1 = el(consumption_rate_type="CALENDAR_DAY")
    m2 = el("SIM;LOAD {*} 2", condition="SIM;C > 2", powerlossfactor=0.2)
    d = doc([installation(genset_consumers=[consumer("x", {starts[a]: m1, starts[b]: m2}), consumer("y", el())], regularity="SIM;REG")], end=years(n + 1)[-1])
    r = Results(d, columns={"REG": reg, "LOAD": load, "C": c}, dates=dates, facility=GENSET_FILE)
    for i in range(n):
        if i + 1 >= b:
            want = ctx.ite(c[i] > 2, load[i] * 2, 0.0)
            ctx.eq(r["x"].power.values[i] * 0.8, want, "the definition in force applies")
        elif i + 1 >= a or a == 0:
            ctx.eq(r["x"].power.values[i], _stream(ctx, load[i], reg[i], "CALENDAR_DAY"), "the definition in force applies")
        else:
            ctx.eq(r["x"].power.values[i], 0.0, "no consumption before the first definition")
        ctx.eq(r["gs_A"].power.values[i], r["x"].power.values[i] + load[i], "generator set power is the sum")
