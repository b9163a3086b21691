"""C12: tabulated consumers read their energy usage from the table, and nothing outside it (whole model runs)."""

from checks.c09 import CONDITIONS
from checks.common import reals
from checks.model import GENSET_FILE, Results, consumer, doc, installation, interp, years
from engine.runner import harness

ASSUMPTIONS = ["yearly periods, one CSV with a value per period"]
OUTSIDE = "tables of 3 or more variables; more than 4 rows; more than 3 periods"

XS = [10.0, 20.0, 40.0, 50.0]


def _table(name="tab", header="POWER"):
    return [{"NAME": name, "FILE": f"{name}.csv", "TYPE": "TABULAR"}]


def _model(variables, **k):
    return {"TYPE": "TABULATED", "ENERGYFUNCTION": "tab", "VARIABLES": [{"NAME": n, "EXPRESSION": e} for n, e in variables], **{a.upper(): b for a, b in k.items() if b is not None}}


@harness("one-variable table with any energy values, rows in any of 4 orders, any input; POWER or FUEL; 1-2 periods", budget_s=50, max_paths=3000)
def one_variable(ctx):
    n = ctx.choice("periods", [1, 2])
    ys = reals(ctx, "y", 4, 0, 1e3)
    v = reals(ctx, "v", n, 0, 60)
    reg = reals(ctx, "reg", n, 0, 1)
    kind = ctx.choice("kind", ["POWER", "FUEL"])
    order = ctx.choice("order", [(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (1, 3, 0, 2)])
    c = consumer("t", _model([("PRESSURE", "SIM;V")]))
    inst = installation(genset_consumers=[c], regularity="SIM;REG") if kind == "POWER" else installation(fuel_consumers=[c], regularity="SIM;REG")
    fac = {**GENSET_FILE, "tab.csv": {"PRESSURE": [XS[k] for k in order], kind: [ys[k] for k in order]}}
    r = Results(doc([inst], end=years(n + 1)[-1], inputs=_table()), columns={"V": v, "REG": reg}, dates=years(n), facility=fac)
    t = r["t"]
    for i in range(n):
        inside = ctx.And(v[i] >= 10, v[i] <= 50)
        ok = t.is_valid.values[i]
        ctx.check(ctx.Or(ctx.And(ok, inside), ctx.And(ctx.Not(ok), ctx.Not(inside))), "valid exactly inside the table")
        if inside:
            want = interp(ctx, v[i], XS, ys)
            ctx.eq(t.energy_usage.to_calendar_day().values[i], want * reg[i], "energy usage by linear interpolation in the table (calendar day)")
            if kind == "POWER":
                ctx.eq(t.power.to_calendar_day().values[i], want * reg[i], "power equals the energy usage")
        else:
            ctx.check(ctx.isnan(t.energy_usage.values[i]), "no energy usage outside the table")
    ctx.same(t.energy_usage.unit.value, "MW" if kind == "POWER" else "Sm3/d", "unit of the energy usage")


@harness("variable named RATE (any case) converts to stream day, others do not; power loss; 7 kinds of conditions; 2 periods", budget_s=60, max_paths=3000)
def rate_and_condition(ctx):
    n = 2
    xs, ys = [0.0, 100.0, 1000.0], [0.0, 5.0, 30.0]
    v, reg = reals(ctx, "v", n, 0, 400), reals(ctx, "reg", n, 0.4, 1)
    c, d, loss = reals(ctx, "c", n, -10, 10), reals(ctx, "d", n, -10, 10), reals(ctx, "loss", n, 0, 0.5)
    name = ctx.choice("name", ["RATE", "rate", "Rate", "RATES"])
    lossy = ctx.choice("loss", [None, "SIM;LOSS"])
    extra, on = CONDITIONS[ctx.choice("condition", list(CONDITIONS))]
    m = _model([(name, "SIM;V")], powerlossfactor=lossy, **extra)
    fac = {**GENSET_FILE, "tab.csv": {name: xs, "POWER": ys}}
    r = Results(doc([installation(genset_consumers=[consumer("t", m)], regularity="SIM;REG")], inputs=_table()),
                columns={"V": v, "REG": reg, "C": c, "D": d, "LOSS": loss}, dates=years(n), facility=fac)
    t = r["t"]
    for i in range(n):
        x = ctx.ite(on(ctx, c[i], d[i]), v[i], 0)
        if name.lower() == "rate":
            x = x / reg[i]
        want = interp(ctx, x, xs, ys)
        if lossy:
            want = want / (1 - loss[i])
        ctx.eq(t.power.to_stream_day().values[i], want, "power at the converted, conditioned input, with loss")
        ctx.check(t.is_valid.values[i], "valid inside the table")


@harness("two-variable table (4 corners, planar or bilinear values), variables given in either order; 1-2 periods", budget_s=40, max_paths=1500)
def two_variables(ctx):
    n = ctx.choice("periods", [1, 2])
    a, b = reals(ctx, "a", n, -5, 25), reals(ctx, "b", n, 90, 220)
    k0, ka, kb = ctx.real("k0", 5, 10), ctx.real("ka", 0, 1), ctx.real("kb", 0, 0.1)
    pts = [(0.0, 100.0), (20.0, 100.0), (0.0, 200.0), (20.0, 200.0)]
    swap = ctx.choice("swap", [False, True])
    vs = [("P1", "SIM;A"), ("P2", "SIM;B")]
    fac = {**GENSET_FILE, "tab.csv": {"P1": [p[0] for p in pts], "POWER": [k0 + ka * p[0] + kb * p[1] for p in pts], "P2": [p[1] for p in pts]}}
    r = Results(doc([installation(genset_consumers=[consumer("t", _model(vs[::-1] if swap else vs))])], end=years(n + 1)[-1], inputs=_table()),
                columns={"A": a, "B": b}, dates=years(n), facility=fac)
    t = r["t"]
    for i in range(n):
        inside = ctx.And(a[i] >= 0, a[i] <= 20, b[i] >= 100, b[i] <= 200)
        margin = ctx.Or(a[i] < -0.01, a[i] > 20.01, b[i] < 99.9, b[i] > 200.1)
        ok = t.is_valid.values[i]
        ctx.check(ctx.implies(ctx.And(a[i] > 0.01, a[i] < 19.99, b[i] > 100.1, b[i] < 199.9), ok), "valid inside the table")
        ctx.check(ctx.implies(margin, ctx.Not(ok)), "invalid outside the table")
        if ok:
            ctx.eq(t.power.values[i], k0 + ka * a[i] + kb * b[i], "power by linear interpolation over both variables")


@harness("table and variable declarations: names must match; POWER or FUEL column required; consumer kind must match", budget_s=20)
def rejected(ctx):
    from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
    from libecalc.common.errors.exceptions import IllegalStateException
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    v = reals(ctx, "v", 1, 10, 50)
    case = ctx.choice("case", ["ok", "missing variable", "extra variable", "wrong name", "no energy column", "fuel table on generator set"])
    head = {"ok": "POWER", "no energy column": "ENERGY", "fuel table on generator set": "FUEL"}.get(case, "POWER")
    vs = {"missing variable": [], "extra variable": [("X", "SIM;V"), ("Y", 3)], "wrong name": [("Z", "SIM;V")]}.get(case, [("X", "SIM;V")])
    fac = {**GENSET_FILE, "tab.csv": {"X": XS, head: [1.0, 2.0, 3.0, 4.0]}}
    d = doc([installation(genset_consumers=[consumer("t", _model(vs))])], end=years(2)[-1], inputs=_table())
    try:
        r = Results(d, columns={"V": v}, dates=years(1), facility=fac)
    except (ModelValidationException, EcalcValidationException, IllegalStateException):
        ctx.check(case != "ok", "a correct table is accepted")
        return
    ctx.check(case == "ok", f"rejected: {case}")
    ctx.eq(r["t"].power.values[0], interp(ctx, v[0], XS, [1.0, 2.0, 3.0, 4.0]), "power")
