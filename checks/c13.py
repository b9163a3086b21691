"""C13: pumps need the power given by their chart, head and rate, and say so when they cannot deliver."""

from checks.common import reals
from checks.model import GENSET_FILE, Results, consumer, doc, installation, interp, years
from engine.runner import harness

ASSUMPTIONS = ["heads of a chart curve decrease with rate; minimum flow line slants to the right (higher rate at higher head)"]
OUTSIDE = "charts with more than 2 speed curves / 3 points per curve; efficiency between speed curves of different efficiency (only bounds are checked)"

G = 9.81
# single speed: rates m3/h, heads m
SX, SH = [100.0, 200.0, 300.0], [3000.0, 2500.0, 1500.0]
# variable speed (100 % at the default below)
LX, LH = [50.0, 100.0, 150.0], [800.0, 700.0, 500.0]
HX, HH = [100.0, 200.0, 300.0], [3000.0, 2500.0, 1600.0]


def head_at(ctx, x, xs, hs):
    """clamped"""
    return ctx.ite(x < xs[0], hs[0], ctx.ite(x > xs[-1], hs[-1], interp(ctx, x, xs, hs)))


def single(ctx, q, dp, rho, margin=0.0, xs=SX, hs=SH):
    """q m3/day, dp bar -> (power at 100 % efficiency, valid, operating rate m3/h, operating head J/kg)"""
    req = dp * 1e5 / rho
    rate = ctx.max(q / 24, xs[0])
    curve = head_at(ctx, rate, xs, [h * G for h in hs])
    head = ctx.max(req, curve)
    head = ctx.ite(ctx.And(head > curve, head <= curve + margin * G), curve, head)
    ok = ctx.And(head <= curve + 1e-9, rate <= xs[-1])
    on = q > 0
    return ctx.ite(on, rho * head * rate / 3.6e9, 0.0), ctx.Or(ctx.Not(on), ok), rate, head


def max_rate(ctx, dp, rho, xs=HX, hs=HH):
    req = dp * 1e5 / rho
    hs = [h * G for h in hs]
    return ctx.ite(req > hs[0], xs[0], ctx.ite(req < hs[-1], xs[-1], interp(ctx, req, hs[::-1], xs[::-1])))


def variable(ctx, q, dp, rho):
    req = dp * 1e5 / rho
    lo, hi = LH[0] * G, HH[0] * G
    minflow = ctx.ite(req <= lo, LX[0], ctx.ite(req >= hi, HX[0], LX[0] + (req - lo) * ((HX[0] - LX[0]) / (hi - lo))))
    rate = ctx.max(q / 24, minflow)
    minhead = head_at(ctx, rate, LX + [HX[-1]], [h * G for h in LH + [HH[-1]]])
    maxhead = head_at(ctx, rate, HX, [h * G for h in HH])
    head = ctx.max(req, minhead)
    ok = ctx.And(head <= maxhead + 1e-9, rate <= HX[-1])
    on = q > 0
    return ctx.ite(on, rho * head * rate / 3.6e9, 0.0), ctx.Or(ctx.Not(on), ok), rate, head, minhead, maxhead


def same_bool(ctx, got, want, label):
    ctx.check(ctx.Or(ctx.And(got, want), ctx.And(ctx.Not(got), ctx.Not(want))), label)


def chart(kind, eff=100):
    if kind == "single":
        return {"RATE": SX, "HEAD": SH, "EFFICIENCY": [eff] * 3}
    return {"SPEED": [1000.0] * 3 + [3000.0] * 3, "RATE": LX + HX, "HEAD": LH + HH, "EFFICIENCY": [eff] * 6}


def pump_input(kind, name="pc", margin=None, units=None):
    d = {"NAME": name, "FILE": f"{name}.csv", "TYPE": "PUMP_CHART_SINGLE_SPEED" if kind == "single" else "PUMP_CHART_VARIABLE_SPEED"}
    if margin is not None:
        d["HEAD_MARGIN"] = margin
    if units:
        d["UNITS"] = units
    return d


def pump(**k):
    return {"TYPE": "PUMP", "ENERGYFUNCTION": "pc", "RATE": "SIM;Q", "SUCTION_PRESSURE": "SIM;PS", "DISCHARGE_PRESSURE": "SIM;PD", "FLUID_DENSITY": 1000, **{a.upper(): b for a, b in k.items() if b is not None}}


@harness("single speed pump in a whole model: any rate, pressures, regularity, density; head margin; head units m and J/kg; 1 period", budget_s=60, max_paths=3000)
def single_speed(ctx):
    q, ps, pd, reg = ctx.real("q", 0, 9000), ctx.real("ps", 1, 50), ctx.real("pd", 1, 400), ctx.real("reg", 0.1, 1)
    ctx.assume(pd >= ps)
    rho = ctx.choice("rho", [1000.0, 850.0])
    margin = ctx.choice("margin", [None, 20.0])
    unit = ctx.choice("unit", ["M", "KJ_PER_KG", "JOULE_PER_KG"])
    k = {"M": 1, "KJ_PER_KG": G / 1000, "JOULE_PER_KG": G}[unit]
    eff = ctx.choice("eff", [1.0, 0.75])
    ch = {"RATE": SX, "HEAD": [h * k for h in SH], "EFFICIENCY": [eff] * 3}
    d = doc([installation(genset_consumers=[consumer("p", pump(fluid_density=rho))], regularity="SIM;REG")], end=years(2)[-1],
            inputs=[pump_input("single", margin=margin, units={"HEAD": unit, "RATE": "AM3_PER_HOUR", "EFFICIENCY": "FRACTION"})])
    r = Results(d, columns={"Q": [q], "PS": [ps], "PD": [pd], "REG": [reg]}, dates=years(1), facility={**GENSET_FILE, "pc.csv": ch})
    p = r["p"]
    power, ok, _, _ = single(ctx, q / reg, pd - ps, rho, margin or 0.0)
    # the boundary of the margin is exact only up to rounding
    curve = head_at(ctx, ctx.max(q / reg / 24, SX[0]), SX, [h * G for h in SH])
    edge = ctx.Or(ctx.abs((pd - ps) * 1e5 / rho - curve - (margin or 0) * G) < 1e-3, ctx.abs(q / reg / 24 - SX[-1]) < 1e-5)
    if edge:
        return
    got = p.is_valid.values[0]
    same_bool(ctx, got, ok, "valid exactly inside the chart")
    if got:
        ctx.eq(p.power.to_stream_day().values[0] * eff, power, "pump power")
    m = r.models[0]
    ctx.eq(m.inlet_liquid_rate_m3_per_day.values[0], q / reg, "stream-day rate of the pump")
    ctx.eq(m.inlet_pressure_bar.values[0], ps, "inlet pressure of the pump")
    ctx.eq(m.outlet_pressure_bar.values[0], pd, "outlet pressure of the pump")


@harness("variable speed pump in a whole model: any rate, pressures, density; condition; power loss; 2 periods", budget_s=60, max_paths=3000)
def variable_speed(ctx):
    n = 2
    q, pd = reals(ctx, "q", n, 0, 9000), reals(ctx, "pd", n, 10, 400)
    rho, c, loss = reals(ctx, "rho", n, 800, 1100), reals(ctx, "c", n, -1, 1), reals(ctx, "loss", n, 0, 0.5)
    cond = ctx.choice("condition", [None, "SIM;C > 0"])
    lossy = ctx.choice("loss", [None, "SIM;LOSS"])
    d = doc([installation(genset_consumers=[consumer("p", pump(suction_pressure=10, fluid_density="SIM;RHO", condition=cond, powerlossfactor=lossy))])], end=years(n + 1)[-1],
            inputs=[pump_input("variable")])
    r = Results(d, columns={"Q": q, "PD": pd, "RHO": rho, "C": c, "LOSS": loss}, dates=years(n), facility={**GENSET_FILE, "pc.csv": chart("variable")})
    p = r["p"]
    for i in range(n):
        qi = ctx.ite(c[i] > 0, q[i], 0) if cond else q[i]
        power, ok, rate, head, _, maxhead = variable(ctx, qi, pd[i] - 10, rho[i])
        if ctx.And(qi > 0, ctx.Or(ctx.abs(head - maxhead) < 1e-3, ctx.abs(rate - HX[-1]) < 1e-5)):
            continue
        got = p.is_valid.values[i]
        same_bool(ctx, got, ok, "valid exactly inside the chart")
        if got:
            ctx.eq(p.power.values[i] * ((1 - loss[i]) if lossy else 1), power, "pump power")


@harness("dated pump models (single speed, then variable speed) with regularity; 3 periods", budget_s=40, max_paths=1500)
def dated(ctx):
    n = 3
    dates = years(n)
    q, reg = reals(ctx, "q", n, 0, 6000), reals(ctx, "reg", n, 0.5, 1)
    when = ctx.choice("when", [1, 2])
    m = {dates[0]: pump(discharge_pressure=100, suction_pressure=10), dates[when]: pump(energyfunction="pv", discharge_pressure=150, suction_pressure=10)}
    d = doc([installation(genset_consumers=[consumer("p", m)], regularity="SIM;REG")], end=years(n + 1)[-1], inputs=[pump_input("single"), pump_input("variable", "pv")])
    r = Results(d, columns={"Q": q, "REG": reg}, dates=dates, facility={**GENSET_FILE, "pc.csv": chart("single"), "pv.csv": chart("variable")})
    p = r["p"]
    for i in range(n):
        qs = q[i] / reg[i]
        power, ok = (single(ctx, qs, 90.0, 1000.0) if i < when else variable(ctx, qs, 140.0, 1000.0))[:2]
        if ctx.abs(qs / 24 - 300) < 1e-5:
            continue
        got = p.is_valid.values[i]
        same_bool(ctx, got, ok, "valid by the chart in force")
        if got:
            ctx.eq(p.power.to_calendar_day().values[i], power * reg[i], "power by the chart in force")
    ctx.same(len(r.models), 2, "one model result per definition")
    for k, (a, b) in enumerate([(0, when), (when, n)]):
        rate = r.models[k].inlet_liquid_rate_m3_per_day
        ctx.same([x.start.year for x in r.models[k].periods], [x.year for x in dates[a:b]], "periods of the model result")
        ctx.eqs(rate.to_stream_day().values, [q[i] / reg[i] for i in range(a, b)], "rate of the model result")
        ctx.eqs(rate.to_calendar_day().values, q[a:b], "calendar-day rate of the model result")


@harness("single speed pump with efficiency varying over the curve: any rate up to the maximum, choked or not", budget_s=60)
def efficiency_along_curve(ctx):
    from libecalc.domain.process.pump.pump import PumpModel
    from libecalc.domain.process.value_objects.chart import ChartCurve
    from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData

    effs = [0.5, 0.8, 0.7]
    c = ChartCurve(rate_actual_m3_hour=SX, polytropic_head_joule_per_kg=[h * G for h in SH], efficiency_fraction=effs, speed_rpm=1)
    m = PumpModel(UserDefinedChartData([c], control_margin=None))
    q = ctx.real("q", 0, 300)
    dp = ctx.real("dp", 0, 140)
    power, head, status = m.simulate(rate=q * 24, suction_pressure=5, discharge_pressure=5 + dp, fluid_density=1000)
    if q == 0:
        ctx.eq(power, 0, "a pump at rest needs no power")
        return
    rate = ctx.max(q, 100)
    ctx.check(status.value == "NO_FAILURE", "valid below the curve")
    ctx.eq(power * interp(ctx, rate, SX, effs), 1000 * interp(ctx, rate, SX, [h * G for h in SH]) * rate / 3.6e9, "power with the efficiency of the operating point")


@harness("pump of the process domain, single or variable speed: operating point, recirculation, choking, failure status, maximum rate", budget_s=60, max_paths=2000)
def process_pump(ctx):
    from libecalc.domain.process.value_objects.chart import ChartCurve
    from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData
    from libecalc.process.pump.liquid_stream import LiquidStream
    from libecalc.process.pump.pump import Pump
    from libecalc.process.pump.pump_process_simulation import PumpOperatingInput, PumpProcessSimulation

    kind = ctx.choice("kind", ["single", "variable"])
    eff = ctx.choice("eff", [1.0, 0.8])
    minflow = ctx.choice("minflow", [None, 120.0])
    mk = lambda x, h, s: ChartCurve(rate_actual_m3_hour=x, polytropic_head_joule_per_kg=[v * G for v in h], efficiency_fraction=[eff] * 3, speed_rpm=s)
    curves = [mk(SX, SH, 1)] if kind == "single" else [mk(HX, HH, 3000), mk(LX, LH, 1000)]
    pmp = Pump(UserDefinedChartData(curves, control_margin=None), minimum_flow_rate_m3_per_hour=minflow)
    q, ps, pd = ctx.real("q", 0, 9000), ctx.real("ps", 1, 20), ctx.real("pd", 1, 400)
    ctx.assume(pd >= ps)
    rho = 1000.0
    s = LiquidStream.from_volumetric_rate(q, ps, rho)
    ctx.eq(s.volumetric_rate_m3_per_day, q, "volumetric rate round trip")
    sim = PumpProcessSimulation(pmp)
    out = sim.evaluate([PumpOperatingInput(s, pd)])[0]
    r = out.pump_result
    req = (pd - ps) * 1e5 / rho
    ctx.eq(r.required_head_joule_per_kg, req, "required head")
    if q == 0:
        ctx.eq(r.shaft_power_mw, 0, "no power at rest")
        ctx.check(r.is_valid, "valid at rest")
        ctx.eq(r.operational_discharge_pressure_bara, ps, "no pressure rise at rest")
        return
    qq = ctx.max(q / 24, minflow or 0.0) * 24
    if kind == "single":
        _, _, rate, head = single(ctx, qq, pd - ps, rho)
        maxhead = head_at(ctx, rate, SX, [h * G for h in SH])
    else:
        _, _, rate, head, _, maxhead = variable(ctx, qq, pd - ps, rho)
    ctx.eq(r.operational_volumetric_rate_m3_per_hour, rate, "operating rate raised to the minimum flow")
    ctx.eq(r.recirculation_rate_m3_per_hour, rate - q / 24, "recirculation makes up the difference")
    ctx.eq(r.operational_head_joule_per_kg, head, "operating head raised to the minimum head")
    ctx.eq(r.shaft_power_mw * eff, rho * head * rate / 3.6e9, "shaft power")
    ctx.eq(r.operational_discharge_pressure_bara, ps + head * rho / 1e5, "operational discharge pressure")
    ctx.eq(r.choke_pressure_drop_bara, ctx.max(0, ps + head * rho / 1e5 - pd), "choke drops the excess pressure")
    if ctx.abs(head - maxhead) > 1e-3 if kind == "variable" else ctx.Or(ctx.abs(req - maxhead) > 1e-3):
        hi_head, hi_rate = head > maxhead + 1e-6, rate > 300
        want = "ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE" if ctx.And(hi_head, hi_rate) else "ABOVE_MAXIMUM_HEAD_AT_RATE" if hi_head else "ABOVE_MAXIMUM_PUMP_RATE" if hi_rate else "NO_FAILURE"
        ctx.same(r.failure_status.value, want, "failure status")
    streams = [out.connection_streams[c.get_id()] for c in sim.get_process_unit_connections()]
    ctx.eqs([x.volumetric_rate_m3_per_hour for x in streams], [q / 24, rate, rate, q / 24, q / 24], "mass balance over the recirculation")
    od = ps + head * rho / 1e5
    ctx.eqs([x.pressure_bara for x in streams], [ps, ps, od, od, ctx.min(od, pd)], "pressures along the pump")
    if kind == "variable":
        low, high = head_at(ctx, rate, LX, [h * G for h in LH]), head_at(ctx, rate, HX, [h * G for h in HH])
        want = ctx.ite(head <= low, 1000.0, ctx.ite(head >= high, 3000.0, 1000 + (head - low) / ctx.ite(high > low, high - low, 1) * 2000))
        ctx.eq(r.speed_rpm, want, "speed by interpolation between the curves")
    ctx.eq(pmp.get_max_volumetric_rate_m3_per_day(ps, pd, rho), max_rate(ctx, pd - ps, rho, *((SX, SH) if kind == "single" else (HX, HH))) * 24, "maximum rate at head")


@harness("pressures of a pump: non-positive or decreasing pressures are rejected while pumping, ignored while not", budget_s=20, max_paths=1000)
def pressures(ctx):
    from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    n = 2
    q, ps, pd = reals(ctx, "q", n, 0, 5000), reals(ctx, "ps", n, -5, 50), reals(ctx, "pd", n, -5, 100)
    d = doc([installation(genset_consumers=[consumer("p", pump())])], end=years(n + 1)[-1], inputs=[pump_input("single")])
    bad = ctx.Or(*[ctx.And(q[i] > 0, ctx.Or(ps[i] <= 0, pd[i] <= 0, ps[i] > pd[i])) for i in range(n)])
    try:
        Results(d, columns={"Q": q, "PS": ps, "PD": pd}, dates=years(n), facility={**GENSET_FILE, "pc.csv": chart("single")})
    except (ModelValidationException, EcalcValidationException):
        ctx.check(bad, "only impossible pressures are rejected")
        return
    ctx.check(ctx.Not(bad), "impossible pressures are rejected")
