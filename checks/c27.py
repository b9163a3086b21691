"""C27: simplified compressor trains share the pressure ratio between their stages, follow their generic charts and report their limits."""

import math

from checks.c21 import line
from checks.fluid import constant_efficiency, DENSITY_PER_BAR, STANDARD_DENSITY, fluid_model, patched, service, z_and_kappa
from checks.model import GENSET_FILE, Results, consumer, doc, installation, years
from checks.trains import TO_MASS
from engine.runner import harness

ASSUMPTIONS = ["the gas follows a simple law (density proportional to pressure, enthalpy to temperature; compressibility and heat capacity ratio linear in pressure) instead of NeqSim's"]
OUTSIDE = "NeqSim thermodynamics; trains of more than 4 stages"

GAS_CONSTANT = 8.314472
# the published unified chart at 105 % and 75 % speed
HIGH = [(0.878913798, 1.289869247), (0.929112832, 1.271644457), (0.97269818, 1.247344747), (1.038726745, 1.200770298), (1.099463139, 1.148120922),
        (1.158871891, 1.089396618), (1.231463064, 0.99827269), (1.278951663, 0.913223698), (1.323778851, 0.809949924)]
LOW = [(0.498902665, 0.558852888), (0.529285159, 0.546703033), (0.553058057, 0.5325282), (0.612499498, 0.506203512), (0.667962103, 0.46570399),
       (0.70889013, 0.427229447), (0.730015921, 0.409004665)]


def scaled(pts, rate, head):
    return [(p[0] * rate, p[1] * head) for p in pts]


def head_of(ps, pd, temperature, efficiency):
    """polytropic head with the mean of the gas's properties before and after (Campbell)"""
    (z1, k1), (z2, k2) = z_and_kappa(ps), z_and_kappa(pd)
    z, k = (z1 + z2) / 2, (k1 + k2) / 2
    e = (k - 1) / (k * efficiency)
    return z * GAS_CONSTANT * temperature / 0.016 / e * ((pd / ps) ** e - 1)


class Expected:
    """a stage with a generic chart at a flow and head"""

    def __init__(self, ctx, x, head, high, low):
        r0, h0, r1, h1 = low[0][0], low[0][1], high[0][0], high[0][1]
        smallest = line(ctx, head, [h0, h1], [r0, r1])
        self.smallest = smallest
        self.flow = ctx.ite(x > smallest, x, smallest)
        below = [*low, high[-1]]
        least = line(ctx, self.flow, [p[0] for p in below], [p[1] for p in below])
        self.least = least
        self.head = ctx.ite(least > head, least, head)
        most = line(ctx, self.flow, [p[0] for p in high], [p[1] for p in high])
        self.valid = ctx.And(self.flow <= high[-1][0], self.head <= most)
        self.margin = (self.flow - high[-1][0], (self.head - most))


def largest(head, high, low):
    """largest flow at a head without choking"""
    from bisect import bisect_left

    pts = [low[-1], *reversed(high)]
    hs = [p[1] for p in pts]
    if head <= hs[0]:
        return pts[0][0]
    if head >= hs[-1]:
        return pts[-1][0]
    i = bisect_left(hs, head)
    (xa, ha), (xb, hb) = pts[i - 1], pts[i]
    return xa + (head - ha) / (hb - ha) * (xb - xa)


def design_chart(name, rate, head, efficiency):
    return {"NAME": name, "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": "GENERIC_FROM_DESIGN_POINT", "UNITS": {"RATE": "AM3_PER_HOUR", "HEAD": "KJ_PER_KG", "EFFICIENCY": "FRACTION"},
            "POLYTROPIC_EFFICIENCY": efficiency, "DESIGN_RATE": rate, "DESIGN_HEAD": head / 1000}


FLUID = {"NAME": "fluid", "TYPE": "FLUID", "FLUID_MODEL_TYPE": "COMPOSITION", "COMPOSITION": {"methane": 1.0}}


def simplified_model(ctx, charts, train, columns, usage=None, n=1, regularity=1):
    models = [*charts, FLUID, {"NAME": "train", "TYPE": "SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN", "FLUID_MODEL": "fluid", **train}]
    c = consumer("c", {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "train", "RATE": "SIM;RATE", "SUCTION_PRESSURE": "SIM;PS", "DISCHARGE_PRESSURE": "SIM;PD", **(usage or {})}, category="COMPRESSOR")
    inst = installation(genset_consumers=[c], regularity=regularity)
    with patched(service(varying=True)), constant_efficiency(ctx):
        return Results(doc([inst], models=models, end=years(n + 1)[-1]), columns=columns, dates=years(n), facility=GENSET_FILE)


DESIGNS = [(2600.0, 90000.0, 0.75), (1500.0, 70000.0, 0.7)]
TEMPERATURES = [30.0, 42.0]


def known(ctx, n, ratio):
    ctx.fork_minmax()
    ps = ctx.choice("ps", [20.0, 50.0] if ctx.thorough else [20.0])
    q = ctx.real("rate", 0, 4e6)
    const, factor = ctx.choice("adjustment", [(0.0, 1.0), (0.5, 1.1)])
    pd = ps * ratio
    r = simplified_model(
        ctx, [design_chart(f"chart{i}", *DESIGNS[i]) for i in range(n)],
        {"COMPRESSOR_TRAIN": {"STAGES": [{"INLET_TEMPERATURE": TEMPERATURES[i], "COMPRESSOR_CHART": f"chart{i}"} for i in range(n)]},
         "POWER_ADJUSTMENT_CONSTANT": const, "POWER_ADJUSTMENT_FACTOR": factor, "CALCULATE_MAX_RATE": True},
        {"RATE": [q], "PS": [ps], "PD": [pd]},
    )
    (m,) = r.models
    each = ratio ** (1 / n)
    total, valid, limits = 0.0, True, []
    if q > 0:
        ctx.assume(q > 1.0)
    for i in range(n):
        rate, head, eff = DESIGNS[i]
        high, low = scaled(HIGH, rate, head), scaled(LOW, rate, head)
        p = ps * each**i
        h = head_of(p, p * each, TEMPERATURES[i] + 273.15, eff)
        rho = DENSITY_PER_BAR * p
        limits.append(largest(h, high, low) * rho / TO_MASS)
        if q > 0:
            e = Expected(ctx, q * TO_MASS / rho, h, high, low)
            for v, s in zip(e.margin, (rate, head)):
                ctx.assume(ctx.Or(v < -1e-6 * s, v > 1e-6 * s))
            s = m.stage_results[i]
            ctx.eq(s.inlet_stream_condition.pressure.values[0], p, "suction pressure of the stage", rtol=1e-9)
            ctx.eq(s.outlet_stream_condition.pressure.values[0], p * each, "each stage has its share of the pressure ratio", rtol=1e-9)
            ctx.eq(s.mass_rate_kg_per_hr.values[0], e.flow * rho, "the flow with recirculation", rtol=1e-6)
            ctx.eq(s.polytropic_head_kJ_per_kg.values[0], e.head / 1000, "the head, brought into the chart by choking", rtol=1e-6)
            ctx.eq(s.polytropic_efficiency.values[0], eff, "the chart's efficiency", rtol=1e-9)
            ok = e.valid
            valid = ctx.And(valid, ok)
            power = e.flow * rho * e.head / eff / 3.6e9
            if ok:
                ctx.eq(s.power.values[0], power, "power of the stage", rtol=1e-6)
            ctx.check(s.is_valid.values[0] == bool(ok), "the stage is valid exactly when its flow and head are inside the chart")
            total = total + power
    c = r["c"]
    if q <= 0:
        ctx.eq(c.energy_usage.values[0], 0, "no gas, no power")
        ctx.check(c.is_valid.values[0], "no gas is valid")
    else:
        ctx.check(c.is_valid.values[0] == bool(valid), "valid exactly when every stage is")
        if valid:
            ctx.eq(c.energy_usage.values[0], total * factor + const, "power of the train", rtol=1e-6)
    ctx.eq(m.maximum_rate.values[0], min(limits), "the maximum rate is the smallest of the stages'", rtol=2e-3)


for _n in (1, 2):
    for _r in (1.3, 1.9, 2.6) if _n == 1 else (1.7, 2.4, 4.5):
        _name = f"stages_{_n}_ratio_{str(_r).replace('.', '_')}"
        globals()[_name] = harness(f"a simplified train of {_n} stage(s) with charts from design points, pressure ratio {_r}; every rate, power adjustment", name=_name, budget_s=60)(lambda ctx, n=_n, r=_r: known(ctx, n, r))


def smallest(ratio, limit):
    n = 1
    while ratio > limit**n:
        n += 1
    return n


@harness("a train with unknown stages gets the smallest number of stages with no pressure ratio above the limit; three years, every pressure")
def unknown_stages(ctx):
    limit = ctx.choice("limit", [1.6, 2.4, 3.5])
    years_ = 3 if ctx.thorough else 2
    ctx.log_points([limit**n * (1 + s) for n in range(8) for s in (-1e-8, 0, 1e-8)])
    ps = [10.0, 25.0, 16.0][:years_]
    pd = [ctx.real(f"discharge{i}", 0.2 * p, 30 * p) for i, p in enumerate(ps)]
    ctx.assume(ctx.Or(*[d >= p for d, p in zip(pd, ps)]))
    for d, p in zip(pd, ps):
        for n in range(0, 8):
            ctx.assume(ctx.Or(d < p * limit**n * (1 - 1e-7), d > p * limit**n * (1 + 1e-7)))
    r = simplified_model(ctx, [design_chart("chart", *DESIGNS[0])],
                         {"COMPRESSOR_TRAIN": {"MAXIMUM_PRESSURE_RATIO_PER_STAGE": limit, "INLET_TEMPERATURE": 30, "COMPRESSOR_CHART": "chart"}},
                         {"RATE": [0.0] * years_, "PS": ps, "PD": pd}, n=years_)
    (m,) = r.models
    n = len(m.stage_results)
    ctx.check(n >= 1, "at least one stage")
    ctx.check(ctx.And(*[d <= p * limit**n for d, p in zip(pd, ps)]), "no year needs a higher pressure ratio per stage than the limit")
    if n > 1:
        ctx.check(ctx.Or(*[d > p * limit ** (n - 1) for d, p in zip(pd, ps)]), "no stage more than needed")
    for y in range(years_):
        ctx.eq(r["c"].energy_usage.values[y], 0, "no gas, no power")


EXACT = [(20.0, 115.2, 2.4, 2), (10.0, 129.6, 3.6, 2), (10.0, 14.4, 1.2, 2), (2.0, 250.0, 5.0, 3), (20.0, 48.0, 2.4, 1), (20.0, 20.0, 2.4, 1), (20.0, 48.001, 2.4, 2)]


@harness("a train with unknown stages whose pressure ratio is exactly a power of the limit, or 1; years without gas whose pressures are not given; every rate", budget_s=40)
def exact_stages(ctx):
    ctx.fork_minmax()
    ps, pd, limit, n = ctx.choice("pressures", EXACT)
    idle = ctx.choice("idle", [None, 0, 1])
    q = ctx.real("rate", 1e5, 2e6)
    rows = [(q, ps, pd)]
    if idle is not None:
        rows.insert(idle, (0.0, 0.0, 0.0))
    r = simplified_model(ctx, [design_chart("chart", *DESIGNS[0])],
                         {"COMPRESSOR_TRAIN": {"MAXIMUM_PRESSURE_RATIO_PER_STAGE": limit, "INLET_TEMPERATURE": 30, "COMPRESSOR_CHART": "chart"}},
                         {"RATE": [x[0] for x in rows], "PS": [x[1] for x in rows], "PD": [x[2] for x in rows]}, n=len(rows))
    (m,) = r.models
    ctx.check(len(m.stage_results) == n, "the smallest number of stages")
    y = 1 if idle == 0 else 0
    for i, s in enumerate(m.stage_results):
        ctx.eq(s.inlet_stream_condition.pressure.values[y], ps * (pd / ps) ** (i / n), "pressure into the stage", rtol=1e-9)
        ctx.eq(s.outlet_stream_condition.pressure.values[y], ps * (pd / ps) ** ((i + 1) / n), "each stage has its share", rtol=1e-9)
    if idle is not None:
        ctx.eq(r["c"].energy_usage.values[1 - y], 0, "no gas, no power")
        ctx.check(r["c"].is_valid.values[1 - y], "no gas is valid")


FROM_INPUT = {"NAME": "chart", "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": "GENERIC_FROM_INPUT", "UNITS": {"EFFICIENCY": "FRACTION"}, "POLYTROPIC_EFFICIENCY": 0.75}


CENTRES = [[2e5, 8e5], [1.1e6, 1.4e6], [1.6e6, 2.5e6]]


def from_input(ctx, k):
    ctx.fork_minmax()
    pd2 = ctx.choice("pd2", [80.0, 60.0, 56.0, 52.0, 48.0, 44.0, 40.0, 30.0] if ctx.thorough else [64.0, 44.0, 30.0])
    centre = ctx.choice("centre", [1e5 * j for j in range(k + 1, 31, 3)] if ctx.thorough else CENTRES[k])
    q = ctx.real("rate", centre * 0.995, centre * 1.005)
    rates, ps, pd = [1.5e6, q], [20.0, 20.0], [56.0, pd2]
    r = simplified_model(ctx, [FROM_INPUT], {"COMPRESSOR_TRAIN": {"STAGES": [{"INLET_TEMPERATURE": 30, "COMPRESSOR_CHART": "chart"}]}}, {"RATE": rates, "PS": ps, "PD": pd}, n=2)
    (m,) = r.models
    (s,) = m.stage_results
    for y in range(2):
        ctx.check(r["c"].is_valid.values[y], "every year is within the capacity of the chart made from it")
        rho = DENSITY_PER_BAR * ps[y]
        h = head_of(ps[y], pd[y], 303.15, 0.75)
        ctx.eq(r["c"].energy_usage.values[y], s.mass_rate_kg_per_hr.values[y] * s.polytropic_head_kJ_per_kg.values[y] * 1000 / 0.75 / 3.6e9, "power of the year", rtol=1e-6)
        if pd[y] > 40:
            ctx.eq(s.polytropic_head_kJ_per_kg.values[y], h / 1000, "no choking", rtol=1e-6)
        else:
            ctx.check(s.polytropic_head_kJ_per_kg.values[y] >= h / 1000 * (1 - 1e-9), "choking only lowers the outlet pressure")
        ctx.check(s.mass_rate_kg_per_hr.values[y] >= rates[y] * TO_MASS * (1 - 1e-9), "at least the gas asked for")


for _k in range(3):
    globals()[f"from_input_{_k}"] = harness("charts made from the input: every year is within capacity; two years, rates within 0.5 % of a centre", name=f"from_input_{_k}", budget_s=80)(lambda ctx, k=_k: from_input(ctx, k))
