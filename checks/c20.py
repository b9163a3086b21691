"""C20: compressor charts are read with their units, whatever the order of curves and points; a control margin cuts away the left of each curve."""

from checks.common import reals
from checks.model import interp
from engine.runner import harness

ASSUMPTIONS = [
    "scipy.interpolate.interp1d and numpy array operations are re-implemented over symbolic values and cross-checked by witness replay",
]
OUTSIDE = "charts with other numbers of points than stated; the search for the design point of a chart that is generated from input (GENERIC_FROM_INPUT); pump charts (C13)"

RATES = {7000.25: [1000.0, 2000.0, 2800.0], 9000.0: [1500.0, 2000.0, 3400.0], 10000.4: [1800.0, 3000.0, 3900.0, 4100.0]}
ORDERS = {3: [(0, 1, 2), (2, 1, 0), (1, 2, 0)], 4: [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2)]}


def sym_curve(ctx, speed, name=""):
    """heads falling with the rate, efficiencies in (0, 1]"""
    n = len(RATES[speed])
    hs = reals(ctx, f"h{name}_{int(speed)}_", n, 1000, 200000)
    es = reals(ctx, f"e{name}_{int(speed)}_", n, 0.1, 1)
    for a, b in zip(hs[:-1], hs[1:]):
        ctx.assume(a >= b + 1)
    return hs, es


def pick(xs, order):
    return [xs[i] for i in order]


@harness("1-3 curves of 3-4 points in 3 curve orders and 3 point orders; symbolic heads, efficiencies, control margin in [0, 0.99] or absent; one symbolic reading point", budget_s=60, max_paths=3000)
def control_margin(ctx):
    from libecalc.domain.process.value_objects.chart import ChartCurve
    from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData

    speeds = ctx.choice("speeds", [(7000.25,), (10000.4,), (9000.0, 10000.4, 7000.25), (10000.4, 7000.25)])
    k = ctx.choice("order", [0, 1, 2])
    m = ctx.choice("margin given", [True, False])
    m = ctx.real("margin", 0, 0.99) if m else None
    data = {s: sym_curve(ctx, s) for s in speeds}
    curves = []
    for s in speeds:
        o = ORDERS[len(RATES[s])][k]
        curves.append(ChartCurve(speed_rpm=s, rate_actual_m3_hour=pick(RATES[s], o), polytropic_head_joule_per_kg=pick(data[s][0], o), efficiency_fraction=pick(data[s][1], o)))
    chart = UserDefinedChartData(curves=curves, control_margin=m)
    orig, adj = chart.get_original_curves(), chart.get_adjusted_curves()
    ctx.same([c.speed for c in adj], sorted(speeds), "adjusted curves in the order of their speeds")
    ctx.same([c.speed for c in orig], sorted(speeds), "original curves in the order of their speeds")
    for c, a in zip(orig, adj):
        s = c.speed
        xs, (hs, es) = RATES[s], data[s]
        ctx.eqs(c.rate, xs, "original rates kept, sorted")
        ctx.eqs(c.head, hs, "original heads kept, sorted with their rates")
        ctx.eqs(c.efficiency, es, "original efficiencies kept, sorted with their rates")
        lo = xs[0] + (m if m is not None else 0) * (xs[-1] - xs[0])
        ctx.eq(a.minimum_rate, lo, "the control margin is that fraction of the rate range of the curve")
        ctx.eq(a.maximum_rate, xs[-1], "the largest rate is kept")
        ctx.eq(a.head[-1], hs[-1], "head at the largest rate kept")
        ctx.eq(a.efficiency[-1], es[-1], "efficiency at the largest rate kept")
        for lo_, hi_ in zip(a.rate[:-1], a.rate[1:]):
            ctx.check(lo_ <= hi_, "adjusted rates increase")
        q = ctx.choice(f"q{int(s)}", [xs[0] + 0.6 * (xs[-1] - xs[0]), xs[1], xs[-1]]) if len(speeds) == 1 or ctx.thorough else xs[0] + 0.6 * (xs[-1] - xs[0])
        if q >= lo:
            ctx.eq(a.head_as_function_of_rate(q), interp(ctx, q, xs, hs), "head right of the new minimum flow unchanged")
            ctx.eq(a.efficiency_as_function_of_rate(q), interp(ctx, q, xs, es), "efficiency right of the new minimum flow unchanged")
        ctx.eq(a.head_as_function_of_rate(lo), interp(ctx, lo, xs, hs), "head at the new minimum flow as on the original curve")
        ctx.eq(a.efficiency_as_function_of_rate(lo), interp(ctx, lo, xs, es), "efficiency at the new minimum flow as on the original curve")


# the unified generic chart (rate, head) at 75 % and at 105 % speed
MIN_SPEED = [(0.498902665, 0.558852888), (0.529285159, 0.546703033), (0.553058057, 0.5325282), (0.612499498, 0.506203512), (0.667962103, 0.46570399), (0.70889013, 0.427229447), (0.730015921, 0.409004665)]
MAX_SPEED = [
    (0.878913798, 1.289869247), (0.929112832, 1.271644457), (0.97269818, 1.247344747), (1.038726745, 1.200770298), (1.099463139, 1.148120922),
    (1.158871891, 1.089396618), (1.231463064, 0.99827269), (1.278951663, 0.913223698), (1.323778851, 0.809949924),
]
HEAD = {"M": 9.81, "KJ_PER_KG": 1000.0, "JOULE_PER_KG": 1.0}
EFF = {"PERCENTAGE": 0.01, "FRACTION": 1.0}


@harness("charts of 1-2 curves with 3-4 points given inline or as a file; every head and efficiency unit; rows and curves in 3 orders; symbolic heads and efficiencies", budget_s=60, max_paths=4000)
def units(ctx):
    from libecalc.presentation.yaml.mappers import model as mapper
    from libecalc.presentation.yaml.yaml_entities import MemoryResource
    from libecalc.presentation.yaml.yaml_types.models import yaml_compressor_chart as Y
    from libecalc.presentation.yaml.yaml_types.yaml_data_or_file import YamlFile

    single = ctx.choice("single", [True, False])
    file = ctx.choice("file", [True, False])
    head_u, eff_u = ctx.choice("head unit", list(HEAD)), ctx.choice("eff unit", list(EFF))
    k = ctx.choice("order", [0, 1, 2])
    speeds = [10000.4] if single else [9000.0, 7000.25]
    data = {s: sym_curve(ctx, s) for s in speeds}
    units = Y.YamlUnits.model_construct(rate="AM3_PER_HOUR", head=head_u, efficiency=eff_u)
    rows, curves = [], []
    for s in speeds:
        o = ORDERS[len(RATES[s])][k]
        hs, es = [h / HEAD[head_u] for h in data[s][0]], [e / EFF[eff_u] for e in data[s][1]]
        rows += [(s, RATES[s][i], hs[i], es[i]) for i in o]
        curves.append(Y.YamlCurve.model_construct(speed=s, rate=pick(RATES[s], o), head=pick(hs, o), efficiency=pick(es, o)))
    if not single and k == 2:
        rows = rows[0::2] + rows[1::2]  # rows of the two curves mixed
    resources = {}
    with_speed = ctx.choice("speed column", [True, False]) if single and file else True
    if file:
        cols = {"SPEED": [r[0] for r in rows], "RATE": [r[1] for r in rows], "HEAD": [r[2] for r in rows], "EFFICIENCY": [r[3] for r in rows]}
        if not with_speed:
            del cols["SPEED"]
        resources["chart.csv"] = MemoryResource(headers=list(cols), data=list(cols.values()))
    spec = YamlFile.model_construct(file="chart.csv") if file else (curves[0] if single else curves)
    margin = ctx.choice("margin", [None, 0.25])
    if single:
        cfg = Y.YamlSingleSpeedChart.model_construct(name="c", type="COMPRESSOR_CHART", chart_type="SINGLE_SPEED", curve=spec, units=units)
        chart = mapper.single_speed_compressor_chart_mapper(model_config=cfg, resources=resources, control_margin=margin)
    else:
        cfg = Y.YamlVariableSpeedChart.model_construct(name="c", type="COMPRESSOR_CHART", chart_type="VARIABLE_SPEED", curves=spec, units=units)
        chart = mapper.variable_speed_compressor_chart_mapper(model_config=cfg, resources=resources, control_margin=margin)
    got = chart.get_original_curves()
    want = sorted(speeds) if with_speed else [1]
    ctx.eqs([c.speed for c in got], want, "one curve for each speed, sorted")
    for c, s in zip(got, sorted(speeds)):
        ctx.eqs(c.rate, RATES[s], "rates of the curve")
        ctx.eqs(c.head, data[s][0], "heads of the curve in J/kg")
        ctx.eqs(c.efficiency, data[s][1], "efficiencies of the curve as fractions")
    for a, s in zip(chart.get_adjusted_curves(), sorted(speeds)):
        ctx.eq(a.minimum_rate, RATES[s][0] + (margin or 0) * (RATES[s][-1] - RATES[s][0]), "control margin applied to the chart that was read")


@harness("design rate and head symbolic in [1, 1e6], efficiency in (0, 1], every unit; one symbolic point", budget_s=60, max_paths=1000)
def design_point(ctx):
    from libecalc.presentation.yaml.mappers import model as mapper
    from libecalc.presentation.yaml.yaml_types.models import yaml_compressor_chart as Y

    head_u, eff_u = ctx.choice("head unit", list(HEAD)), ctx.choice("eff unit", list(EFF))
    rate, head, eff = ctx.real("rate", 1, 1e6), ctx.real("head", 1, 1e6), ctx.real("eff", 0.01, 1)
    cfg = Y.YamlGenericFromDesignPointChart.model_construct(
        name="c", type="COMPRESSOR_CHART", chart_type="GENERIC_FROM_DESIGN_POINT", polytropic_efficiency=eff / EFF[eff_u], design_rate=rate, design_head=head / HEAD[head_u],
        units=Y.YamlUnits.model_construct(rate="AM3_PER_HOUR", head=head_u, efficiency=eff_u),
    )
    chart = mapper._generic_from_design_point_compressor_chart_mapper(cfg)
    curves = chart.get_adjusted_curves()
    ctx.same([float(c.speed) for c in curves], [75.0, 105.0], "two curves, 75 % and 105 % of the design speed")
    for c, unified in zip(curves, (MIN_SPEED, MAX_SPEED)):
        ctx.eqs(c.rate, [rate * q for q, _ in unified], "rates scale with the design rate")
        ctx.eqs(c.head, [head * h for _, h in unified], "heads scale with the design head")
        ctx.eqs(c.efficiency, [eff] * len(unified), "the given efficiency everywhere")
    ctx.eq(chart.design_rate, rate, "design rate kept")
    ctx.eq(chart.design_head, head, "design head kept")
