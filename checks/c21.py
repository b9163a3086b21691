"""C21: an operating point is placed in a compressor chart, and moved into it only where recirculation or choking can do that."""

import math

from checks.c13 import same_bool
from checks.common import reals
from checks.model import interp
from engine.runner import harness

ASSUMPTIONS = [
    "scipy.interpolate.interp1d, numpy and shapely are re-implemented over symbolic values and cross-checked by witness replay",
    "operating points lie at least 1e-6 (relative to the chart) from the limits between chart areas, or exactly on them",
]
OUTSIDE = "charts other than those given (3 shapes of 1-3 curves, 2-3 points)"

# (speed, [(rate, head, efficiency)])
CHARTS = {
    "three": [
        (7000.0, [(1000.0, 60000.0, 0.70), (2000.0, 55000.0, 0.75), (2800.0, 40000.0, 0.68)]),
        (9000.0, [(1500.0, 95000.0, 0.71), (2600.0, 85000.0, 0.77), (3400.0, 65000.0, 0.70)]),
        (10000.0, [(1800.0, 120000.0, 0.69), (3000.0, 108000.0, 0.76), (3900.0, 80000.0, 0.72)]),
    ],
    "two": [
        (75.0, [(500.0, 30000.0, 0.65), (800.0, 20000.0, 0.8)]),
        (105.0, [(900.0, 70000.0, 0.7), (1100.0, 65000.0, 0.9), (1300.0, 45000.0, 0.6)]),
    ],
    "full": [(1.0, [(1000.0, 50000.0, 1.0), (2000.0, 40000.0, 1.0)]), (2.0, [(1500.0, 90000.0, 1.0), (2500.0, 80000.0, 1.0)])],
    "single": [(1.0, [(1000.0, 50000.0, 0.7), (2000.0, 40000.0, 0.8), (3000.0, 20000.0, 0.75)])],
}

NAMES = ["three", "two", "single"]


def make_chart(name):
    from libecalc.domain.process.value_objects.chart import ChartCurve
    from libecalc.domain.process.value_objects.chart.compressor import CompressorChart
    from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData

    return CompressorChart(UserDefinedChartData(
        curves=[ChartCurve(speed_rpm=s, rate_actual_m3_hour=[p[0] for p in pts], polytropic_head_joule_per_kg=[p[1] for p in pts], efficiency_fraction=[p[2] for p in pts]) for s, pts in CHARTS[name]],
        control_margin=None,
    ))


def line(ctx, x, xs, ys):
    """piecewise linear, constant outside; forks"""
    if x <= xs[0]:
        return ys[0]
    for i in range(len(xs) - 1):
        if x <= xs[i + 1]:
            return ys[i] + (x - xs[i]) * ((ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i]))
    return ys[-1]


def col(pts, k):
    return [p[k] for p in pts]


def clear(ctx, x, limits, scale, exact=True):
    for lim in limits:
        ctx.assume(ctx.Or(x == lim if exact else False, x >= lim + 1e-6 * scale, x <= lim - 1e-6 * scale))


@harness("3 charts; 4-7 speeds each (on, between, below and above the curves); symbolic rate without and with recirculation; choking and recirculation allowed or not", budget_s=80, max_paths=6000)
def given_speed(ctx):
    name = ctx.choice("chart", NAMES)
    c = CHARTS[name]
    speeds = [s for s, _ in c]
    options = {"three": [7000.0, 9000.0, 10000.0, 7800.0, 9800.0, 6999.0, 10001.0], "two": [75.0, 105.0, 84.0, 60.0, 105.5], "single": [1.0, 0.9, 1.1]}[name]
    s = ctx.choice("speed", options)
    choke, asv = ctx.choice("choke", [False, True]), ctx.choice("asv", [True, False])
    chart = make_chart(name)
    top = c[-1][1][-1][0]
    q, add = ctx.real("q", 0, 1.2 * top), ctx.real("recirculated", 0, top)
    qa = q + add
    given = ctx.choice("recirculation given", [True, False])
    if not given:
        ctx.assume(add == 0)
    use = s
    if s < speeds[0] and choke:
        use = speeds[0]
    lo = line(ctx, use, speeds, [p[0][0] for _, p in c])
    hi = line(ctx, use, speeds, [p[-1][0] for _, p in c])
    clear(ctx, q, [lo, hi], top)
    clear(ctx, qa, [lo, hi], top)
    ctx.assume(ctx.Or(q == 0, q >= 1))
    ctx.assume(ctx.Or(qa <= hi, q > hi))
    if not asv and not choke:
        ctx.assume(q > 0)
    r = chart.calculate_polytropic_head_and_efficiency_single_point(
        speed=s, actual_rate_m3_per_hour=q, actual_rate_m3_per_hour_including_asv=qa if given else None,
        increase_speed_below_assuming_choke=choke, increase_rate_left_of_minimum_flow_assuming_asv=asv,
    ) if q > 0 or asv else None
    if r is None:
        return
    flag = r.chart_area_flag.value
    if use < speeds[0] or use > speeds[-1]:
        ctx.check(not r.is_valid, "a speed outside the chart is not valid")
        ctx.same(flag, "BELOW_MINIMUM_SPEED" if use < speeds[0] else "ABOVE_MAXIMUM_SPEED", "area: speed outside the chart")
        ctx.check(ctx.isnan(r.polytropic_head) and ctx.isnan(r.polytropic_efficiency), "no head for a speed outside the chart")
        return
    raised = use != s
    if q == 0:
        want = "NO_FLOW_RATE"
    elif q < lo:
        want = "BELOW_MINIMUM_SPEED_AND_BELOW_MINIMUM_FLOW_RATE" if raised else "BELOW_MINIMUM_FLOW_RATE"
    elif q > hi:
        want = "BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE" if raised else "ABOVE_MAXIMUM_FLOW_RATE"
    else:
        want = "BELOW_MINIMUM_SPEED" if raised else "INTERNAL_POINT"
    ctx.same(flag, want, "area of the chart, by the rate without recirculation")
    ok = q <= hi and (asv or qa >= lo)
    same_bool(ctx, r.is_valid, ok, "valid exactly where the compressor can run at this speed")
    if not ok:
        return
    rate = qa if qa >= lo else lo
    below = [k for k, v in enumerate(speeds) if v <= use][-1]
    above = [k for k, v in enumerate(speeds) if v >= use][0]
    w = 0 if above == below else (use - speeds[below]) / (speeds[above] - speeds[below])
    t = (rate - lo) / (hi - lo)
    head = eff = 0
    for k, wk in ((below, 1 - w), (above, w)):
        pts = c[k][1]
        x = pts[0][0] + t * (pts[-1][0] - pts[0][0])
        head = head + wk * interp(ctx, x, col(pts, 0), col(pts, 1))
        eff = eff + wk * interp(ctx, x, col(pts, 0), col(pts, 2))
    ctx.eq(r.polytropic_head, head, "head interpolated in the chart")
    ctx.eq(r.polytropic_efficiency, eff, "efficiency interpolated in the chart")


@harness("2 charts; symbolic speed over the whole range and rate at 5 fractions of the flow range of that speed", budget_s=60, max_paths=1000)
def any_speed(ctx):
    name = ctx.choice("chart", ["three", "two"])
    c = CHARTS[name]
    chart = make_chart(name)
    k = ctx.choice("between", list(range(len(c) - 1)))
    (s0, p0), (s1, p1) = c[k], c[k + 1]
    w = ctx.real("w", 0, 1)
    s = s0 + w * (s1 - s0)
    t = ctx.choice("t", [0.0, 0.2, 0.5, 0.9, 1.0])
    lo = p0[0][0] + w * (p1[0][0] - p0[0][0])
    hi = p0[-1][0] + w * (p1[-1][0] - p0[-1][0])
    q = lo + t * (hi - lo)
    r = chart.calculate_polytropic_head_and_efficiency_single_point(speed=s, actual_rate_m3_per_hour=q)
    ctx.check(r.is_valid, "a point between minimum and maximum flow is valid at every speed")
    heads = [interp(ctx, p[0][0] + t * (p[-1][0] - p[0][0]), col(p, 0), col(p, 1)) for p in (p0, p1)]
    effs = [interp(ctx, p[0][0] + t * (p[-1][0] - p[0][0]), col(p, 0), col(p, 2)) for p in (p0, p1)]
    ctx.eq(r.polytropic_head, heads[0] + w * (heads[1] - heads[0]), "head interpolated between speeds")
    ctx.eq(r.polytropic_efficiency, effs[0] + w * (effs[1] - effs[0]), "efficiency interpolated between speeds")


class Limits:
    """the area of a chart in the rate-head plane"""

    def __init__(self, name):
        c = CHARTS[name]
        self.lo, self.hi = c[0][1], c[-1][1]

    def min_flow(self, ctx, h, choke):
        """left limit as a function of head"""
        a, b = self.lo[0], self.hi[0]
        if choke:
            return line(ctx, h, [a[1], b[1]], [a[0], b[0]]) if b[1] > a[1] else a[0]
        pts = list(reversed(self.lo)) + ([b] if b[1] > a[1] else [])
        return line(ctx, h, col(pts, 1), col(pts, 0))

    def max_flow(self, ctx, h, choke):
        pts = list(reversed(self.hi))
        if not choke and self.lo[-1][1] < pts[0][1]:
            pts = [self.lo[-1], *pts]
        return line(ctx, h, col(pts, 1), col(pts, 0))

    def min_head(self, ctx, q):
        pts = list(self.lo) + ([self.hi[-1]] if self.hi[-1][0] > self.lo[-1][0] else [])
        return line(ctx, q, col(pts, 0), col(pts, 1))

    def max_head(self, ctx, q):
        return line(ctx, q, col(self.hi, 0), col(self.hi, 1))


@harness("3 charts; symbolic rates and heads (1-2 points at once), from zero to beyond the chart; choking allowed or not", budget_s=80, max_paths=6000)
def given_head(ctx):
    name = ctx.choice("chart", NAMES)
    choke = ctx.choice("choke", [True, False])
    n = ctx.choice("points", [1, 2]) if ctx.thorough else 1
    chart, lim = make_chart(name), Limits(name)
    qs = [ctx.real(f"q{i}", 0, 1.3 * lim.hi[-1][0]) for i in range(n)]
    hs = [ctx.real(f"h{i}", 1, 1.3 * lim.hi[0][1]) for i in range(n)]
    if n == 2:
        ctx.assume(qs[1] >= lim.hi[-1][0] + 1)
        ctx.assume(hs[1] <= lim.lo[-1][1])
    want = []
    for q, h in zip(qs, hs):
        left = lim.min_flow(ctx, h, choke)
        right = lim.max_flow(ctx, h, choke)
        clear(ctx, q, [left, right], 3000, False)
        rate = q if q >= left else left
        bottom, top = lim.min_head(ctx, rate), lim.max_head(ctx, q)
        clear(ctx, h, [bottom, top], 60000, False)
        head = bottom if choke and h < bottom else h
        if not (name == "single" and choke and h < bottom):
            ctx.assume(ctx.Or(head <= top - 0.06, head >= top + 0.06))
        if rate > right:
            ctx.assume(rate >= right + 0.003)
        want.append((rate, head, q < left, choke and h < bottom, rate > right, head > top, not choke and h < bottom))
    r = chart.evaluate_capacity_and_extrapolate_below_minimum(actual_volume_rates=ctx.array(qs), heads=ctx.array(hs), extrapolate_heads_below_minimum=choke)
    for i, (rate, head, recirc, choked, too_much, too_high, too_low) in enumerate(want):
        ctx.eq(r.asv_corrected_rates[i], rate, "recirculation raises the rate to the minimum flow, and nothing else")
        ctx.eq(r.choke_corrected_heads[i], head, "choking raises the head to the minimum of the chart, and nothing else")
        same_bool(ctx, r.rate_has_recirc[i], recirc, "recirculating exactly left of the minimum flow")
        same_bool(ctx, r.pressure_is_choked[i], choked, "choked exactly where allowed and below the chart")
        same_bool(ctx, r.rate_exceeds_maximum[i], too_much, "rate above the chart")
        same_bool(ctx, r.head_exceeds_maximum[i], too_high, "head above the chart")
        same_bool(ctx, r.exceeds_capacity[i], too_much or too_high or too_low, "outside the capacity exactly when the point cannot be moved into the chart")
        if not r.exceeds_capacity[i]:
            m = chart.get_maximum_rate(heads=ctx.array([hs[i]]), extrapolate_heads_below_minimum=choke)
            ctx.le(qs[i], m[0], "a point within the capacity does not exceed the maximum rate at its head")


@harness("3 charts, choking allowed or not, symbolic head inside the head range of the chart", budget_s=40, max_paths=500)
def maximum_rate(ctx):
    name = ctx.choice("chart", NAMES)
    choke = ctx.choice("choke", [True, False])
    chart, lim = make_chart(name), Limits(name)
    h = ctx.real("h", lim.lo[-1][1], lim.hi[0][1])
    m = chart.get_maximum_rate(heads=ctx.array([h]), extrapolate_heads_below_minimum=choke)[0]
    ctx.eq(m, lim.max_flow(ctx, h, choke), "largest rate at this head")
    r = chart.evaluate_capacity_and_extrapolate_below_minimum(actual_volume_rates=ctx.array([m * (1 - 1e-6)]), heads=ctx.array([h * (1 + 1e-5)]) if not choke else ctx.array([h]), extrapolate_heads_below_minimum=choke)
    if h < lim.hi[0][1] - 10:
        ctx.check(not r.rate_exceeds_maximum[0] or not choke, "the largest rate is within the capacity")
    r = chart.evaluate_capacity_and_extrapolate_below_minimum(actual_volume_rates=ctx.array([m + 0.01]), heads=ctx.array([h]), extrapolate_heads_below_minimum=choke)
    ctx.check(bool(r.rate_exceeds_maximum[0]) and bool(r.exceeds_capacity[0]), "more than the largest rate exceeds the capacity")


def project(q, h, pts):
    """(signed distance, fraction position x) of the point of a polyline closest to (q, h); positive when the curve is above"""
    best = None
    for (x0, y0), (x1, y1) in zip(pts[:-1], pts[1:]):
        dx, dy = x1 - x0, y1 - y0
        t = min(1.0, max(0.0, ((q - x0) * dx + (h - y0) * dy) / (dx * dx + dy * dy)))
        x, y = x0 + t * dx, y0 + t * dy
        d = math.hypot(q - x, h - y)
        if best is None or d < best[0]:
            best = (d, x, y)
    d, x, y = best
    return (-d if y < h else d), x


@harness("2 charts with symbolic efficiencies; 3 points on each segment of each curve and 6 points between and around the curves", budget_s=60, max_paths=2000)
def efficiency(ctx):
    from libecalc.domain.process.value_objects.chart import ChartCurve
    from libecalc.domain.process.value_objects.chart.compressor import CompressorChart
    from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData

    name = ctx.choice("chart", ["three", "two"])
    c = CHARTS[name]
    effs = [reals(ctx, f"e{k}_", len(pts), 0.1, 1) for k, (_, pts) in enumerate(c)]
    ctx.assume(effs[0][0] <= 0.99)
    chart = CompressorChart(UserDefinedChartData(
        curves=[ChartCurve(speed_rpm=s, rate_actual_m3_hour=col(pts, 0), polytropic_head_joule_per_kg=col(pts, 1), efficiency_fraction=e) for (s, pts), e in zip(c, effs)], control_margin=None))
    on_curve = ctx.boolean("on a curve")
    if on_curve:
        k = ctx.choice("curve", list(range(len(c))))
        pts = c[k][1]
        seg = ctx.choice("segment", list(range(len(pts) - 1)))
        t = ctx.choice("t", [0.0, 0.3, 0.8])
        q, h = (pts[seg][m] + t * (pts[seg + 1][m] - pts[seg][m]) for m in (0, 1))
        got = chart.efficiency_as_function_of_rate_and_head(rates=ctx.array([q]), heads=ctx.array([h]))
        ctx.eq(got[0], effs[k][seg] + t * (effs[k][seg + 1] - effs[k][seg]), "on a curve the efficiency is that of the curve", atol=1e-5)
        return
    q, h = ctx.choice("point", [(1500.0, 70000.0), (2400.0, 80000.0), (2700.0, 100000.0), (3800.0, 90000.0), (1500.0, 30000.0), (3000.0, 60000.0)] if name == "three" else [(700.0, 35000.0), (900.0, 40000.0), (1250.0, 50000.0), (600.0, 20000.0), (1000.0, 80000.0)])
    got = chart.efficiency_as_function_of_rate_and_head(rates=ctx.array([q]), heads=ctx.array([h]))[0]
    # distances weigh rate and head equally: both are measured in standard deviations of the points of the chart
    rs, hs = [p[0] for _, pts in c for p in pts], [p[1] for _, pts in c for p in pts]
    sd = [math.sqrt(sum((v - sum(x) / len(x)) ** 2 for v in x) / len(x)) for x in (rs, hs)]
    above, below = [], []
    for (_, pts), e in zip(c, effs):
        d, x = project(q / sd[0], h / sd[1], [(p[0] / sd[0], p[1] / sd[1]) for p in pts])
        (above if d >= 0 else below).append((abs(d), interp(ctx, x * sd[0], col(pts, 0), e)))
    above, below = min(above, key=lambda p: p[0], default=None), min(below, key=lambda p: p[0], default=None)
    if above is None or below is None:
        want = (above or below)[1]
    else:
        want = (above[1] * below[0] + below[1] * above[0]) / (above[0] + below[0])
    ctx.eq(got, want, "between curves the efficiency is weighted by the distance to the nearest points above and below", atol=1e-5)


@harness("charts with 100 % efficiency", budget_s=10)
def full_efficiency(ctx):
    chart = make_chart("full")
    q, h = ctx.real("q", 0, 1e4), ctx.real("h", 0, 1e6)
    ctx.eqs(chart.efficiency_as_function_of_rate_and_head(rates=ctx.array([q]), heads=ctx.array([h])), [1.0], "100 % efficient everywhere")
