"""C24: a compressor train of variable speed runs at the lowest speed that reaches its discharge pressure; the maximum rate is the largest a train can run at."""

from checks.c21 import line
from checks.fluid import DENSITY_PER_BAR, HEAD_PER_BAR
from checks.trains import CONTROLS, ONE, TO_MASS, WIDE, Stage, consistent, make_train, run, service, status
from engine.runner import harness

ASSUMPTIONS = [
    "the gas follows a simple law (density proportional to pressure, enthalpy to temperature, pressure rise proportional to head) instead of NeqSim's",
    "scipy's brenth returns a point within its tolerance of a root",
]
OUTSIDE = "NeqSim thermodynamics; trains of more than 2 stages; charts where curves of different speed cross"

# curves that cover the same flows: the head is linear in the speed
SPEEDS = [(70.0, [(800.0, 30000.0, 0.65), (2800.0, 15000.0, 0.8)]), (100.0, [(800.0, 60000.0, 0.7), (2800.0, 36000.0, 0.6)])]
THREE = [(60.0, [(800.0, 24000.0, 0.65), (1800.0, 18000.0, 0.7), (2800.0, 10000.0, 0.6)]), (75.0, [(800.0, 34000.0, 0.7), (1800.0, 28000.0, 0.8), (2800.0, 16000.0, 0.7)]), (100.0, [(800.0, 60000.0, 0.6), (1800.0, 52000.0, 0.7), (2800.0, 30000.0, 0.65)])]
# the largest and smallest flows increase with the speed
SLOPED = [(70.0, [(700.0, 30000.0, 0.65), (2000.0, 15000.0, 0.8)]), (100.0, [(1000.0, 60000.0, 0.7), (2900.0, 32000.0, 0.6)])]
SECOND = [(75.0, [(500.0, 25000.0, 0.7), (2600.0, 12000.0, 0.75)]), (100.0, [(500.0, 45000.0, 0.7), (2600.0, 25000.0, 0.72)])]


def at_speed(ctx, chart, speed):
    """the curve at a speed of a chart whose curves have points at the same flows"""
    speeds = [c[0] for c in chart]
    return [(chart[0][1][k][0], *(line(ctx, speed, speeds, [c[1][k][j] for c in chart]) for j in (1, 2))) for k in range(len(chart[0][1]))]


def on(pts, x, j=1):
    """value of a concrete curve at a concrete flow"""
    for a, b in zip(pts, pts[1:]):
        if x <= b[0]:
            return a[j] + (x - a[0]) / (b[0] - a[0]) * (b[j] - a[j])
    return pts[-1][j]


def one_stage(ctx, control, chart):
    ctx.exact_roots()
    ctx.fork_minmax()
    ps = 50.0
    rho = DENSITY_PER_BAR * ps
    lo_pts, hi_pts = chart[0][1], chart[-1][1]
    x0, x1 = lo_pts[0][0], lo_pts[-1][0]
    q = ctx.choice("flow", [300.0, 1500.0, 2400.0, 2900.0])
    x = max(q, x0)
    pd = ctx.real("pd", 51, 115)
    top, bottom = (ps + on(pts, x) / HEAD_PER_BAR for pts in (hi_pts, lo_pts))
    wall = ps + lo_pts[-1][1] / HEAD_PER_BAR
    for v in (top, bottom, wall):
        ctx.assume(ctx.Or(pd <= v * (1 - 2e-3), pd >= v * (1 + 2e-3)))
    train = make_train([chart], control, variable=True)
    r = run(ctx, train, [q * rho / TO_MASS], [ps], [pd])
    got = status(r)
    ok = r.get_energy_result().is_valid[0]
    ctx.check(bool(ok) == (got == "NO_FAILURE"), "valid exactly when there is no failure")
    s = Stage(r, 0)
    if q > x1:
        ctx.check(not ok, "more than the largest flow is not valid")
        return
    ctx.check(ctx.And(s.speed >= chart[0][0] * (1 - 1e-9), s.speed <= chart[-1][0] * (1 + 1e-9)), "speed within the chart")
    if pd > top:
        ctx.check(not ok, "not valid above the pressure reached at the highest speed")
        ctx.check(got == "TARGET_DISCHARGE_PRESSURE_TOO_HIGH", f"too high a pressure is what is wrong: {got}")
        ctx.eq(s.speed, chart[-1][0], "it runs at its highest speed", rtol=1e-6)
        return
    if pd >= bottom:
        ctx.check(ok, f"reached by changing speed: {got}")
        ctx.eq(r.outlet_stream.pressure[0], pd, "discharge pressure meets the request", rtol=1e-3)
        ctx.eq(s.x, x, "recirculates no more than up to the smallest flow", rtol=1e-6)
        consistent(ctx, s, at_speed(ctx, chart, s.speed), q * rho, tag="stage")
        ctx.eq(r.get_energy_result().power.values[0], s.power, "train's power", rtol=1e-9)
        return
    ctx.eq(s.speed, chart[0][0], "lowest speed when the pressure is below what the speed can control", rtol=1e-6)
    if control is None:
        ctx.check(not ok, "without pressure control a lower pressure is not valid")
        ctx.check(got == "TARGET_DISCHARGE_PRESSURE_TOO_LOW", f"too low a pressure is what is wrong: {got}")
    elif "CHOKE" in control:
        if control == "DOWNSTREAM_CHOKE":
            ctx.check(ok, f"choking reaches any lower pressure: {got}")
            ctx.eq(s.x, x, "choking downstream does not recirculate", rtol=1e-6)
    elif pd >= wall:
        ctx.check(ok, f"recirculation reaches pressures down to that of the largest flow: {got}")
    else:
        ctx.check(not ok, f"recirculation reaches no pressure below that of the largest flow: {got}")
    if ok:
        ctx.eq(r.outlet_stream.pressure[0], pd, "discharge pressure meets the request", rtol=2.5e-3)
        ctx.check(s.mass >= s.net * (1 - 1e-9), "recirculation cannot be negative")
        ctx.check(ctx.And(s.x >= x0 * (1 - 1e-6), s.x <= x1 * (1 + 1e-6)), "flow inside the chart")
        consistent(ctx, s, lo_pts, q * rho, tag="stage")


for _c in [None, *CONTROLS[1:]]:
    _n = f"one_stage_{(_c or 'no_control').lower()}"
    globals()[_n] = harness(f"one compressor of variable speed, {_c}; flows below, in and above the chart; every discharge pressure", name=_n, budget_s=100, max_paths=1000)(
        lambda ctx, c=_c: one_stage(ctx, c, SPEEDS)
    )
    _n = f"one_stage_3_speeds_{(_c or 'no_control').lower()}"
    globals()[_n] = harness(f"one compressor with 3 curves, {_c}; flows below, in and above the chart; every discharge pressure", name=_n, budget_s=100, max_paths=1000)(
        lambda ctx, c=_c: one_stage(ctx, c, THREE)
    )


def symbolic_flow(ctx, control, chart):
    """the flow varies too"""
    ctx.exact_roots()
    ps = 50.0
    rho = DENSITY_PER_BAR * ps
    lo_pts, hi_pts = chart[0][1], chart[-1][1]
    q = ctx.real("flow", 801, 2799)
    pd = ctx.real("pd", 51, 115)
    xs = [p[0] for p in lo_pts]
    top, bottom = (ps + line(ctx, q, xs, [p[1] for p in pts]) / HEAD_PER_BAR for pts in (hi_pts, lo_pts))
    ctx.assume(ctx.Or(pd <= top * (1 - 2e-3), pd >= top * (1 + 2e-3)))
    ctx.assume(ctx.Or(pd <= bottom * (1 - 2e-3), pd >= bottom * (1 + 2e-3)))
    train = make_train([chart], control, variable=True)
    r = run(ctx, train, [q * rho / TO_MASS], [ps], [pd])
    got = status(r)
    ok = r.get_energy_result().is_valid[0]
    s = Stage(r, 0)
    if pd > top:
        ctx.check(not ok, "not valid above the pressure reached at the highest speed")
        ctx.eq(s.speed, chart[-1][0], "it runs at its highest speed", rtol=1e-6)
    elif pd >= bottom:
        ctx.check(ok, f"reached by changing speed: {got}")
        ctx.eq(r.outlet_stream.pressure[0], pd, "discharge pressure meets the request", rtol=1e-3)
        ctx.eq(s.x, q, "does not recirculate", rtol=1e-6)
        h = (pd - ps) * HEAD_PER_BAR
        ctx.eq(s.head * 1000, h, "head", rtol=1e-3)
        if len(chart) == 2:
            speed = chart[0][0] + (pd - bottom) / (top - bottom) * (chart[-1][0] - chart[0][0])
            ctx.eq(s.speed, speed, "speed", rtol=1e-3)
        eff = line(ctx, s.speed, [c[0] for c in chart], [line(ctx, q, xs, [p[2] for p in c[1]]) for c in chart])
        ctx.eq(s.power * 3.6e6 * eff, s.head * 1000 * q * rho / 1000, "power", rtol=1e-3)
    else:
        ctx.check(not ok if control is None else ok, f"a lower pressure needs choking: {got}")
        ctx.eq(s.speed, chart[0][0], "lowest speed", rtol=1e-6)
        ctx.eq(s.x, q, "does not recirculate", rtol=1e-6)


for _c in (None, "DOWNSTREAM_CHOKE"):
    _n = f"symbolic_flow_{(_c or 'no_control').lower()}"
    globals()[_n] = harness(f"one compressor of variable speed, {_c}; every flow within the chart, every discharge pressure", name=_n, budget_s=100)(lambda ctx, c=_c: symbolic_flow(ctx, c, SPEEDS))


def two_stages(ctx, control, charts):
    ctx.exact_roots()
    ctx.fork_minmax()
    ps = 50.0
    rho = DENSITY_PER_BAR * ps
    q = ctx.choice("flow", [600.0] if control == "COMMON_ASV" and not ctx.thorough else [600.0, 1700.0] if not ctx.thorough else [600.0, 1000.0, 1700.0, 2600.0])
    drop = ctx.choice("drop", [0.0, 5.0])
    pd = ctx.real("pd", 60, 180)
    t2 = 320.0
    lowest, highest = max(c[0][0] for c in charts), min(c[-1][0] for c in charts)
    # the gas's density is constant for the controls that solve for flows, to keep the equations within reach
    dense = rho if control not in (None, "DOWNSTREAM_CHOKE") else None

    def ends(speed):
        p, xs = ps, []
        for c, d in zip(charts, (0.0, drop)):
            p = p - d
            pts = at_speed(ctx, c, speed)
            x = max(q * rho / (dense or DENSITY_PER_BAR * p), pts[0][0])
            xs.append(x <= pts[-1][0])
            p = p + on(pts, x) / HEAD_PER_BAR
        return p, all(xs)

    (bottom, in0), (top, in1) = ends(lowest), ends(highest)
    ctx.assume(ctx.Or(pd <= top * (1 - 2e-3), pd >= top * (1 + 2e-3)))
    ctx.assume(ctx.Or(pd <= bottom * (1 - 2e-3), pd >= bottom * (1 + 2e-3)))
    train = make_train(charts, control, variable=True, drops=[0.0, drop], temps=[300.0, t2], svc=service(constant_density=dense))
    r = run(ctx, train, [q * rho / TO_MASS], [ps], [pd])
    got = status(r)
    ok = r.get_energy_result().is_valid[0]
    ctx.check(bool(ok) == (got == "NO_FAILURE"), "valid exactly when there is no failure")
    a, b = Stage(r, 0), Stage(r, 1)
    ctx.eq(a.speed, b.speed, "one shaft", rtol=1e-9)
    ctx.check(ctx.And(a.speed >= lowest * (1 - 1e-9), a.speed <= highest * (1 + 1e-9)), "speed within the charts")
    if in1 and pd > top:
        ctx.check(not ok, "not valid above the pressure reached at the highest speed")
        ctx.eq(a.speed, highest, "it runs at its highest speed", rtol=1e-6)
    elif in0 and in1 and pd >= bottom:
        ctx.check(ok, f"reached by changing speed: {got}")
    elif in0 and in1 and control == "DOWNSTREAM_CHOKE":
        ctx.check(ok, f"reached by choking: {got}")
        ctx.eq(a.speed, lowest, "choked at the lowest speed only", rtol=1e-4)
    if not ok:
        return
    ctx.eq(r.outlet_stream.pressure[0], pd, "discharge pressure meets the request", rtol=2.5e-3)
    if control == "UPSTREAM_CHOKE":
        ctx.check(a.p_in <= ps * (1 + 1e-6), "choking upstream lowers the pressure")
    else:
        ctx.eq(a.p_in, ps, "suction pressure", rtol=1e-9)
    ctx.eq(b.p_in, a.p_out - drop, "second stage's inlet pressure", rtol=1e-9)
    if pd >= bottom or control == "DOWNSTREAM_CHOKE":
        for s, c in ((a, charts[0]), (b, charts[1])):
            x0 = c[0][1][0][0]
            ctx.eq(s.x, s.x_net if s.x_net >= x0 else x0, "recirculates no more than up to the smallest flow", rtol=1e-6)
    for s, c, t, tag in ((a, charts[0], 300.0, "first"), (b, charts[1], t2, "second")):
        consistent(ctx, s, at_speed(ctx, c, s.speed), q * rho, temp=t, tag=tag, rho=dense)
    ctx.eq(r.get_energy_result().power.values[0], a.power + b.power, "train's power is the sum", rtol=1e-6)


for _c in [None, *CONTROLS[1:]]:
    _n = f"two_stages_{(_c or 'no_control').lower()}"
    globals()[_n] = harness(f"two compressors on one shaft of variable speed with different speed ranges, {_c}; with and without pressure drop; every discharge pressure", name=_n, budget_s=120, max_paths=1000)(
        lambda ctx, c=_c: two_stages(ctx, c, [SPEEDS, SECOND])
    )


def maximum_rate(ctx, control, charts, variable, windows=False, power=None):
    ctx.exact_roots()
    ctx.fork_minmax()
    import numpy as np

    from checks.fluid import fluid_model, patched

    ps = 50.0
    rho = DENSITY_PER_BAR * ps
    spans = [(51, 115)] if not windows or ctx.thorough else [(60, 60.05), (75, 75.05), (98, 98.1)] if control == "UPSTREAM_CHOKE" else [(60, 60.5), (64, 64.5), (75, 75.5), (85.2, 85.6), (98, 98.5), (112, 113)]
    pd = ctx.real("pd", *ctx.choice("range", spans))
    # within the tolerance on the pressure of what can be reached either answer is right
    for v in (charts[0][-1][1][0][1], charts[0][0][1][-1][1]):
        v = ps + v / HEAD_PER_BAR
        ctx.assume(ctx.Or(pd <= v * (1 - 2e-3), pd >= v * (1 + 2e-3)))
    kw = {}
    if power:
        kw["maximum_power"] = ctx.real("maximum power", *power)
    make = lambda: make_train(charts, control, variable=variable, **kw)  # noqa: E731
    train = make()
    before = ctx.choice("earlier rate", [None, 500.0])
    if before is not None:
        run(ctx, train, [before * rho / TO_MASS], [ps], [82.0])
    else:
        train._fluid_model = [fluid_model()]
    with patched():
        r = train.get_max_standard_rate(ctx.array([ps]), ctx.array([pd]))[0]

    rate = r * TO_MASS / rho  # actual flow at the suction pressure
    xs, hi, lo = ([p[k] for p in c] for k, c in ((0, charts[0][-1][1]), (1, charts[0][-1][1]), (1, charts[0][0][1])))
    head = (pd - ps) * HEAD_PER_BAR
    if head > hi[0]:
        ctx.check(r == 0, "no rate reaches the pressure")
    elif head >= hi[-1]:
        # the flow where the highest speed just reaches the pressure
        reached = line(ctx, rate, xs, hi)
        ctx.check(ctx.And(rate >= xs[0] * 0.998, rate <= xs[-1] * 1.001), "flow inside the chart")
        ctx.check(reached <= head + 4e-3 * hi[0], "the pressure is reached with little to spare")
        ctx.check(reached >= head - 2e-3 * hi[0], "the pressure is reached")
    elif head >= lo[-1] or control == "DOWNSTREAM_CHOKE":
        ctx.eq(rate, xs[-1], "the largest flow of the chart", rtol=6e-3)
    elif control == "UPSTREAM_CHOKE":
        # at the largest flow of the lowest speed, the gas thinned by the choke
        thinned = pd - lo[-1] / HEAD_PER_BAR
        ctx.eq(rate, xs[-1] * thinned / ps, "the largest flow of the chart at the lower pressure", rtol=6e-3)
    else:
        ctx.check(r == 0, "the pressure is too low at every rate")


for _c in CONTROLS[1:]:
    _n = f"maximum_rate_{_c.lower()}"
    globals()[_n] = harness(f"the maximum rate of one compressor at one speed, {_c}; every discharge pressure (quick tier: 6 ranges of 0.5 bar where the search is long); before or after other use of the train", name=_n, budget_s=100)(lambda ctx, c=_c: maximum_rate(ctx, c, [ONE], False, c == "UPSTREAM_CHOKE"))
for _c in [None, *CONTROLS[1:]]:
    _n = f"maximum_rate_variable_speed_{(_c or 'no_control').lower()}"
    globals()[_n] = harness(f"the maximum rate of one compressor of variable speed, {_c}; every discharge pressure (quick tier: 6 ranges of 0.5 bar where the search is long); before or after other use of the train", name=_n, budget_s=100)(lambda ctx, c=_c: maximum_rate(ctx, c, [SPEEDS], True, c != "DOWNSTREAM_CHOKE"))


FLAT = [(1.0, [(1000.0, 50000.0, 0.7), (3000.0, 35000.0, 0.7)])]


def power_limit(ctx, control):
    """the maximum rate at a limit on the power"""
    from checks.fluid import fluid_model, patched

    ctx.exact_roots()
    ctx.fork_minmax()
    ps = 50.0
    rho = DENSITY_PER_BAR * ps
    pd = ctx.choice("pd", [84.0, 88.0, 97.0])
    limit = ctx.real("maximum power", 0.3, 2.5)
    pts = FLAT[0][1]
    mw = lambda x: rho * x * on(pts, x) / 0.7 / 3.6e9  # noqa: E731
    h = (pd - ps) * HEAD_PER_BAR
    top = min(3000.0, 1000.0 + (50000.0 - h) / 7.5)  # the largest flow at the pressure
    for v in (mw(1000.0), mw(top)):
        ctx.assume(ctx.Or(limit <= v * (1 - 5e-3), limit >= v * (1 + 5e-3)))
    train = make_train([FLAT], control, maximum_power=limit)
    train._fluid_model = [fluid_model()]
    with patched():
        r = train.get_max_standard_rate(ctx.array([ps]), ctx.array([pd]))[0]
    x = r * TO_MASS / rho
    if limit < mw(1000.0) or (control != "DOWNSTREAM_CHOKE" and (limit < mw(top) or h < 35000.0)):
        # recirculation to lower the pressure costs the same power at every rate
        ctx.check(r == 0, "no rate keeps within the power")
    elif limit > mw(top):
        ctx.eq(x, top, "the largest rate", rtol=6e-3)
    else:
        p = rho * x * (50000.0 - (x - 1000.0) * 7.5) / 0.7 / 3.6e9
        ctx.check(p <= limit * (1 + 1e-6), "the power is kept within its limit")
        ctx.check(p >= limit * (1 - 5e-3), "little of the power is left")


for _c in ("DOWNSTREAM_CHOKE", "COMMON_ASV"):
    _n = f"power_limit_{_c.lower()}"
    globals()[_n] = harness(f"the maximum rate of one compressor at one speed, {_c}, at 3 discharge pressures; every maximum power", name=_n, budget_s=100)(lambda ctx, c=_c: power_limit(ctx, c))


PAIR = {
    None: ([SPEEDS, [(70.0, [(300.0, 24000.0, 0.7), (2100.0, 12000.0, 0.75)]), (100.0, [(300.0, 44000.0, 0.7), (2100.0, 24000.0, 0.72)])]], (95.0, 110.0, 128.0)),
    "one speed": ([ONE, [(1.0, [(300.0, 44000.0, 0.7), (2100.0, 24000.0, 0.72)])]], (100.0, 115.0, 128.0)),
}


def limit_of_two(ctx, control, variable):
    """the train is valid below the maximum rate at lower pressures, and not valid above it at higher ones"""
    from checks.fluid import fluid_model, patched

    ctx.exact_roots()
    ctx.fork_minmax()
    charts, pds = PAIR[None if variable else "one speed"]
    equal = control == "INDIVIDUAL_ASV_PRESSURE"
    ps, pd = 50.0, ctx.choice("pd", pds[1:] if variable and (equal or control is None) else pds)  # without choking the pressure may be too high at low rates
    temps = ctx.choice("temperatures", [[300.0, 330.0], [330.0, 290.0]])
    drop = ctx.choice("pressure drop", [0.0, 4.0])
    kw = {"maximum_power": ctx.choice("maximum power", [1.2, 2.2])} if drop else {}
    make = lambda: make_train(charts, control, variable=variable, drops=[drop, 0.0], temps=temps, svc=service(thermal=True), **kw)  # noqa: E731
    train = make()
    train._fluid_model = [fluid_model()]
    with patched():
        limit = float(train.get_max_standard_rate(ctx.array([ps]), ctx.array([pd]))[0])
    share = ctx.choice("share of the maximum rate", [0.99, 1.01, 0.6, 1.3])
    wide = 0.02 if kw else 2.0  # by how much the pressure changes
    q = limit * share if limit else 5e6 * share
    near = ctx.real("discharge pressure", pd - wide, pd) if q < limit else ctx.real("discharge pressure", pd, pd + wide)
    r = run(ctx, make(), [q], [ps], [near])
    ok = bool(r.get_energy_result().is_valid[0])
    if q < limit:
        if not equal or variable:  # at one speed the stages may be unable to share the pressure ratio
            ctx.check(ok, f"valid below the maximum rate: {status(r)}")
    else:
        ctx.check(not ok, "not valid above the maximum rate")


for _c in [None, *CONTROLS[1:]]:
    for _v in (False, True):
        if _c or _v:
            _n = f"limit_of_two_{(_c or 'no_control').lower()}{'_variable_speed' if _v else ''}"
            globals()[_n] = harness(f"two compressors at {'variable' if _v else 'one'} speed, {_c}, at different temperatures, 3 discharge pressures, with and without pressure drop and maximum power: valid below the maximum rate at every lower pressure in a range, not valid above it at every higher one", name=_n, budget_s=60)(lambda ctx, c=_c, v=_v: limit_of_two(ctx, c, v))
