"""C22: compressor trains meet the requested pressures within their charts, or say why they cannot."""

from checks.c13 import same_bool
from checks.c21 import line
from checks.fluid import DENSITY_PER_BAR, HEAD_PER_BAR, fluid_model, patched, service
from checks.trains import CONTROLS, ONE, TIGHT, TO_MASS, WIDE, Stage, consistent, forward, make_train, run, status
from engine.runner import harness

ASSUMPTIONS = [
    "the gas follows a simple law (density proportional to pressure, enthalpy to temperature, pressure rise proportional to head) instead of NeqSim's",
    "scipy's brenth returns a point within its tolerance of a root",
]
OUTSIDE = "NeqSim thermodynamics; trains of more than 3 stages"

@harness("one compressor, one speed, every pressure control; symbolic rate and discharge pressure", budget_s=120, max_paths=3000)
def fixed_speed(ctx):
    ctx.exact_roots()
    ctx.fork_minmax()
    control = ctx.choice("control", CONTROLS)
    ps = 50.0
    rho = DENSITY_PER_BAR * ps
    q = ctx.real("q", 1, 3500)
    pd = ctx.real("pd", 51, 120)
    for lim in (1000.0, 3000.0):
        ctx.assume(ctx.Or(q >= lim + 0.1, q <= lim - 0.1))
    pts = ONE[0][1]
    xs, hs, es = ([p[k] for p in pts] for k in range(3))
    x = q
    if q < 1000:
        x = 1000.0 if not ctx.symbolic else ctx.real("x", 1000, 1000)
    h = line(ctx, x, xs, hs)
    top = ps + h / HEAD_PER_BAR
    ctx.assume(ctx.Or(pd <= top * (1 - 2e-3), ctx.And(pd >= top * (1 - 1e-4), pd <= top * (1 + 1e-4)), pd >= top * (1 + 2e-3)))
    bottom = ps + hs[-1] / HEAD_PER_BAR
    ctx.assume(ctx.Or(pd <= bottom * (1 - 2e-3), pd >= bottom))
    train = make_train([ONE], None if control == "NONE" else control)
    r = run(ctx, train, [q * rho / TO_MASS], [ps], [pd])
    got = status(r)
    s = Stage(r, 0)
    ok = r.get_energy_result().is_valid[0]
    if q > 3000:
        ctx.check(got == "ABOVE_MAXIMUM_FLOW_RATE", f"above the stone wall: {got}")
        ctx.check(not ok, "above the stone wall is not valid")
        return
    energy = r.get_energy_result()
    ctx.check(energy.power.values[0] == energy.energy_usage.values[0], "energy usage is power")
    ctx.eq(energy.power.values[0], s.power, "power is the stage's")
    out = r.outlet_stream.pressure[0]
    if top < pd * (1 - 1e-3):
        ctx.check(got == "TARGET_DISCHARGE_PRESSURE_TOO_HIGH", f"pressure cannot be reached: {got}")
        ctx.check(not ok, "unreachable pressure is not valid")
        consistent(ctx, s, pts, q * rho)
        return
    if top <= pd * (1 + 1e-3):
        ctx.check(got == "NO_FAILURE", f"pressure met without control: {got}")
    elif control == "NONE":
        ctx.check(got == "TARGET_DISCHARGE_PRESSURE_TOO_LOW", f"no pressure control: {got}")
        ctx.check(not ok, "too high a pressure is not valid")
        consistent(ctx, s, pts, q * rho)
        return
    elif control == "DOWNSTREAM_CHOKE":
        ctx.check(got == "NO_FAILURE", f"downstream choke reaches any lower pressure: {got}")
        ctx.eq(s.p_in, ps, "suction pressure")
        ctx.eq(s.mass, x * rho, "no recirculation beyond the minimum flow", rtol=1e-6)
    elif control == "UPSTREAM_CHOKE":
        # at the stone wall the choked suction pressure gives the lowest discharge pressure
        p_wall = q * ps / 3000.0
        low = p_wall + hs[-1] / HEAD_PER_BAR
        ctx.assume(ctx.Or(pd >= low * (1 + 1e-4), pd <= low * (1 - 1e-4)))
        if pd < low:
            ctx.check(got != "NO_FAILURE", "choked flow exceeds the stone wall")
            ctx.check(not ok, "choked flow exceeds the stone wall: not valid")
            return
        ctx.check(got == "NO_FAILURE", f"upstream choke: {got}")
        ctx.check(ctx.And(s.p_in <= ps, s.p_in > 0), "suction pressure is reduced")
        ctx.eq(s.mass, ctx.max(q * rho, 1000 * DENSITY_PER_BAR * s.p_in), "no recirculation beyond the minimum flow", rtol=1e-6)
        ctx.eq(r.inlet_stream.pressure[0], ps, "the train's inlet pressure is the requested suction pressure")
    else:
        if pd < bottom:
            ctx.check(got == "TARGET_DISCHARGE_PRESSURE_TOO_LOW", f"recirculation cannot lower the pressure enough: {got}")
            ctx.check(not ok, "too high a pressure is not valid")
            return
        ctx.check(got == "NO_FAILURE", f"recirculation: {got}")
        ctx.eq(s.p_in, ps, "suction pressure")
    ctx.check(ok, "valid")
    ctx.eq(out, pd, "outlet pressure meets the request", rtol=2.5e-3)
    if control not in ("DOWNSTREAM_CHOKE",):
        ctx.eq(s.p_out, out, "the stage's outlet pressure is the train's")
    consistent(ctx, s, pts, q * rho)


def two_stages(ctx, control):
    ctx.exact_roots()
    ctx.fork_minmax()
    second = ctx.choice("second", ["wide", "tight"])
    charts = [ONE, {"wide": WIDE, "tight": TIGHT}[second]]
    ps = 50.0
    rho = DENSITY_PER_BAR * ps
    qs = [700.0, 1900.0, 2600.0, 300.0, 1200.0, 2100.0, 2990.0, 3100.0]
    if not ctx.thorough:
        qs = ([700.0] if second == "tight" else [1900.0]) if control == "COMMON_ASV" else qs[:3]
    q = ctx.choice("q", qs)
    pd = ctx.real("pd", 51, 145)
    drop = 2.0 if second == "tight" else 0.0
    top = forward(ctx, q * rho, ps, charts, (0.0, drop))
    if top is not None:
        ctx.assume(ctx.Or(pd <= top * (1 - 2e-3), pd >= top * (1 + 2e-3)))
    train = make_train(charts, control, drops=[0.0, drop])
    r = run(ctx, train, [q * rho / TO_MASS], [ps], [pd])
    got = status(r)
    ok = r.get_energy_result().is_valid[0]
    ctx.check(ok == (got == "NO_FAILURE"), "valid exactly when there is no failure")
    if q > 3000:
        ctx.check(got == "ABOVE_MAXIMUM_FLOW_RATE", f"above the stone wall: {got}")
        return
    a, b = Stage(r, 0), Stage(r, 1)
    if top is None:
        ctx.check(not ok, "the second stage's stone wall")
        return
    if pd > top:
        ctx.check(got == "TARGET_DISCHARGE_PRESSURE_TOO_HIGH", f"pressure cannot be reached: {got}")
    if not ok:
        return
    consistent(ctx, a, charts[0][0][1], q * rho, tag="first")
    consistent(ctx, b, charts[1][0][1], q * rho, tag="second")
    ctx.eq(b.p_in, a.p_out - drop, "second stage takes the first one's gas", rtol=1e-9)
    ctx.eq(r.get_energy_result().power.values[0], a.power + b.power, "power is the sum of the stages'")
    ctx.eq(r.outlet_stream.pressure[0], pd, "outlet pressure meets the request", rtol=2.5e-3)
    ctx.eq(r.inlet_stream.pressure[0], ps, "inlet pressure")
    if control == "UPSTREAM_CHOKE":
        ctx.check(a.p_in <= ps, "suction pressure reduced")
    else:
        ctx.eq(a.p_in, ps, "suction pressure")
    if control != "DOWNSTREAM_CHOKE":
        ctx.eq(b.p_out, pd, "last stage reaches the discharge pressure", rtol=2.5e-3)
    if control == "COMMON_ASV":
        ctx.eq(a.mass, b.mass, "the same mass goes through all stages", rtol=1e-6)
    if control == "INDIVIDUAL_ASV_PRESSURE":
        # a stage which cannot get to its share even at its largest flow, or without recirculation, stays there
        stuck = [ctx.Or(u.x >= c[0][1][-1][0] * (1 - 1e-6), u.x <= u.x_net * (1 + 1e-6), u.x <= c[0][1][0][0] * (1 + 1e-6)) for u, c in ((a, charts[0]), (b, charts[1]))]
        ctx.check(ctx.Or(stuck[0], ctx.near(a.p_out * a.p_out, pd * ps, rtol=5e-3)), "pressure ratio of the first stage")
        if drop == 0:
            ctx.check(ctx.Or(stuck[0], stuck[1], ctx.near(b.p_out * a.p_in, a.p_out * b.p_in, rtol=5e-3)), "equal pressure ratios")
    if control == "INDIVIDUAL_ASV_RATE":
        for u, v in ((a, b), (b, a)):
            lo, hi = (charts[0] if u is a else charts[1])[0][1][0][0], (charts[0] if u is a else charts[1])[0][1][-1][0]
            lo2, hi2 = (charts[0] if v is a else charts[1])[0][1][0][0], (charts[0] if v is a else charts[1])[0][1][-1][0]
            # fraction of the available capacity, where the minimum flow does not require more
            f, g = (u.x - u.x_net) * (hi2 - v.x_net), (v.x - v.x_net) * (hi - u.x_net)
            ctx.check(ctx.Or(f <= g * (1 + 1e-4) + 1, u.x <= lo * (1 + 1e-6)), "the same share of the available capacity")
    if control in ("DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE"):
        for u, c in ((a, charts[0]), (b, charts[1])):
            ctx.check(ctx.Or(u.x <= u.x_net * (1 + 1e-6), u.x <= c[0][1][0][0] * (1 + 1e-6)), "no recirculation beyond the minimum flow")


def _two(control):
    @harness(f"two compressors, one speed, {control}; symbolic discharge pressure; 3 rates (8 thorough); 2 second stages, one with a pressure drop ahead of it",
             name=f"two_stages_{control.lower()}", budget_s=150, max_paths=3000)
    def check(ctx):
        two_stages(ctx, control)

    return check


for _c in CONTROLS[1:]:
    globals()[f"two_stages_{_c.lower()}"] = _two(_c)


@harness("one compressor with a pressure drop and a cooler ahead of it, individual pressures; density follows temperature; symbolic rate and discharge pressure", budget_s=60, max_paths=3000)
def stage_recirculation(ctx):
    from libecalc.process.fluid_stream.fluid_stream import FluidStream

    ctx.exact_roots()
    ctx.fork_minmax()
    drop, svc = ctx.choice("drop", [0.0, 10.0]), service(thermal=True)
    ps = 50.0 - drop
    rho = DENSITY_PER_BAR * ps * 300.0 / 320.0
    q = ctx.real("q", 1, 2990)
    ctx.assume(ctx.Or(q >= 1001, q <= 999))
    pd = ctx.real("pd", 51, 120)
    pts = ONE[0][1]
    xs, hs = [p[0] for p in pts], [p[1] for p in pts]
    top = ps + line(ctx, ctx.ite(q < 1000, 1000.0, q), xs, hs) / HEAD_PER_BAR
    low = ps + hs[-1] / HEAD_PER_BAR
    ctx.assume(ctx.And(*[ctx.Or(pd <= v * (1 - 1e-3), pd >= v * (1 + 1e-3)) for v in (top, low)]))
    (stage,) = make_train([ONE], "INDIVIDUAL_ASV_PRESSURE", drops=[drop], temps=[320.0], svc=svc).stages
    with patched():
        stage.compressor._shaft.set_speed(1.0)
        r = stage.evaluate_given_speed_and_target_discharge_pressure(FluidStream(fluid=svc.create_fluid(fluid_model(), 50.0, 290.0), mass_rate_kg_per_h=q * rho), pd)
    x = r.inlet_stream_including_asv.volumetric_rate_m3_per_hour
    if pd > top:
        ctx.eq(r.discharge_pressure, top, "as high as it gets", rtol=1e-5)
    elif pd < low:
        ctx.eq(x, 3000, "as much recirculation as possible", rtol=1e-5)
        ctx.eq(r.discharge_pressure, low, "as low as it gets", rtol=1e-5)
    else:
        ctx.eq(r.discharge_pressure, pd, "the pressure asked for", rtol=1e-3)
        ctx.check(ctx.And(x >= q * (1 - 1e-6), x <= 3000 * (1 + 1e-6)), "recirculation within the chart")
    ctx.eq(r.inlet_stream.mass_rate_kg_per_h, q * rho, "the stage's own gas", rtol=1e-9)
    ctx.eq(r.outlet_stream.mass_rate_kg_per_h, q * rho, "the stage's own gas leaves", rtol=1e-6)
    ctx.eq(r.power_megawatt * 3.6e6 * r.polytropic_efficiency, r.polytropic_head_kJ_per_kg * r.inlet_stream_including_asv.mass_rate_kg_per_h, "power", rtol=1e-6)


@harness("as two_stages with a wide second stage: the discharge pressures that can be reached are", budget_s=60, max_paths=3000)
def reachable(ctx):
    ctx.exact_roots()
    ctx.fork_minmax()
    control = ctx.choice("control", ["DOWNSTREAM_CHOKE", "COMMON_ASV", "INDIVIDUAL_ASV_RATE"])
    ps = 50.0
    rho = DENSITY_PER_BAR * ps
    q = ctx.choice("q", [400.0, 1000.5, 1700.0, 2400.0])
    pd = ctx.real("pd", 51, 150)
    charts = [ONE, WIDE]
    top = forward(ctx, q * rho, ps, charts)
    low = {"DOWNSTREAM_CHOKE": 51.0, "COMMON_ASV": forward(ctx, 2999.999 * rho, ps, charts), "INDIVIDUAL_ASV_RATE": 85.0}[control]
    ctx.assume(ctx.Or(pd <= top * (1 - 2e-3), pd >= top * (1 + 2e-3)))
    ctx.assume(ctx.Or(pd <= low * (1 - 2e-3), pd >= low * (1 + 1e-3)))
    if control == "COMMON_ASV":
        natural, top = top, forward(ctx, max(q, 1000.0) * rho, ps, charts)
        ctx.assume(ctx.Or(pd <= top * (1 - 2e-3), pd >= top * (1 + 2e-3)))
    train = make_train(charts, control)
    r = run(ctx, train, [q * rho / TO_MASS], [ps], [pd])
    got = status(r)
    want = "TARGET_DISCHARGE_PRESSURE_TOO_HIGH" if pd > top else "NO_FAILURE" if pd >= low else "TARGET_DISCHARGE_PRESSURE_TOO_LOW"
    ctx.check(got == want, f"{got} instead of {want}")


@harness("one and two compressors, every pressure control; 3 rates, 4 discharge pressures; symbolic maximum power, power adjustment factor and constant", budget_s=120, max_paths=3000)
def power(ctx):
    ctx.exact_roots()
    ctx.fork_minmax()
    control = ctx.choice("control", CONTROLS[1:])
    ps = 50.0
    rho = DENSITY_PER_BAR * ps
    q = ctx.choice("q", [500.0, 1300.0, 2400.0])
    charts = ctx.choice("stages", [[ONE], [ONE, WIDE]])
    pd = ctx.choice("pd", [72.0, 85.0, 96.0, 99.5] if len(charts) == 1 else [101.0, 106.0, 112.0])
    limit = ctx.real("maximum power", 0.1, 5)
    factor, constant = ctx.real("factor", 0.5, 1.5), ctx.real("constant", 0, 2)
    train = make_train(charts, control, maximum_power=limit, factor=factor, constant=constant)
    r = run(ctx, train, [q * rho / TO_MASS], [ps], [pd])
    total = sum(Stage(r, i).power for i in range(len(charts)))
    ctx.assume(ctx.Or(total >= limit * (1 + 1e-6), total <= limit * (1 - 1e-6)))
    ctx.eq(r.get_energy_result().power.values[0], total * factor + constant, "adjusted power")
    ctx.eq(r.get_energy_result().energy_usage.values[0], total * factor + constant, "energy usage is the adjusted power")
    free = run(ctx, make_train(charts, control), [q * rho / TO_MASS], [ps], [pd])
    ctx.eq(sum(Stage(free, i).power for i in range(len(charts))), total, "a limit on the power does not change the operation")
    if status(free) != "NO_FAILURE":
        ctx.same(status(r), status(free), "failure without a limit on the power")
    elif total > limit:
        ctx.same(status(r), "ABOVE_MAXIMUM_POWER", "more power than allowed")
    else:
        ctx.same(status(r), "NO_FAILURE", "power within its limit")
    same_bool(ctx, r.get_energy_result().is_valid[0], status(r) == "NO_FAILURE", "valid exactly when there is no failure")


@harness("one and two compressors with a highest discharge pressure and downstream choke; symbolic discharge pressure; 3 rates, 2 limits, 3 maximum powers", budget_s=120, max_paths=3000)
def highest_discharge_pressure(ctx):
    ctx.exact_roots()
    ctx.fork_minmax()
    n = ctx.choice("stages", [1, 2])
    charts = [ONE, WIDE][:n]
    ps = 50.0
    rho = DENSITY_PER_BAR * ps
    q = ctx.choice("q", [600.0, 1400.0, 2100.0])
    limit = ctx.choice("limit", [[85.0, 93.0], [102.0, 115.0]][n - 1])
    pd = ctx.real("pd", 51, 150)
    ctx.assume(pd <= limit)
    natural = forward(ctx, q * rho, ps, charts)
    ctx.assume(ctx.Or(pd <= natural * (1 - 2e-3), pd >= natural * (1 + 2e-3)))
    most = ctx.choice("maximum power", [None, 0.6, 1.5])
    train = make_train(charts, "DOWNSTREAM_CHOKE", maximum_discharge_pressure=limit, maximum_power=most)
    r = run(ctx, train, [q * rho / TO_MASS], [ps], [pd])
    stages = [Stage(r, i) for i in range(n)]
    got = status(r)
    if pd > natural:
        ctx.same(got, "TARGET_DISCHARGE_PRESSURE_TOO_HIGH", "pressure cannot be reached")
        return
    ctx.check(stages[-1].p_out <= limit * (1 + 2e-3), "the compressors stay below the highest discharge pressure")
    if all(s.valid for s in stages):
        total = sum(s.power for s in stages)
        ctx.assume(most is None or ctx.Or(total >= most * (1 + 1e-5), total <= most * (1 - 1e-5)))
        if most is not None and total > most:
            ctx.same(got, "ABOVE_MAXIMUM_POWER", "more power than allowed")
        else:
            ctx.same(got, "NO_FAILURE", "pressure met")
        ctx.eq(r.outlet_stream.pressure[0], pd, "outlet pressure meets the request", rtol=2.5e-3)
        for s, c in zip(stages, charts):
            consistent(ctx, s, c[0][1], q * rho)
        if natural < limit * (1 - 2e-3):
            ctx.eq(stages[0].p_in, ps, "no choking of the suction pressure below the limit")
        elif natural > limit * (1 + 2e-3):
            ctx.eq(stages[-1].p_out, limit, "suction pressure is choked no more than needed", rtol=2.5e-3)
    else:
        ctx.check(got in ("ABOVE_MAXIMUM_FLOW_RATE", "BELOW_MINIMUM_FLOW_RATE"), f"{got} when a compressor is outside its chart")
        ctx.check(natural > limit * (1 - 2e-3), "without choking the compressors are inside their charts")


@harness("two compressors; four time steps (zero rate, within the chart, recirculating, above the stone wall; symbolic pressures) in every order: each as if alone", budget_s=120, max_paths=3000)
def time_steps(ctx):
    ctx.exact_roots()
    ctx.fork_minmax()
    control = ctx.choice("control", CONTROLS)
    ps = 50.0
    rho = DENSITY_PER_BAR * ps
    qs = [0.0, 1700.0, 350.0, 3500.0]
    first, second = ctx.choice("order", [(0, 1), (1, 0), (2, 1), (1, 2), (2, 0), (3, 1), (0, 2), (1, 3)])
    control = None if control == "NONE" else control
    pd = {k: ctx.choice(f"pd {k}", [104.0, 112.0]) for k in sorted((first, second))}
    power_limit = ctx.real("maximum power", 0.2, 4)
    std = lambda q: q * rho / TO_MASS  # noqa: E731
    kw = {"maximum_power": power_limit}
    both = run(ctx, make_train([ONE, WIDE], control, **kw), [std(qs[first]), std(qs[second])], [ps, ps], [pd[first], pd[second]])
    for t, k in enumerate((first, second)):
        one = run(ctx, make_train([ONE, WIDE], control, **kw), [std(qs[k])], [ps], [pd[k]])
        ctx.same(status(both, t), status(one), "failure as if alone")
        e, f = both.get_energy_result(), one.get_energy_result()
        ctx.check(bool(e.is_valid[t]) == bool(f.is_valid[0]), "validity as if alone")
        ctx.eq(e.power.values[t], f.power.values[0], "power as if alone")
        for i in range(2):
            for name in ("power", "polytropic_head_kJ_per_kg", "mass_rate_kg_per_hr", "asv_recirculation_loss_mw", "speed"):
                ctx.eq(getattr(both.stage_results[i], name)[t], getattr(one.stage_results[i], name)[0], f"stage {name} as if alone")
        if qs[k] == 0:
            ctx.check(e.power.values[t] == 0, "no power without flow")
            ctx.check(e.is_valid[t], "no flow is valid")
            ctx.same(status(both, t), "NO_FAILURE", "no flow does not fail")
        if qs[k] > 3000:
            ctx.same(status(both, t), "ABOVE_MAXIMUM_FLOW_RATE", "above the stone wall")
