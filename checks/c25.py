"""C25: the process solver's solution, put to use, meets the target pressure inside the compressors' charts; it fails only when nothing does."""

from checks.c21 import line
from checks.c24 import SECOND, SLOPED, SPEEDS, THREE, at_speed, on
from checks.fluid import DENSITY_PER_BAR, HEAD_PER_BAR, patched, service
from checks.psolver import PRESSURE_CONTROLS, System, failure
from checks.trains import TO_MASS
from engine.runner import harness

ASSUMPTIONS = [
    "the gas follows a simple law (density proportional to pressure, enthalpy to temperature, pressure rise proportional to head) instead of NeqSim's",
    "scipy's brenth returns a root, not necessarily as the last point it tries",
]
OUTSIDE = "NeqSim thermodynamics and its failures; more than 3 sections; sections with mixers and splitters (C26)"

PS = 50.0
RHO = DENSITY_PER_BAR * PS


def clear(ctx, pd, *limits, margin=2e-3):
    for v in limits:
        ctx.assume(ctx.Or(pd <= v * (1 - margin), pd >= v * (1 + margin)))


EARLIER = [None, (300.0, 55.0), (1500.0, 52.0), (1500.0, 90.0), (2900.0, 60.0), (500.0, 200.0)]


def used_before(ctx, system, which=None):
    """the system may have been used for something else before"""
    e = ctx.choice("earlier", which or (EARLIER if ctx.thorough else EARLIER[:2]))
    if e is not None:
        st = system.stream(e[0], PS)
        s = system.solve(e[1], st)
        if s.success:
            system.operate(s, st)


def inlets_inside(ctx, system, inlets, speed, charts):
    """every compressor runs inside its chart; its flow at the inlet"""
    out = []
    for s, c in zip(inlets, charts):
        pts = at_speed(ctx, c, speed) if len(c) > 1 else c[0][1]
        xs = [line(ctx, speed, [v[0] for v in c], [v[1][k][0] for v in c]) for k in (0, -1)]
        x = s.volumetric_rate_m3_per_hour
        ctx.check(ctx.And(x >= xs[0] * (1 - 1e-6), x <= xs[1] * (1 + 1e-6)), "flow inside the chart")
        out.append((x, pts))
    return out


def one(ctx, control, chart):
    ctx.exact_roots(last_probe=True)
    ctx.fork_minmax()
    lo, hi = chart[0][1], chart[-1][1]
    x0, x1 = lo[0][0], lo[-1][0]
    q = ctx.choice("flow", [300.0, 1500.0, 2900.0] if not ctx.thorough else [300.0, 800.0, 1500.0, 2400.0, 2800.0, 2900.0])
    x = max(q, x0)
    pd = ctx.real("pd", 51, 115)
    top, bottom = (PS + on(pts, x) / HEAD_PER_BAR for pts in (hi, lo))
    wall = PS + lo[-1][1] / HEAD_PER_BAR
    clear(ctx, pd, top, bottom, wall)
    system = System([chart], control)
    with patched():
        used_before(ctx, system)
        st = system.stream(q, PS)
        s = system.solve(pd, st)
        got = failure(s)
        if q > x1:
            ctx.check(got == "CompressorStonewallFailure", f"more than the largest flow: {got}")
            return
        if pd > top:
            ctx.check(got == "TargetPressureUnreachableFailure.MAX_BELOW_TARGET", f"above the pressure reached at the highest speed: {got}")
            if not s.success:
                ctx.eq(s.failure.achievable_pressure_bara, top, "the achievable pressure is that of the highest speed", rtol=1e-6)
                ctx.eq(s.failure.target_pressure_bara, pd, "the target pressure is reported", rtol=1e-9)
            return
        if pd < bottom and "ASV" in control and pd < wall:
            ctx.check(got == "TargetPressureUnreachableFailure.MIN_ABOVE_TARGET", f"recirculation reaches no pressure below that of the largest flow: {got}")
            if not s.success:
                ctx.eq(s.failure.achievable_pressure_bara, wall, "the achievable pressure is that of the largest flow", rtol=1e-4)
            return
        if pd < bottom and control == "UPSTREAM_CHOKE":
            # thinning the gas reaches the wall at the largest flow
            p = pd - lo[-1][1] / HEAD_PER_BAR
            limit = q * PS / p if p > 0 else None
            if limit is None or limit > x1:
                ctx.check(not s.success or (limit is not None and limit <= x1 * 1.01), "the thinned gas does not fit")
                return
            if limit > x1 * 0.99:
                return
        ctx.check(s.success, f"reachable: {got}")
        if not s.success:
            return
        inlets, out = system.operate(s, st)
    ctx.eq(out.pressure_bara, pd, "outlet pressure meets the target", rtol=2e-5, atol=1.1e-3)
    ctx.eq(out.mass_rate_kg_per_h, st.mass_rate_kg_per_h, "what enters leaves", rtol=1e-9)
    speed = system.speed(s)
    ((flow, pts),) = inlets_inside(ctx, system, inlets, speed, [chart])
    rec, dp = system.recirculation(s), system.choking(s)
    ctx.check(rec >= 0, "recirculation cannot be negative")
    ctx.check(dp >= 0, "choking cannot be negative")
    if pd >= bottom:
        if len(chart) == 2:
            ctx.eq(speed, chart[0][0] + (pd - bottom) / (top - bottom) * (chart[1][0] - chart[0][0]), "speed", rtol=1e-3)
        ctx.eq(dp, 0, "no choking when the speed is enough", atol=1.1e-3)
        ctx.eq(flow, x, "recirculates no more than up to the smallest flow", rtol=1e-5)
    else:
        ctx.eq(speed, chart[0][0], "the lowest speed when it is more than enough", rtol=1e-6)
        if control == "DOWNSTREAM_CHOKE":
            ctx.eq(flow, x, "recirculates no more than up to the smallest flow", rtol=1e-5)
            ctx.eq(dp, bottom - pd, "choking", rtol=1e-4)
        if control == "UPSTREAM_CHOKE":
            own = q * PS / (PS - dp)
            ctx.eq(flow, own if own >= x0 else x0, "recirculates no more than up to the smallest flow", rtol=1e-4)


for _c in PRESSURE_CONTROLS:
    for _m, _chart in (("", SPEEDS), ("_3_speeds", THREE)):
        _n = f"one_compressor{_m}_{_c.lower()}"
        globals()[_n] = harness(f"one compressor of {len(_chart)} curves, {_c}; flows below, in and above the chart; every target pressure; used before or not", name=_n, budget_s=60, max_paths=2000)(
            lambda ctx, c=_c, h=_chart: one(ctx, c, h)
        )


def every_flow(ctx, control, chart):
    """the flow varies, the target is one of a few"""
    ctx.exact_roots(last_probe=True)
    ctx.fork_minmax()
    q = ctx.real("flow", 100, 3200)
    pd = ctx.choice("pd", [60.0, 70.0, 78.0, 90.0, 104.0, 112.0])
    lo, hi = chart[0][1], chart[-1][1]
    x0, x1 = lo[0][0], lo[-1][0]
    ctx.assume(ctx.Or(q <= x1 * 0.999, q >= x1 * 1.001))
    x = ctx.ite(q > x0, q, x0)
    xs = [p[0] for p in lo]
    top, bottom = (PS + line(ctx, x, xs, [p[1] for p in pts]) / HEAD_PER_BAR for pts in (hi, lo))
    clear(ctx, pd, top, bottom)
    system = System([chart], control)
    with patched():
        st = system.stream(q, PS)
        s = system.solve(pd, st)
        got = failure(s)
        if q > x1:
            ctx.check(got == "CompressorStonewallFailure", f"more than the largest flow: {got}")
            return
        if pd > top:
            ctx.check(got == "TargetPressureUnreachableFailure.MAX_BELOW_TARGET", f"above the pressure reached at the highest speed: {got}")
            return
        if pd < bottom and "ASV" in control and pd < PS + lo[-1][1] / HEAD_PER_BAR:
            ctx.check(got == "TargetPressureUnreachableFailure.MIN_ABOVE_TARGET", f"recirculation reaches no pressure below that of the largest flow: {got}")
            return
        ctx.check(s.success, f"reachable: {got}")
        if not s.success:
            return
        inlets, out = system.operate(s, st)
    ctx.eq(out.pressure_bara, pd, "outlet pressure meets the target", rtol=2e-5, atol=1.1e-3)
    ctx.eq(out.mass_rate_kg_per_h, st.mass_rate_kg_per_h, "what enters leaves", rtol=1e-9)
    speed = system.speed(s)
    ((flow, _),) = inlets_inside(ctx, system, inlets, speed, [chart])
    if pd >= bottom or control == "DOWNSTREAM_CHOKE":
        ctx.eq(flow, x, "recirculates no more than up to the smallest flow", rtol=1e-5)


for _c in ("DOWNSTREAM_CHOKE", "COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"):
    _n = f"every_flow_{_c.lower()}"
    globals()[_n] = harness(f"one compressor of 2 curves, {_c}; every flow; 6 target pressures", name=_n, budget_s=60, max_paths=2000)(lambda ctx, c=_c: every_flow(ctx, c, SPEEDS))


def reach(charts, speed_pts, q, recirculate, drops=(0.0, 0.0), dense=None):
    """(outlet pressure, inside the charts) of compressors in a row at one speed, each recirculating as little or as much as it can, or all the given mass"""
    p, ok = PS, True
    for pts, d in zip(speed_pts, drops):
        p -= d
        x = q * RHO / (dense or DENSITY_PER_BAR * p)
        if recirculate == "least":
            x = max(x, pts[0][0])
        elif recirculate == "most":
            x = max(x, pts[-1][0])
        ok = ok and pts[0][0] <= x <= pts[-1][0]
        p += on(pts, x) / HEAD_PER_BAR
    return p, ok


def two(ctx, control, charts):
    ctx.exact_roots(last_probe=control != "INDIVIDUAL_ASV_PRESSURE")
    ctx.fork_minmax()
    q = ctx.choice("flow", [600.0, 1700.0] if not ctx.thorough else [300.0, 600.0, 1000.0, 1700.0, 2300.0])
    drop = ctx.choice("drop", [0.0, 5.0])
    drops = (0.0, drop)
    pd = ctx.real("pd", 60, 180)
    lowest, highest = max(c[0][0] for c in charts), min(c[-1][0] for c in charts)
    # the gas's density is constant where the equations are out of reach otherwise
    dense = RHO if control in ("UPSTREAM_CHOKE", "COMMON_ASV") else None
    curves = {s: [[tuple(float(v) for v in p) for p in at_speed(ctx, c, s)] for c in charts] for s in (lowest, highest)}
    top, in1 = reach(charts, curves[highest], q, "least", drops, dense)
    bottom, in0 = reach(charts, curves[lowest], q, "least", drops, dense)
    wall, _ = reach(charts, curves[lowest], q, "most", drops, dense)
    clear(ctx, pd, top, bottom, wall)
    system = System(charts, control, drops=drops, svc=service(constant_density=dense))
    with patched():
        used_before(ctx, system)
        st = system.stream(q, PS)
        s = system.solve(pd, st)
        got = failure(s)
        individual = control != "COMMON_ASV"
        if individual and in1 and pd > top:
            ctx.check(got == "TargetPressureUnreachableFailure.MAX_BELOW_TARGET", f"above the pressure reached at the highest speed: {got}")
        elif individual and in0 and in1 and pd >= bottom:
            ctx.check(s.success, f"reached by changing speed: {got}")
        elif control == "DOWNSTREAM_CHOKE" and in0 and in1:
            ctx.check(s.success, f"reached by choking: {got}")
        elif control == "INDIVIDUAL_ASV_RATE" and in0 and in1:
            ctx.check(s.success if pd > wall else got == "TargetPressureUnreachableFailure.MIN_ABOVE_TARGET", f"reached by recirculation down to the pressure of the largest flows: {got}")
        if not s.success:
            return
        inlets, out = system.operate(s, st)
    ctx.eq(out.pressure_bara, pd, "outlet pressure meets the target", rtol=2e-5, atol=2e-3)
    ctx.eq(out.mass_rate_kg_per_h, st.mass_rate_kg_per_h, "what enters leaves", rtol=1e-9)
    speed = system.speed(s)
    ctx.check(ctx.And(speed >= lowest * (1 - 1e-9), speed <= highest * (1 + 1e-9)), "speed within the charts")
    ctx.check(all(c.speed is speed or bool(c.speed == speed) for c in system.compressors), "one shaft")
    flows = inlets_inside(ctx, system, inlets, speed, charts)
    if control == "INDIVIDUAL_ASV_PRESSURE" and in0 and pd < bottom:
        ratio = (inlets[1].pressure_bara + drop) / PS
        ctx.eq(ratio * ratio, pd / PS, "equal pressure ratios", rtol=1e-3)
    if individual and pd >= bottom:
        for (x, pts), i, c in zip(flows, inlets, charts):
            own = st.mass_rate_kg_per_h / i.density
            x0 = c[0][1][0][0]
            ctx.eq(x, own if own >= x0 else x0, "recirculates no more than up to the smallest flow", rtol=1e-5)


for _c in PRESSURE_CONTROLS:
    _n = f"two_compressors_{_c.lower()}"
    globals()[_n] = harness(f"two compressors on one shaft with different speed ranges, {_c}; with and without pressure drop; every target pressure; used before or not", name=_n, budget_s=90, max_paths=2000)(
        lambda ctx, c=_c: two(ctx, c, [SPEEDS, SECOND])
    )


def in_turn(ctx, systems, solution, st):
    """the sections one after the other, each operated with its part of the solution"""
    from libecalc.process.process_solver.solver import Solution

    pressures, flows = [], []
    for s in systems:
        ids = {h.get_id() for h in (s.shaft, *s.handlers)}
        part = Solution(configuration=[c for c in solution.configuration if c.configuration_handler_id in ids])
        inlets, st = s.operate(part, st)
        pressures.append(st.pressure_bara)
        flows.append(inlets)
    return pressures, flows, st


def own_shafts(ctx, controls, equal):
    from libecalc.process.process_solver.float_constraint import FloatConstraint
    from libecalc.process.process_solver.multi_shaft_equal_ratio_solver import MultiShaftEqualRatioSolver
    from libecalc.process.process_solver.multi_shaft_solver import MultiShaftSolver

    ctx.exact_roots(last_probe=True)
    ctx.fork_minmax()
    charts = [SPEEDS, SECOND]
    q = ctx.choice("flow", [600.0, 1700.0])
    systems = [System([c], k) for c, k in zip(charts, controls)]
    if equal:
        p1 = ctx.choice("p1", [70.0, 84.0, 96.0, 100.0]) if not ctx.thorough else ctx.choice("p1", [float(v) for v in range(56, 118, 4)])
        p2 = p1 * p1 / PS
    else:
        p1 = ctx.real("p1", 51, 115)
        p2 = p1 + ctx.choice("rise", [3.0, 18.0, 30.0])
    x = max(q, 800.0)
    top, bottom = (PS + on(c[1], x) / HEAD_PER_BAR for c in (SPEEDS[1], SPEEDS[0]))
    wall = PS + SPEEDS[0][1][-1][1] / HEAD_PER_BAR
    clear(ctx, p1, top, bottom, wall)
    with patched():
        st = systems[0].stream(q, PS)
        x2 = q * PS / p1  # flow at the second inlet, where the pressure is p1
        x2 = ctx.ite(x2 > 500.0, x2, 500.0)
        if equal:
            s = MultiShaftEqualRatioSolver([v.section for v in systems]).find_solution([FloatConstraint(p2)], st)
        else:
            s = MultiShaftSolver([v.section for v in systems]).find_solution([FloatConstraint(p1), FloatConstraint(p2)], st)
        got = failure(s)
        xs = [p[0] for p in SECOND[0][1]]
        t2, b2 = (p1 + line(ctx, x2, xs, [v[1] for v in c[1]]) / HEAD_PER_BAR for c in (SECOND[1], SECOND[0]))
        w2 = p1 + SECOND[0][1][-1][1] / HEAD_PER_BAR
        clear(ctx, p2, t2, b2, w2)
        low = wall if "ASV" in controls[0] else bottom if controls[0] == "NONE" else 0
        low2 = w2 if "ASV" in controls[1] else 0
        if p1 > top or p1 < low or p2 > t2 or p2 < low2:
            ctx.check(not s.success, "one of the sections cannot reach its target")
            if not s.success and p1 < top and p1 > low:
                # it is the second section that fails, and the failure says so
                f = s.failure
                ctx.check(getattr(f, "source_id", None) == systems[1].section.get_id(), "the failing section is reported")
            return
        ctx.check(s.success, f"reachable: {got}")
        if not s.success:
            return
        pressures, inlets, out = in_turn(ctx, systems, s, st)
    ctx.eq(pressures[0], p1, "the first section's pressure", rtol=2e-5, atol=1.1e-3)
    ctx.eq(pressures[1], p2, "the second section's pressure", rtol=2e-5, atol=2.2e-3)
    ctx.eq(out.mass_rate_kg_per_h, st.mass_rate_kg_per_h, "what enters leaves", rtol=1e-9)
    for v, i, c in zip(systems, inlets, charts):
        inlets_inside(ctx, v, i, v.speed(s), [c])


for _a, _b in (("DOWNSTREAM_CHOKE", "DOWNSTREAM_CHOKE"), ("COMMON_ASV", "INDIVIDUAL_ASV_RATE"), ("INDIVIDUAL_ASV_PRESSURE", "DOWNSTREAM_CHOKE")):
    for _e in (False, True):
        _n = f"own_shafts_{'equal_ratio_' if _e else ''}{_a.lower()}_{_b.lower()}"
        globals()[_n] = harness(f"two sections on a shaft each, {_a} and {_b}; " + ("equal pressure ratios" if _e else "every intermediate pressure"), name=_n, budget_s=60, max_paths=2000)(
            lambda ctx, c=(_a, _b), e=_e: own_shafts(ctx, c, e)
        )


def shared_shaft(ctx, controls, sym):
    from libecalc.process.process_solver.float_constraint import FloatConstraint
    from libecalc.process.process_solver.multi_pressure_solver import MultiPressureSolver
    from libecalc.process.process_solver.pipeline_section import Pipeline
    from libecalc.process.shaft import VariableSpeedShaft

    ctx.exact_roots(last_probe="PRESSURE" not in "".join(controls))
    ctx.fork_minmax()
    charts = [SPEEDS, SECOND]
    q = ctx.choice("flow", [600.0, 1700.0])
    shaft = VariableSpeedShaft()
    systems = [System([c], k, shaft=shaft) for c, k in zip(charts, controls)]
    # the sections share a shaft whose range is what both accept
    for v in systems:
        v.section._speed_boundary = shaft.get_speed_boundary()
    if sym == 1:
        p1, p2 = ctx.real("p1", 62, 115), None
        p2 = p1 + ctx.choice("rise", [16.0, 25.0, 36.0])
    else:
        p1 = ctx.choice("p1", [80.0, 95.0])
        p2 = ctx.real("p2", 85, 145)
    lowest, highest = 75.0, 100.0
    curves = {s: [[tuple(float(v) for v in p) for p in at_speed(ctx, c, s)] for c in charts] for s in (lowest, highest)}
    x = max(q, 800.0)
    top, bottom = (PS + on(curves[s][0], x) / HEAD_PER_BAR for s in (highest, lowest))
    clear(ctx, p1, top, bottom)
    x2 = q * PS / p1
    x2 = ctx.ite(x2 > 500.0, x2, 500.0)
    xs = [p[0] for p in SECOND[0][1]]
    t2, b2 = (p1 + line(ctx, x2, xs, [v[1] for v in curves[s][1]]) / HEAD_PER_BAR for s in (highest, lowest))
    clear(ctx, p2, t2, b2)
    with patched():
        used = ctx.choice("used before", [False, True])
        make = lambda: MultiPressureSolver(Pipeline(process_pipeline_sections=[v.section for v in systems]))  # noqa: E731
        if used:
            st = systems[0].stream(700.0, PS)
            e = make().find_solution([FloatConstraint(85.0), FloatConstraint(95.0)], st)
        st = systems[0].stream(q, PS)
        s = make().find_solution([FloatConstraint(p1), FloatConstraint(p2)], st)
        got = failure(s)
        if p1 > top or p2 > t2:
            ctx.check(not s.success, "one of the sections cannot reach its target")
            return
        speed1 = ctx.ite(p1 > bottom, lowest + (p1 - bottom) / (top - bottom) * (highest - lowest), lowest)
        speed2 = ctx.ite(p2 > b2, lowest + (p2 - b2) / (t2 - b2) * (highest - lowest), lowest)
        if all("CHOKE" in c for c in controls) and p1 >= bottom and p2 >= b2 and speed1 >= speed2:
            ctx.check(s.success, f"reachable with a downstream choke: {got}")
        if not s.success:
            return
        pressures, inlets, out = in_turn(ctx, systems, s, st)
    ctx.eq(pressures[0], p1, "the first section's pressure", rtol=2e-5, atol=1.2e-3)
    ctx.eq(pressures[1], p2, "the second section's pressure", rtol=2e-5, atol=2.4e-3)
    ctx.eq(out.mass_rate_kg_per_h, st.mass_rate_kg_per_h, "what enters leaves", rtol=1e-9)
    speed = systems[0].speed(s)
    for v, i, c in zip(systems, inlets, charts):
        inlets_inside(ctx, v, i, speed, [c])
    need = ctx.ite(speed1 > speed2, speed1, speed2)
    ctx.check(speed >= need * (1 - 1e-4), "no section needs a higher speed")
    if p1 >= bottom and p2 >= b2:
        ctx.eq(speed, need, "the speed is what the section that needs most of it needs", rtol=1e-3)


for _a, _b in (("UPSTREAM_CHOKE", "DOWNSTREAM_CHOKE"), ("COMMON_ASV", "COMMON_ASV"), ("INDIVIDUAL_ASV_RATE", "DOWNSTREAM_CHOKE"), ("INDIVIDUAL_ASV_PRESSURE", "INDIVIDUAL_ASV_RATE")):
    for _s in (1, 2):
        _n = f"shared_shaft_{_a.lower()}_{_b.lower()}_p{_s}"
        globals()[_n] = harness(f"two sections on one shaft, {_a} and {_b}; " + ("every first target pressure" if _s == 1 else "every second target pressure"), name=_n, budget_s=60, max_paths=2000)(
            lambda ctx, c=(_a, _b), k=_s: shared_shaft(ctx, c, k)
        )


def excess(ctx, control):
    """what a train cannot take of a stream is all that keeps it from its target"""
    from libecalc.process.process_solver.feasibility_solver import FeasibilitySolver
    from libecalc.process.process_solver.float_constraint import FloatConstraint

    ctx.exact_roots(last_probe=True)
    ctx.fork_minmax()
    flow = ctx.choice("flow", [700.0, 2500.0, 4000.0])
    pd = ctx.real("pd", *ctx.choice("range", [(78.0, 78.3), (87.0, 87.3), (96.0, 96.3), (111.0, 111.3)] if not ctx.thorough else [(p / 4, p / 4 + 0.25) for p in range(220, 460, 8)]))
    system = System([SPEEDS], control)
    target = FloatConstraint(pd)
    with patched():
        st = system.stream(flow, PS)
        e = FeasibilitySolver(system.solver).get_excess_rate(st, target)
        full = st.standard_rate_sm3_per_day
        ctx.check(ctx.And(e >= 0, e <= full), "no less than nothing and no more than all of it")
        hi = SPEEDS[1][1]
        head = (pd - PS) * HEAD_PER_BAR
        # the largest flow that reaches the target at the highest speed
        cap = 0 if head > hi[0][1] else ctx.ite(head < hi[1][1], hi[1][0], hi[0][0] + (hi[0][1] - head) / (hi[0][1] - hi[1][1]) * 2000.0)
        cap = cap * RHO / TO_MASS
        rest = full - e
        ctx.eq(rest, ctx.ite(full < cap, full, cap), "it takes as much as it has capacity for", rtol=1e-3, atol=1)
        if e > 0 and cap > 1:
            s = system.solver.find_solution([target], st.with_standard_rate(rest))
            ctx.check(s.success, "what it takes is feasible")


for _c in ("DOWNSTREAM_CHOKE", "COMMON_ASV"):
    _n = f"excess_{_c.lower()}"
    globals()[_n] = harness(f"what a train with {_c} cannot take; 3 flows; every target pressure in 4 ranges", name=_n, budget_s=80, max_paths=2000)(lambda ctx, c=_c: excess(ctx, c))
