"""C23: streams entering and leaving a compressor train do so at their stage, at the rate given; the pressure between two stages is the one asked for."""

from checks.fluid import DENSITY_PER_BAR, HEAD_PER_BAR, fluid_model, patched
from checks.model import GENSET_FILE, Results, consumer, doc, installation, years
from checks.trains import CONTROLS, ONE, TO_MASS, WIDE, Stage, consistent, make_train, run, service, status
from engine.runner import harness

ASSUMPTIONS = [
    "the gas follows a simple law (density proportional to pressure, enthalpy to temperature, pressure rise proportional to head) instead of NeqSim's",
    "scipy's brenth returns a point within its tolerance of a root",
]
OUTSIDE = "NeqSim thermodynamics; trains of more than 3 stages"


def ports(svc, splits, mixes):
    from libecalc.domain.process.entities.process_units.legacy_mixer.legacy_mixer import LegacyMixer
    from libecalc.domain.process.entities.process_units.legacy_splitter.legacy_splitter import LegacySplitter

    return {"splitter": LegacySplitter(splits + 1) if splits else None, "mixer": LegacyMixer(mixes + 1, fluid_service=svc) if mixes else None}


def side_streams(ctx, control):
    ctx.exact_roots()
    ctx.fork_minmax()
    kind = ctx.choice("streams", ["out", "in", "out and in"])
    ps = 50.0
    rho = DENSITY_PER_BAR * ps
    q = 2600.0
    out = into = 0.0
    if control == "COMMON_ASV":  # the common flow is found by bisection
        if "out" in kind:
            out = ctx.choice("out", [0.0, 300.0, 900.0])
        if "in" in kind:
            into = ctx.choice("in", [0.0, 350.0])
        pd = ctx.real("pd", 60, 110)
    else:
        if "out" in kind:
            out = ctx.real("out", 0, 1200)
        if kind == "in":
            into = ctx.real("in", 0, 800)
        elif "in" in kind:
            into = 350.0
        pd = ctx.choice("pd", [95.0] if not ctx.thorough else [95.0, 109.0])
    svc = service()
    train = make_train([ONE, WIDE], control, svc=svc, stage_kw={1: ports(svc, int("out" in kind), int("in" in kind))})
    rates, fluids = [q * rho / TO_MASS], [fluid_model()]
    if "out" in kind:
        rates.append(out * rho / TO_MASS)
        fluids.append(None)
    if "in" in kind:
        rates.append(into * rho / TO_MASS)
        fluids.append(fluid_model())
    r = run(ctx, train, [[v] for v in rates], [ps], [pd], fm=fluids)
    got = status(r)
    ok = r.get_energy_result().is_valid[0]
    ctx.check(bool(ok) == (got == "NO_FAILURE"), "valid exactly when there is no failure")
    a, b = Stage(r, 0), Stage(r, 1)
    second = (q - out + into) * rho
    ctx.eq(a.net, q * rho, "first stage gets its stream", rtol=1e-6, atol=1e-3)
    ctx.eq(b.net, second, "the second stage gets the gas of the first, less what leaves, and what enters", rtol=1e-6, atol=1e-3)
    if not ok:
        return
    ctx.eq(r.outlet_stream.pressure[0], pd, "outlet pressure meets the request", rtol=2.5e-3)
    ctx.eq(b.p_in, a.p_out, "second stage takes over at the first one's pressure", rtol=1e-9)
    for s, c, tag in ((a, ONE, "first"), (b, WIDE, "second")):
        ctx.check(s.mass >= s.net * (1 - 1e-9), f"{tag} recirculation cannot be negative")
        ctx.eq(s.x * DENSITY_PER_BAR * s.p_in, s.mass, f"{tag} actual rate", rtol=1e-6)
        ctx.check(s.x <= c[0][1][-1][0] * (1 + 1e-6), f"{tag} flow inside the chart")
    if ctx.thorough:
        consistent(ctx, a, ONE[0][1], q * rho, tag="first")
        consistent(ctx, b, WIDE[0][1], second, tag="second")


for _c in CONTROLS[1:]:
    globals()[f"side_{_c.lower()}"] = harness(
        f"two compressors at one speed, {_c}; a stream out of, into or both ahead of the second; symbolic side rate (COMMON_ASV: 3 and 2 side rates, symbolic discharge pressure)", name=f"side_{_c.lower()}", budget_s=100, max_paths=1000
    )(lambda ctx, c=_c: side_streams(ctx, c))


# the curves cover the same flows, so the head is linear in the speed
SPEEDS = [(70.0, [(800.0, 30000.0, 0.65), (2800.0, 15000.0, 0.8)]), (100.0, [(800.0, 60000.0, 0.7), (2800.0, 36000.0, 0.6)])]
# the highest flow increases with the speed
SLOPED = [(70.0, [(700.0, 30000.0, 0.65), (2000.0, 15000.0, 0.8)]), (100.0, [(1000.0, 60000.0, 0.7), (2900.0, 32000.0, 0.6)])]


def interstage(ctx, up, down):
    """two stages with a pressure asked for between them"""
    from libecalc.common.fixed_speed_pressure_control import FixedSpeedPressureControl, InterstagePressureControl

    ctx.exact_roots()
    ctx.fork_minmax()
    ps = 50.0
    rho = DENSITY_PER_BAR * ps
    cases = [(SLOPED, 2500.0, 60.0, 65, 76), (SPEEDS, 1500.0, 75.0, 80, 140), (SPEEDS, 1500.0, 60.0, 65, 120), (SPEEDS, 500.0, 75.0, 80, 140), (SPEEDS, 2600.0, 95.0, 100, 120)]
    if down == "UPSTREAM_CHOKE" and not ctx.thorough:
        cases = cases[1:]
    chart, q, pi, lo, hi = ctx.choice("case", cases[:3] if not ctx.thorough else cases)
    pd = ctx.real("pd", lo, hi)
    (x0, h0, _), (x1, h1, _) = chart[1][1]
    top = [p + (h0 + (max(x, x0) - x0) * (h1 - h0) / (x1 - x0)) / HEAD_PER_BAR for p, x in ((ps, q), (pi, q * ps / pi))]
    ctx.assume(ctx.Or(pd <= top[1] * (1 - 2e-3), pd >= top[1] * (1 + 2e-3)))
    possible = q <= x1 and top[0] >= pi
    svc = service()
    ipc = InterstagePressureControl(FixedSpeedPressureControl(up), FixedSpeedPressureControl(down))
    train = make_train([chart, chart], None, variable=True, svc=svc, stage_kw={1: {"interstage_pressure_control": ipc}}, stage_number_interstage_pressure=1)
    r = run(ctx, train, [q * rho / TO_MASS], [ps], [pd], pi=[pi])
    got = status(r)
    ok = r.get_energy_result().is_valid[0]
    ctx.check(bool(ok) == (got == "NO_FAILURE"), f"valid exactly when there is no failure: {got}")
    a, b = Stage(r, 0), Stage(r, 1)
    ctx.eq(a.net, q * rho, "first stage's gas", rtol=1e-6)
    ctx.eq(b.net, q * rho, "second stage's gas", rtol=1e-6)
    ctx.eq(a.speed, b.speed, "one shaft", rtol=1e-9)
    if not possible or pd > top[1]:
        ctx.check(not ok, "more than the compressors can do at their highest speed")
    elif (up, down) == ("DOWNSTREAM_CHOKE", "DOWNSTREAM_CHOKE"):
        ctx.check(ok, f"chokes reach any pressure below those at the highest speed: {got}")
    if ok:
        ctx.eq(r.outlet_stream.pressure[0], pd, "discharge pressure meets the request", rtol=2.5e-3)
        if up != "DOWNSTREAM_CHOKE":
            ctx.eq(a.p_out, pi, "the pressure between the stages meets the request", rtol=2.5e-3)
        else:
            ctx.check(a.p_out >= pi * (1 - 2.5e-3), "the pressure ahead of the choke is enough")
        if down != "UPSTREAM_CHOKE":
            ctx.eq(b.p_in, pi, "the second stage starts at the pressure between the stages", rtol=2.5e-3)
        else:
            ctx.check(b.p_in <= pi * (1 + 2.5e-3), "the choked pressure is not above the pressure between the stages")


for _u, _d in (("DOWNSTREAM_CHOKE", "DOWNSTREAM_CHOKE"), ("UPSTREAM_CHOKE", "INDIVIDUAL_ASV_PRESSURE"), ("INDIVIDUAL_ASV_RATE", "UPSTREAM_CHOKE"), ("COMMON_ASV", "DOWNSTREAM_CHOKE"), ("INDIVIDUAL_ASV_PRESSURE", "COMMON_ASV")):
    _n = f"interstage_{_u}_{_d}".lower()
    globals()[_n] = harness(f"two compressors of variable speed, a pressure asked for between them; {_u} before and {_d} after; 2 rates and pressures, symbolic discharge pressure", name=_n, budget_s=100, max_paths=1000)(
        lambda ctx, u=_u, d=_d: interstage(ctx, u, d)
    )


def yaml_chart(name, rows):
    return {"NAME": name, "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": "VARIABLE_SPEED", "UNITS": {"RATE": "AM3_PER_HOUR", "HEAD": "JOULE_PER_KG", "EFFICIENCY": "FRACTION"},
            "CURVES": [{"SPEED": sp, "RATE": [p[0] for p in pts], "HEAD": [p[1] for p in pts], "EFFICIENCY": [p[2] for p in pts]} for sp, pts in rows]}


LARGE = [(70.0, [(800.0, 30000.0, 0.65), (9000.0, 15000.0, 0.8)]), (100.0, [(800.0, 60000.0, 0.7), (9000.0, 36000.0, 0.6)])]


@harness("a model with a train of 3 stages, a stream in, one out and one or two in, listed in any order, connected to different stages; symbolic rates out and in; thorough: with and without a turbine", budget_s=120, max_paths=1500)
def streams_by_name(ctx):
    import itertools

    ctx.fork_minmax()
    order = ctx.choice("order", list(itertools.permutations(range(3))))
    at = ctx.choice("stages", [(1, 2), (2, 2), (2, 1)])  # stages of the stream out, and of the second one in
    third = ctx.choice("third stream in", [False, True]) if order == (0, 1, 2) else False  # last, into the middle stage
    turbine = ctx.choice("driver", ["electric"] if not ctx.thorough else ["electric", "turbine"])
    streams = [{"NAME": "main", "TYPE": "INGOING", "FLUID_MODEL": "fluid"}, {"NAME": "sales", "TYPE": "OUTGOING"}, {"NAME": "extra", "TYPE": "INGOING", "FLUID_MODEL": "fluid"}]
    main, sales, extra, reg = 4.5e6, ctx.real("sales", 1e5, 1e6), ctx.real("extra", 1e4, 5e5), ctx.choice("reg", [0.9])
    names = [["main"], [], []]
    names[at[0]].append("sales")
    names[at[1]].append("extra")
    more = 250000.0
    if third:
        streams.append({"NAME": "more", "TYPE": "INGOING", "FLUID_MODEL": "fluid"})
        order = (*order, 3)
        names[1].append("more")
    stages = [{"COMPRESSOR_CHART": "chart", "INLET_TEMPERATURE": 30, "CONTROL_MARGIN": 0, "CONTROL_MARGIN_UNIT": "FRACTION", **({"STREAM": n} if n else {})} for n in names]
    models = [
        yaml_chart("chart", LARGE),
        {"NAME": "fluid", "TYPE": "FLUID", "FLUID_MODEL_TYPE": "COMPOSITION", "COMPOSITION": {"methane": 1.0}},
        {"NAME": "train", "TYPE": "VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES", "STREAMS": [streams[i] for i in order], "STAGES": stages},
        {"NAME": "turbine", "TYPE": "TURBINE", "LOWER_HEATING_VALUE": 38, "TURBINE_LOADS": [0, 400], "TURBINE_EFFICIENCIES": [0, 0.4]},
        {"NAME": "driven", "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": "train", "TURBINE_MODEL": "turbine"},
    ]
    c = consumer("c", {
        "TYPE": "VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES", "COMPRESSOR_TRAIN_MODEL": "driven" if turbine == "turbine" else "train",
        "RATE_PER_STREAM": [f"SIM;{'MSEA'[i]}" for i in order], "SUCTION_PRESSURE": 50, "DISCHARGE_PRESSURE": 80,
    }, category="COMPRESSOR")
    inst = installation(fuel_consumers=[c], regularity="SIM;REG") if turbine == "turbine" else installation(genset_consumers=[c], regularity="SIM;REG")
    with patched(service()):
        r = Results(doc([inst], models=models, end=years(2)[-1]), columns={"M": [main], "S": [sales], "E": [extra], "A": [more], "REG": [reg]}, dates=years(1), facility=GENSET_FILE)
    m = r.models[0]
    got = [s.mass_rate_before_asv_kg_per_hr.values[0] for s in m.stage_results]
    flow = main
    for i in range(3):
        if at[0] == i:
            flow = flow - sales
        if at[1] == i:
            flow = flow + extra
        if third and i == 1:
            flow = flow + more
        ctx.eq(got[i] * reg, flow * TO_MASS, f"gas of stage {i + 1}", rtol=1e-6)
    ctx.check(r["c"].is_valid.values[0], "valid")
