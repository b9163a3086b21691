"""C28: process simulations are built from their YAML as stated: sections, constraints, units, streams and pumps."""

from datetime import datetime

from checks.c13 import G, HH, HX, LH, LX, chart, head_at, same_bool, single, variable, SX, SH
from checks.fluid import patched, service
from checks.model import GENSET_FILE, consumer, doc, el, installation, make_model, years
from engine.runner import harness

ASSUMPTIONS = ["the gas follows a simple law (density proportional to pressure, enthalpy to temperature) instead of NeqSim's; it is not evaluated here"]
OUTSIDE = "pipelines of more than 4 units, more than 2 pipelines; charts from files other than pump charts"

KINDS = {"C": "Compressor", "T": "TemperatureSetter", "D": "PressureDropper", "L": "LiquidRemover", "M": "Mixer", "S": "Splitter"}
CURVES = [{"SPEED": s, "RATE": [1000.0 * s / 1e4, 3000.0 * s / 1e4], "HEAD": [80000.0 * (s / 1e4) ** 2, 40000.0 * (s / 1e4) ** 2], "EFFICIENCY": [0.7, 0.7]} for s in (8000, 10000)]
ONE_CURVE = [{**CURVES[0], "SPEED": 9000}]


def compressor(curves=CURVES):
    return {"TYPE": "COMPRESSOR", "COMPRESSOR_MODEL": {"TYPE": "COMPRESSOR_CHART", "CHART": {"CURVES": curves, "UNITS": {"RATE": "AM3_PER_HOUR", "HEAD": "JOULE_PER_KG", "EFFICIENCY": "FRACTION"}},
                                                     "CONTROL_MARGIN": {"UNIT": "FRACTION", "VALUE": 0.0}}}


def stream(name="feed", p="SIM;P", t="SIM;T", q="SIM;Q", **rate):
    return {"NAME": name, "FLUID": {"TYPE": "COMPOSITION", "COMPOSITION": {"methane": 1.0}}, "TEMPERATURE": t, "PRESSURE": p, "RATE": {"VALUE": q, "UNIT": "SM3_PER_DAY", **rate}}


def unit(kind, i):
    return {
        "R": "old", "C": compressor(), "T": {"TYPE": "TEMPERATURE_SETTER", "TEMPERATURE": f"SIM;X {{+}} {i}"}, "D": {"TYPE": "PRESSURE_DROPPER", "PRESSURE_DROP": f"SIM;X {{+}} {i}"}, "L": {"TYPE": "LIQUID_REMOVER"},
        "M": {"TYPE": "MIXER", "SIDESTREAM": stream(f"side{i}", q=f"SIM;Q {{+}} {i}", p=f"SIM;P {{+}} {i}")}, "S": {"TYPE": "SPLITTER", "OFFTAKE_RATE": {"VALUE": f"SIM;X {{+}} {i}", "UNIT": "SM3_PER_DAY"}},
    }[kind]


def pipeline(name, kinds, events=None):
    d = {"NAME": name, "PROCESS_UNITS": [{"TARGET": unit(k, i), "NAME": f"u{i}"} for i, k in enumerate(kinds)]}
    if events:
        d["EVENTS"] = events
    return d


def constraint(p, control="DOWNSTREAM_CHOKE", surge="INDIVIDUAL_ASV", at=None):
    return {"OUTLET_PRESSURE": p, "PRESSURE_CONTROL": control, "ANTI_SURGE": surge, **({"PROCESS_UNIT": at} if at else {})}


def common(settings=None, feed="feed"):
    return {"METHOD": "COMMON_STREAM", "INLET_STREAM": feed, "SETTINGS": settings or [{"RATE_FRACTIONS": [1]}]}


def simulation(ctx, pipelines, constraints, columns, n=1, distribution=None, extra=None, events_service=None):
    from libecalc.ecalc_model.ecalc_event import EcalcEventService

    d = doc([installation(genset_consumers=[consumer("a", el("1"))])], end=years(n + 1)[-1],
            PROCESS_PIPELINES={p["NAME"]: p for p in pipelines},             PROCESS_SIMULATIONS=[{"NAME": "sim", "TARGETS": [p["NAME"] for p in pipelines], "STREAM_DISTRIBUTION": distribution or common(), "CONSTRAINTS": constraints}], **{"INLET_STREAMS": {"feed": stream()}, **(extra or {})})
    with patched(service()):
        m = make_model(d, columns=columns, dates=years(n), facility=GENSET_FILE)
        lines, sims = m.get_process_simulations(EcalcEventService(m.get_events()))
    (s,) = sims
    return lines, s, m


def values(e):
    return list(e.get_masked_values())


def rates(e):
    return list(e.get_stream_day_values())


def name_of(u):
    return type(u).__name__


def wrapped(kinds, surge, control):
    """the units of a section as they are to be solved"""
    out = []
    if surge == "COMMON_ASV":
        out = ["DirectMixer", *(KINDS[k] for k in kinds), "DirectSplitter"]
    else:
        waiting = []
        for k in kinds:
            if k in "MS":
                out += waiting + [KINDS[k]]
                waiting = []
            elif k == "C":
                out += ["DirectMixer", *waiting, "Compressor", "DirectSplitter"]
                waiting = []
            else:
                waiting.append(KINDS[k])
        out += waiting
    return ["Choke", *out] if control == "UPSTREAM_CHOKE" else [*out, "Choke"] if control == "DOWNSTREAM_CHOKE" else out


def sections_of(kinds, marks, terminal):
    """indices of the units of each section, or None when it is to be refused"""
    out, current = [], []
    for i in range(len(kinds)):
        current.append(i)
        if i in marks:
            out.append(current)
            current = []
    if terminal:
        if not current:
            return None
        out.append(current)
    elif any(kinds[i] == "C" for i in current):
        return None
    elif out:
        out[-1] = out[-1] + current
    if not out or any(not any(kinds[i] == "C" for i in s) for s in out):
        return None
    return out


def refused(ctx, f, label):
    from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    try:
        f()
    except (EcalcValidationException, ModelValidationException):
        ctx.check(True, label)
        return
    ctx.check(False, label)


QUICK = ["C", "CT", "TC", "DCL", "CMC", "TCSC", "CDC", "CCT", "TT", "CDTL"]
MORE = ["CTCL", "TDLC", "CTMC", "CCC", "CCCC", "MCSC", "TCTC", "CLC", "SCM", "CTTC", "DCDC", "CSMC"]


@harness("sections of a pipeline for every set of constraints: units in order, recirculation around each compressor, the choke, the target; any pressures and set points", budget_s=80, max_paths=4000)
def sections(ctx):
    kinds = ctx.choice("units", QUICK + (MORE if ctx.thorough else []))
    marks = [i for i in range(len(kinds)) if ctx.choice(f"constraint at {i}", [False, True])]
    terminal = ctx.choice("terminal", [False, True])
    control = ctx.choice("control", ["DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE", "INDIVIDUAL_ASV_RATE"])
    if not marks and not terminal:
        return
    reverse = ctx.choice("reverse", [False, True]) if len(marks) + terminal > 1 else False
    x = ctx.real("x", 1, 20)
    p, q, t = ctx.real("p", 1, 50), ctx.real("q", 1, 1e6), ctx.real("t", 250, 350)
    targets = [ctx.real(f"target{i}", 1, 300) for i in range(len(marks) + 1)]
    columns = {"X": [x], "P": [p], "Q": [q], "T": [t], **{f"O{i}": [v] for i, v in enumerate(targets)}}
    cons = [constraint(f"SIM;O{j}", control, at=f"u{i}") for j, i in enumerate(marks)]
    if terminal:
        cons.append(constraint(f"SIM;O{len(marks)}", control))
    if reverse:
        cons = cons[::-1]
    want = sections_of(kinds, marks, terminal)
    make = lambda: simulation(ctx, [pipeline("line", kinds)], {"line": cons}, columns)
    if want is None:
        refused(ctx, make, "constraints that leave a compressor without one, or a section without a compressor, are refused")
        return
    (line,), sim, _ = make()
    (problem,) = sim.process_problems
    parts = line.get_process_pipeline_sections()
    probs = problem.get_process_problem_sections()
    ctx.check(len(parts) == len(probs) == len(want), "a section per constraint")
    units = [list(s.get_process_units()) for s in parts]
    for k, s in enumerate(want):
        expected = wrapped([kinds[i] for i in s], "INDIVIDUAL_ASV", control)
        if k == 0:
            expected = ["Inlet", *expected]
        if k == len(want) - 1:
            expected = [*expected, "Outlet"]
        ctx.same([name_of(u) for u in units[k]], expected, "the section's units in order, with what controls them")
        ctx.check(probs[k].get_process_pipeline_section_id() == parts[k].get_id(), "the problem of the section")
        c = probs[k].get_constraint()
        ctx.eqs(values(c.outlet_pressure), [targets[k]], "target pressure of the section")
        ctx.same(probs[k].get_pressure_control().type, control, "pressure control of the section")
        ctx.same(probs[k].get_anti_surge().type, "INDIVIDUAL_ASV", "anti-surge of the section")
        last = units[k][-2] if k == len(want) - 1 else units[k][-1]
        ctx.check(c.target_process_unit_id == last.get_id(), "the target is after the section's last unit")
        after = [x_ for x_ in line.get_process_unit_connections() if x_.get_id() == c.target_process_connection_id]
        ctx.check(len(after) == 1 and after[0].get_from_process_unit_id() == last.get_id(), "the target is where the section's last unit leads out")
    flat = [u for s in units for u in s]
    ctx.check(len({id(u) for u in flat}) == len(flat), "no unit twice")
    ctx.check([(c.get_from_process_unit_id(), c.get_to_process_unit_id()) for c in line.get_process_unit_connections()] == [(a.get_id(), b.get_id()) for a, b in zip(flat, flat[1:])], "units are connected in order")
    own = [u for u in flat if name_of(u) in KINDS.values()]
    ctx.check(len(own) == len(kinds), "every unit of the pipeline once")
    conf = sim.process_configurations[line.get_id()]
    for i, (k, u) in enumerate(zip(kinds, own)):
        if k == "T":
            ctx.eqs(values(conf[u.get_id()].temperature_in_celsius), [x + i], "temperature of the unit")
        elif k == "D":
            ctx.eqs(values(conf[u.get_id()].pressure_drop_in_bara), [x + i], "pressure drop of the unit")
        elif k == "S":
            ctx.eqs(rates(conf[u.get_id()].offtake_rate), [x + i], "offtake of the unit")
        elif k == "M":
            ctx.eqs(rates(conf[u.get_id()].sidestream.standard_rate_m3_per_day), [q + i], "rate of the side stream")
            ctx.eqs(values(conf[u.get_id()].sidestream.pressure_bara), [p + i], "pressure of the side stream")
        else:
            ctx.check(u.get_id() not in conf, "nothing prescribed for other units")
    handlers = [name_of(h) for h in problem.get_configuration_handlers()]
    chokes = len(want) if control.endswith("CHOKE") else 0
    ctx.same(sorted(handlers), sorted(["VariableSpeedShaft", *["RecirculationLoop"] * kinds.count("C"), *["ChokeConfigurationHandler"] * chokes]), "a shaft, a recirculation per compressor and a choke per section")
    ctx.check(problem.get_process_pipeline_id() == line.get_id(), "the problem of the pipeline")


CONTROLS = ["UPSTREAM_CHOKE", "DOWNSTREAM_CHOKE", "COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"]
SURGE = ["COMMON_ASV", "INDIVIDUAL_ASV", "NO_ASV"]
NEEDS = {"COMMON_ASV": "COMMON_ASV", "INDIVIDUAL_ASV_RATE": "INDIVIDUAL_ASV", "INDIVIDUAL_ASV_PRESSURE": "INDIVIDUAL_ASV"}


@harness("every combination of pressure control, anti-surge and units is accepted with its wrapping or refused; any pressure", budget_s=60)
def strategies(ctx):
    kinds = ctx.choice("units", ["TC", "CTC", "CMC", "SC", "CLM"])
    control, surge = ctx.choice("control", CONTROLS), ctx.choice("surge", SURGE)
    o = ctx.real("o", 1, 300)
    ok = surge != "NO_ASV" and NEEDS.get(control, surge) == surge and not (surge == "COMMON_ASV" and ("M" in kinds or "S" in kinds))
    make = lambda: simulation(ctx, [pipeline("line", kinds)], {"line": [constraint("SIM;O", control, surge)]}, {"X": [1.0], "P": [20.0], "Q": [1e5], "T": [300.0], "O": [o]})
    if not ok:
        refused(ctx, make, "an incompatible combination is refused")
        return
    (line,), sim, _ = make()
    ctx.same([name_of(u) for u in line.get_process_units()], ["Inlet", *wrapped(kinds, surge, control), "Outlet"], "the units with what controls them")
    (s,) = sim.process_problems[0].get_process_problem_sections()
    ctx.eqs(values(s.get_constraint().outlet_pressure), [o], "target pressure")
    loops = [h for h in sim.process_problems[0].get_configuration_handlers() if name_of(h) == "RecirculationLoop"]
    ctx.check(len(loops) == (1 if surge == "COMMON_ASV" else kinds.count("C")), "number of recirculation loops")


@harness("streams, their distribution and overflow over periods with conditions, calendar days and compositions given by time series", budget_s=60)
def streams(ctx):
    n = 2
    q, p, t = ([ctx.real(f"{k}{i}", lo, hi) for i in range(n)] for k, lo, hi in (("q", 0, 1e6), ("p", 1, 50), ("t", 250, 350)))
    f = [ctx.real(f"f{i}", 0, 1) for i in range(n)]
    on = [ctx.choice(f"on{i}", [0, 1]) for i in range(n)]
    individual = ctx.choice("individual", [False, True])
    columns = {"X": [1.0] * n, "P": p, "Q": q, "T": t, "F": f, "ON": on, "O": [100.0] * n}
    cond = ctx.choice("condition", [{"CONDITION": "SIM;ON == 1"}, {"CONDITIONS": ["SIM;ON == 1", "SIM;OTHER > 0"]}, {"CONDITIONS": ["SIM;ON > 0"]}])
    other = [0, 1] if len(cond.get("CONDITIONS", [])) == 2 else [1, 1]
    columns["OTHER"] = other
    a, b = stream("s1", TYPE="CALENDAR_DAY"), stream("s2", q="SIM;Q {*} 2", p="SIM;P {+} 1", t="SIM;T {+} 2", **cond)
    a["FLUID"] = {"TYPE": "COMPOSITION", "EOS_MODEL": "PR", "COMPOSITION": {"methane": "SIM;F", "ethane": "1 {-} SIM;F"}}
    over = ctx.choice("overflow", [[], [(0, 1)], [(1, 0)], [(2, 0), (1, 2)]])
    names = ["line1", "line2", "line3"][: 3 if len(over) > 1 else 2]
    if individual:
        dist = {"METHOD": "INDIVIDUAL_STREAMS", "INLET_STREAMS": ["s1", b, "s1"][: len(names)]}
    else:
        setting = {"RATE_FRACTIONS": ["SIM;F", "1 {-} SIM;F", 0][: len(names)]}
        if over:
            setting["OVERFLOW"] = [{"FROM_REFERENCE": names[x], "TO_REFERENCE": names[y]} for x, y in over]
        dist = common([setting, {"RATE_FRACTIONS": [0.5, 0.5, 0][: len(names)]}], feed=ctx.choice("feed", ["s1", "s2"]))
    lines, sim, m = simulation(ctx, [pipeline(x, "C") for x in names], {x: [constraint("SIM;O")] for x in reversed(names)}, columns, n=n, distribution=dist, extra={"INLET_STREAMS": {"s1": a, "s2": b}})
    got = sim.get_inlet_streams()
    want = [(0, 1), (1, 2), (0, 1)][: len(names)] if individual else [((0, 1) if dist["INLET_STREAM"] == "s1" else (1, 2))]
    ctx.check(len(got) == len(want), "number of streams")
    for g, (k, factor) in zip(got, want):
        ctx.eqs(rates(g.standard_rate_m3_per_day), [q[i] * factor * (on[i] * other[i] if k else 1) for i in range(n)], "rate, where the condition holds")
        ctx.eqs(values(g.pressure_bara), [v + k for v in p], "pressure")
        ctx.eqs(values(g.temperature_kelvin), [v + 2 * k for v in t], "temperature")
        for i, period in enumerate(m.get_periods()):
            fm = g.fluid_model.get_value(period)
            ctx.eq(fm.composition.methane, 1.0 if k else f[i], "composition in the period")
            ctx.eq(fm.composition.ethane, 0.0 if k else 1 - f[i], "composition in the period")
            ctx.same(fm.eos_model.value, "SRK" if k else "PR", "equation of state")
    ctx.same([l.get_name() for l in lines], names, "pipelines in the order of the targets")
    ctx.check([x.get_process_pipeline_id() for x in sim.process_problems] == [l.get_id() for l in lines], "problems in the order of the targets")
    if not individual:
        s1, s2 = sim.stream_distribution.settings
        ctx.eqs(values(s1.rate_fractions[0]), f, "first share")
        ctx.eqs(values(s1.rate_fractions[1]), [1 - v for v in f], "second share")
        ctx.eqs([values(v)[0] for v in s2.rate_fractions], [0.5, 0.5, 0][: len(names)], "shares of the second setting")
        ctx.check(not s2.overflow, "overflow only where stated")
        ctx.check({(o.from_id, o.to_id) for o in s1.overflow} == {(lines[x].get_id(), lines[y].get_id()) for x, y in over} and len(s1.overflow) == len(over), "overflow from and to")


PARTS = {"water": 18.015, "nitrogen": 28.014, "CO2": 44.01, "methane": 16.043, "ethane": 30.07, "propane": 44.097, "i_butane": 58.123, "n_butane": 58.123, "i_pentane": 72.15, "n_pentane": 72.15, "n_hexane": 86.177}
PREDEFINED = {"ULTRA_DRY": 17.1, "DRY": 18.3, "MEDIUM": 19.4, "RICH": 21.4, "ULTRA_RICH": 24.6}


@harness("gases of streams and of models: every component with any amount over time, every predefined gas and equation of state")
def fluids(ctx):
    from types import SimpleNamespace

    from libecalc.presentation.yaml.mappers import fluid_mapper as fm
    from libecalc.presentation.yaml.yaml_types.models.yaml_fluid import YamlPredefinedFluidModel

    eos = ctx.choice("eos", ["SRK", "PR", "GERG_SRK", "GERG_PR"])
    kind = ctx.choice("gas", ["any", *PREDEFINED])
    n = 2
    if kind == "any":
        amount = {k: [ctx.real(f"{k}{i}", 0, 100) for i in range(n)] for k in PARTS}
        fluid = {"TYPE": "COMPOSITION", "EOS_MODEL": eos, "COMPOSITION": {k: f"SIM;{k}" for k in PARTS}}
    else:
        amount = {}
        fluid = {"TYPE": "PREDEFINED", "EOS_MODEL": eos, "GAS_TYPE": kind}
    columns = {"P": [10.0] * n, "Q": [1.0] * n, "T": [300.0] * n, "O": [100.0] * n, "X": [1.0] * n, **amount}
    gas = {**stream("s"), "FLUID": fluid}
    _, sim, m = simulation(ctx, [pipeline("line", "C")], {"line": [constraint("SIM;O")]}, columns, n=n, distribution=common(feed="s"), extra={"INLET_STREAMS": {"s": gas}})
    (g,) = sim.get_inlet_streams()
    if kind == "any":
        legacy = fm.composition_fluid_model_mapper(SimpleNamespace(composition=SimpleNamespace(**{k: v[0] + 0.001 for k, v in amount.items()}), eos_model=eos))
    else:
        legacy = fm.predefined_fluid_model_mapper(YamlPredefinedFluidModel.model_validate({"NAME": "f", "TYPE": "FLUID", "FLUID_MODEL_TYPE": "PREDEFINED", "EOS_MODEL": eos, "GAS_TYPE": kind}))
    ctx.same(legacy.eos_model.value, eos, "equation of state of a fluid model")
    for i, period in enumerate(m.get_periods()):
        got = g.fluid_model.get_value(period)
        ctx.same(got.eos_model.value, eos, "equation of state of a stream")
        if kind == "any":
            for k in PARTS:
                ctx.eq(getattr(got.composition, k), amount[k][i], "amount of a component in the period")
                ctx.eq(getattr(legacy.composition, k), amount[k][0] + 0.001, "amount of a component of a fluid model")
            continue
        for c in (got.composition, legacy.composition):
            share = {k: getattr(c, k) for k in PARTS}
            ctx.eq(sum(PARTS[k] * v for k, v in share.items()) / sum(share.values()), PREDEFINED[kind], "molecular weight of a predefined gas", atol=0.16)
        ctx.same(got.composition, legacy.composition, "the same predefined gas for a stream and for a model")


@harness("a pipeline's place in a distribution, with any rate and capacity")
def items(ctx):
    from libecalc.presentation.yaml.mappers.process_simulation_mapper import StreamDistributionItem

    rate, capacity = ctx.real("rate", 0, 1e6), ctx.real("capacity", 0, 1e6)
    target = object()

    class Solver:
        def get_excess_rate(self, inlet_stream, target_pressure):
            ctx.check(target_pressure is target, "the target pressure")
            return ctx.ite(inlet_stream > capacity, inlet_stream - capacity, 0.0)

    item = StreamDistributionItem(feasibility_solver=Solver(), target_pressure=target)
    ctx.eq(item.get_excess_rate(rate), ctx.ite(rate > capacity, rate - capacity, 0.0), "excess rate")
    ctx.check(bool(item.is_valid(rate)) == bool(rate <= capacity), "valid where nothing exceeds the capacity")


WRONG = {
    "constraint at an unknown unit": ({"line": [constraint("100", at="nope"), constraint("100")]}, None),
    "two constraints at one unit": ({"line": [constraint("100", at="u1"), constraint("90", at="u1")]}, None),
    "two constraints at the outlet": ({"line": [constraint("100"), constraint("90")]}, None),
    "a constraint at the last unit and at the outlet": ({"line": [constraint("100", at="u1"), constraint("90")]}, None),
    "constraint for an unknown pipeline": ({"line": [constraint("100")], "other": [constraint("100")]}, None),
    "no constraint": ({"line": []}, None),
    "no constraint for the pipeline": ({}, None),
    "overflow to an unknown pipeline": ({"line": [constraint("100")]}, common([{"RATE_FRACTIONS": [1], "OVERFLOW": [{"FROM_REFERENCE": "line", "TO_REFERENCE": "nope"}]}])),
    "overflow from an unknown pipeline": ({"line": [constraint("100")]}, common([{"RATE_FRACTIONS": [1], "OVERFLOW": [{"FROM_REFERENCE": "nope", "TO_REFERENCE": "line"}]}])),
}


@harness("what does not refer to anything, or twice to the same, is refused")
def wrong(ctx):
    cons, dist = WRONG[ctx.choice("what", list(WRONG))]
    refused(ctx, lambda: simulation(ctx, [pipeline("line", "TC")], cons, {"X": [1.0], "P": [20.0], "Q": [1e5], "T": [300.0]}, distribution=dist), "refused as invalid input")


@harness("changes of compressors by events: the unit named, from the event's date, with the new chart", budget_s=30)
def events(ctx):
    which = ctx.choice("which", [0, 1, 2])
    year = ctx.choice("year", [2020, 2021, 2022])
    ev = {"TYPE": "CHANGE", "CHANGE_TARGET": f"u{which}" if which < 2 else "nope", "CHANGE_FROM": "old", "CHANGE_TO": "new", "CHANGE_TYPE": "REBUNDLE", "REF": "rebundled"}
    extra = {"DEFINITIONS": {"PROCESS_UNITS": {"old": compressor(), "new": compressor(ONE_CURVE)}},
             "ECALC_EVENTS": [{"TYPE": "OTHER", "START": datetime(2019, 1, 1), "NAME": "first"}, {"TYPE": "TIE_IN", "START": datetime(year, 6, 1), "NAME": "tie-in"}],
             "PROCESS_EVENTS": [{"TYPE": "OTHER", "NAME": "nothing", "REF": "first"}, {"TYPE": "OTHER", "NAME": "rebundled", "REF": "tie-in"}]}
    make = lambda: simulation(ctx, [pipeline("line", ctx.choice("units", ["CC", "RR"]), [ev])], {"line": [constraint("100")]}, {"X": [1.0], "P": [20.0], "Q": [1e5], "T": [300.0]}, extra=extra)
    if which == 2:
        refused(ctx, make, "a change of an unknown unit is refused")
        return
    (line,), _, _ = make()
    (e,) = line.get_events()
    own = [u for u in line.get_process_units() if name_of(u) == "Compressor"]
    ctx.check(e.change_target == own[which].get_id(), "the unit named is changed")
    ctx.check(e.change_time == datetime(year, 6, 1), "from the date of the event")
    ctx.check(len(e.change_to.compressor_chart.curves) == 1 and e.change_to.compressor_chart.curves[0].speed == 9000, "to the new chart")


@harness("pump simulations from YAML: any rate or any discharge pressure, at rest or not; one and two speeds; minimum flow; validity, its reason and the speed", budget_s=60, max_paths=1500)
def pumps(ctx):
    n = 1
    which = ctx.choice("any", ["rest", "rate", "pressure"])
    q = [0.0 if which == "rest" else ctx.real("q", 1, 7000) if which == "rate" else ctx.choice("q", [1200.0, 4000.0, 6500.0])]
    ps, pd = [ctx.choice("ps", [1.0, 12.5])], [ctx.choice("pd", [15.0, 60.0, 120.0, 300.0]) if which == "rate" else ctx.real("pd", 0, 400)]
    rho = [ctx.choice('rho', [1000.0, 950.0])]
    for i in range(n):
        ctx.assume(ctx.Or(q[i] <= 0, pd[i] >= ps[i]))
    minflow = ctx.choice("minflow", [None, 150.0, 330.0])
    kind = ctx.choice("kind", ["single", "variable"])
    d = doc([installation(genset_consumers=[consumer("a", el("1"))])], end=years(n + 1)[-1],
            inputs=[{"NAME": "pc", "FILE": "pc.csv", "TYPE": f"PUMP_CHART_{kind.upper()}_SPEED", "UNITS": {"HEAD": "M", "EFFICIENCY": "PERCENTAGE"}}],
            PUMP_PROCESS_SIMULATIONS=[{"TYPE": "PUMP", "NAME": "injection", "PUMP_MODEL": {"CHART": "pc", **({"MINIMUM_FLOW_RATE": minflow} if minflow else {})},
                                       "INLET": {"RATE": "SIM;Q", "PRESSURE": "SIM;PS", "DENSITY": "SIM;RHO"}, "REQUIRED_DISCHARGE_PRESSURE": "SIM;PD"}])
    m = make_model(d, columns={"Q": q, "PS": ps, "PD": pd, "RHO": rho}, dates=years(n), facility={**GENSET_FILE, "pc.csv": chart(kind)})
    ((sim, inputs, periods),) = m.get_pump_process_simulations()
    ctx.same(sim.get_name(), "injection", "name")
    ctx.check([p.start for p in periods] == years(n) and len(inputs) == n, "an evaluation per period")
    for i, out in enumerate(sim.evaluate(inputs)):
        r = out.pump_result
        st = [out.connection_streams[c.get_id()] for c in sim.get_process_unit_connections()]
        ctx.eq(inputs[i].inlet_stream.volumetric_rate_m3_per_day, q[i], "rate of the period")
        ctx.eq(inputs[i].inlet_stream.density_kg_per_m3, rho[i], "density of the period")
        if q[i] <= 0:
            ctx.eq(r.shaft_power_mw, 0, "no power at rest")
            ctx.check(r.is_valid, "valid at rest")
            ctx.eqs([s.pressure_bara for s in st], [ps[i]] * 5, "at rest the pressure is the inlet's everywhere")
            ctx.eqs([s.mass_rate_kg_per_h for s in st], [0] * 5, "nothing flows at rest")
            continue
        flow = ctx.max(q[i] / 24, minflow or 0.0)
        if kind == "single":
            _, ok, rate, head = single(ctx, flow * 24, pd[i] - ps[i], rho[i])
            ctx.eq(r.speed_rpm, 1, "speed")
            top, maxrate = head_at(ctx, rate, SX, [h * G for h in SH]), SX[-1]
        else:
            _, ok, rate, head, _, top = variable(ctx, flow * 24, pd[i] - ps[i], rho[i])
            low, maxrate = head_at(ctx, rate, LX, [h * G for h in LH]), HX[-1]
            if ctx.And(rate >= HX[0], rate <= LX[-1]):
                ctx.eq(r.speed_rpm, 1000 + 2000 * ctx.max(ctx.min((head - low) / (top - low), 1.0), 0.0), "speed between the curves")
            ctx.check(ctx.And(r.speed_rpm >= 1000 - 1e-6, r.speed_rpm <= 3000 + 1e-6), "speed within the chart")
        req = (pd[i] - ps[i]) * 1e5 / rho[i]
        if not ctx.Or(ctx.abs(req - top) < 1e-3, ctx.abs(rate - maxrate) < 1e-6):
            same_bool(ctx, r.is_valid, ok, "valid exactly inside the chart")
            if req > top:
                why = "ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE" if rate > maxrate else "ABOVE_MAXIMUM_HEAD_AT_RATE"
            else:
                why = "ABOVE_MAXIMUM_PUMP_RATE" if rate > maxrate else "NO_FAILURE"
            ctx.same(str(r.failure_status), why, "why it is invalid")
        ctx.eq(r.operational_volumetric_rate_m3_per_hour, rate, "operating rate")
        ctx.eq(r.shaft_power_mw, rho[i] * head * rate / 3.6e9, "shaft power")
        od = ps[i] + head * rho[i] / 1e5
        ctx.eqs([s.pressure_bara for s in st], [ps[i], ps[i], od, od, ctx.min(od, pd[i])], "pressures along the pump")
        ctx.eqs([s.volumetric_rate_m3_per_hour for s in st], [q[i] / 24, rate, rate, q[i] / 24, q[i] / 24], "rates along the pump")


@harness("pump simulations refuse pressures and densities that are not positive", budget_s=30)
def pump_inputs(ctx):
    q = ctx.real("q", 0, 5000)
    ps, pd, rho = ctx.real("ps", 0, 20), ctx.real("pd", 0, 300), ctx.choice("rho", [0.0, 900.0])
    d = doc([installation(genset_consumers=[consumer("a", el("1"))])], end=years(2)[-1], inputs=[{"NAME": "pc", "FILE": "pc.csv", "TYPE": "PUMP_CHART_SINGLE_SPEED", "UNITS": {"HEAD": "M", "EFFICIENCY": "PERCENTAGE"}}],
            PUMP_PROCESS_SIMULATIONS=[{"TYPE": "PUMP", "NAME": "injection", "PUMP_MODEL": {"CHART": "pc"}, "INLET": {"RATE": "SIM;Q", "PRESSURE": "SIM;PS", "DENSITY": "SIM;RHO"}, "REQUIRED_DISCHARGE_PRESSURE": "SIM;PD"}])
    make = lambda: make_model(d, columns={"Q": [q], "PS": [ps], "PD": [pd], "RHO": [rho]}, dates=years(1), facility={**GENSET_FILE, "pc.csv": chart("single")}).get_pump_process_simulations()
    if ctx.Or(ps <= 0, rho <= 0, ctx.And(q > 0, pd <= 0)):
        refused(ctx, make, "a pressure or density that is not positive is refused")
        return
    ((_, inputs, _),) = make()
    ctx.eq(inputs[0].inlet_stream.pressure_bara, ps, "suction pressure")
    if q > 0:
        ctx.eq(inputs[0].required_discharge_pressure_bara, pd, "discharge pressure")
