"""C26: streams are mixed, split, choked and distributed without gas or energy appearing or disappearing."""

import itertools

from checks.fluid import CP, DENSITY_PER_BAR, STANDARD_DENSITY, fluid_model, service
from checks.trains import T0
from engine.runner import harness

ASSUMPTIONS = ["the gas follows a simple law (density proportional to pressure, enthalpy to temperature) instead of NeqSim's"]
OUTSIDE = "NeqSim's flashes; overflow from one train to more than one other"


def streams(ctx, svc, n, zero=False, percent=False):
    from libecalc.process.fluid_stream.fluid_stream import FluidStream

    out = []
    for i in range(n):
        m = ctx.real(f"mass{i}", 0 if zero else 1, 1e6)
        p, t = ctx.real(f"pressure{i}", 1, 500), ctx.real(f"temperature{i}", 250, 450)
        fm = fluid_model(ctx.choice(f"ethane{i}", [0.0, 0.25]), 100.0 if percent and i == 1 else 1.0)
        out.append(FluidStream(fluid=svc.create_fluid(fm, p, t), mass_rate_kg_per_h=m))
    return out


@harness("2 to 3 streams of any rates, pressures and temperatures, of two compositions, in fractions or percent", budget_s=60)
def mixing(ctx):
    from libecalc.process.fluid_stream.exceptions import ZeroTotalMassRateException
    from libecalc.process.fluid_stream.stream_mixer import StreamMixer

    n = ctx.choice("streams", [2, 3])
    svc = service()
    ss = streams(ctx, svc, n, zero=True, percent=n == 2 and ctx.choice("percent", [False, True]))
    total = sum(s.mass_rate_kg_per_h for s in ss)
    try:
        out = StreamMixer(svc).mix_streams(ss)
    except ZeroTotalMassRateException:
        ctx.check(total == 0, "refused only when there is nothing to mix")
        return
    ctx.assume(total > 0.5)
    ctx.eq(out.mass_rate_kg_per_h, total, "mass", rtol=1e-9)
    for s in ss:
        ctx.check(out.pressure_bara <= s.pressure_bara, "no feed has a lower pressure")
    ctx.check(ctx.Or(*[out.pressure_bara == s.pressure_bara for s in ss]), "the lowest pressure")
    ctx.eq(out.enthalpy_joule_per_kg * total, sum(s.enthalpy_joule_per_kg * s.mass_rate_kg_per_h for s in ss), "energy", rtol=1e-7)
    moles = [s.mass_rate_kg_per_h / s.molar_mass for s in ss]
    ethane = sum(m * s.fluid_model.composition.ethane / sum(v for _, v in s.fluid_model.composition.items()) for m, s in zip(moles, ss))
    ctx.eq(out.fluid_model.composition.ethane * sum(moles), ethane, "moles of a component", rtol=1e-7, atol=1e-3)
    ctx.eq(sum(v for _, v in out.fluid_model.composition.items()), 1, "a composition", rtol=1e-9)


@harness("a stream and a part of any size taken out of it", budget_s=30)
def splitting(ctx):
    from libecalc.process.process_pipeline.process_error import OfftakeExceedsInletError
    from libecalc.process.process_units.splitter import Splitter

    svc = service()
    (s,) = streams(ctx, svc, 1)
    rate = ctx.real("offtake", 0, 5e7)
    u = Splitter(fluid_service=svc)
    u.set_rate(rate)
    std = s.standard_rate_sm3_per_day
    ctx.assume(ctx.Or(rate <= std * (1 - 1e-9), rate >= std * (1 + 1e-9)))
    try:
        rest = u.propagate_stream(s)
    except OfftakeExceedsInletError:
        ctx.check(rate > std, "refused only when there is not enough")
        return
    ctx.check(rate <= std, "no more than there is")
    part = u.get_split_stream(s)
    ctx.eq(rest.mass_rate_kg_per_h + part.mass_rate_kg_per_h, s.mass_rate_kg_per_h, "mass", rtol=1e-9)
    ctx.eq(part.standard_rate_sm3_per_day, rate, "offtake", rtol=1e-9, atol=1e-9)
    for v in (rest, part):
        ctx.eq(v.pressure_bara, s.pressure_bara, "pressure", rtol=1e-12)
        ctx.eq(v.temperature_kelvin, s.temperature_kelvin, "temperature", rtol=1e-12)
        ctx.check(v.fluid_model == s.fluid_model, "composition")


@harness("mixing in and splitting off, one after the other, at any rates", budget_s=30)
def side_streams(ctx):
    from libecalc.process.process_units.mixer import Mixer
    from libecalc.process.process_units.splitter import Splitter

    svc = service()
    a, b = streams(ctx, svc, 2)
    m, sp = Mixer(fluid_service=svc), Splitter(fluid_service=svc)
    m.set_stream(b)
    mixed = m.propagate_stream(a)
    sp.set_rate(ctx.real("share", 0, 1) * mixed.standard_rate_sm3_per_day)
    out = sp.propagate_stream(mixed)
    ctx.eq(out.mass_rate_kg_per_h + sp.get_split_stream(mixed).mass_rate_kg_per_h, a.mass_rate_kg_per_h + b.mass_rate_kg_per_h, "mass", rtol=1e-9)
    again = m.propagate_stream(a)
    ctx.eq(again.mass_rate_kg_per_h, mixed.mass_rate_kg_per_h, "the same every time", rtol=1e-12)


@harness("a recirculation loop around a stream at any rate; reset", budget_s=30)
def recirculation(ctx):
    from libecalc.process.process_solver.recirculation_loop import RecirculationLoop
    from libecalc.process.process_units.direct_mixer import DirectMixer
    from libecalc.process.process_units.direct_splitter import DirectSplitter

    svc = service()
    (s,) = streams(ctx, svc, 1)
    m, sp = DirectMixer(), DirectSplitter()
    loop = RecirculationLoop(mixer=m, splitter=sp)
    r = ctx.real("recirculation", 0, 1e8)
    loop.set_recirculation_rate(r)
    inside = m.propagate_stream(s)
    ctx.eq(inside.standard_rate_sm3_per_day, s.standard_rate_sm3_per_day + r, "what goes round", rtol=1e-9)
    out = sp.propagate_stream(inside)
    ctx.eq(out.mass_rate_kg_per_h, s.mass_rate_kg_per_h, "what enters leaves", rtol=1e-7)
    ctx.eq(loop.get_recirculation_rate(), r, "recirculation", rtol=1e-12)
    loop.reset()
    ctx.eq(sp.propagate_stream(m.propagate_stream(s)).mass_rate_kg_per_h, s.mass_rate_kg_per_h, "nothing after reset", rtol=1e-12)
    ctx.eq(m.propagate_stream(s).mass_rate_kg_per_h, s.mass_rate_kg_per_h, "nothing goes round after reset", rtol=1e-12)


def _pressure(ctx, kind):
    from libecalc.process.process_pipeline.process_error import InsufficientInletPressureError
    from libecalc.process.process_units.choke import Choke
    from libecalc.process.process_units.pressure_dropper import PressureDropper

    svc = service()
    (s,) = streams(ctx, svc, 1)
    d = ctx.real("drop", -10, 600)
    ctx.assume(ctx.Or(d <= s.pressure_bara * (1 - 1e-9), d >= s.pressure_bara * (1 + 1e-9)))
    u = Choke(fluid_service=svc) if kind == "choke" else PressureDropper(fluid_service=svc)
    try:
        u.set_pressure_change(d) if kind == "choke" else u.set_pressure_drop(d)
    except ValueError:
        ctx.check(d < 0, "only a rise in pressure is refused")
        return
    ctx.check(d >= 0, "a rise in pressure is refused")
    try:
        out = u.propagate_stream(s)
    except InsufficientInletPressureError:
        ctx.check(d > s.pressure_bara, "refused only below zero pressure")
        return
    ctx.check(d <= s.pressure_bara, "no pressure below zero")
    ctx.eq(out.pressure_bara, s.pressure_bara - d, "pressure", rtol=1e-9, atol=1e-9)
    ctx.eq(out.mass_rate_kg_per_h, s.mass_rate_kg_per_h, "mass", rtol=1e-9)
    ctx.eq(out.temperature_kelvin, s.temperature_kelvin, "temperature", rtol=1e-12)


for _k in ("choke", "dropper"):
    globals()[f"pressure_{_k}"] = harness(f"a {_k} of any pressure change on any stream", name=f"pressure_{_k}", budget_s=30)(lambda ctx, k=_k: _pressure(ctx, k))


@harness("a temperature setter on any stream", budget_s=30)
def temperature(ctx):
    from libecalc.process.process_units.temperature_setter import TemperatureSetter

    svc = service()
    (s,) = streams(ctx, svc, 1)
    t = ctx.real("to", 250, 450)
    u = TemperatureSetter(fluid_service=svc)
    u.set_temperature(t)
    out = u.propagate_stream(s)
    ctx.eq(out.temperature_kelvin, t, "temperature", rtol=1e-12)
    ctx.eq(out.enthalpy_joule_per_kg, CP * t, "enthalpy", rtol=1e-12)
    ctx.eq(out.pressure_bara, s.pressure_bara, "pressure", rtol=1e-12)
    ctx.eq(out.mass_rate_kg_per_h, s.mass_rate_kg_per_h, "mass", rtol=1e-12)


@harness("a liquid remover; any vapour fraction and molar masses", budget_s=30)
def liquid(ctx):
    import dataclasses

    from libecalc.process.fluid_stream.fluid_stream import FluidStream
    from libecalc.process.process_units.liquid_remover import LiquidRemover

    svc = service(vapor_fraction=ctx.real("vapour", 0.01, 1))
    light = ctx.real("gas molar mass", 0.01, 0.06)
    ctx.assume(svc.vapor_fraction * light <= 0.03)
    s = FluidStream(fluid=svc.create_fluid(fluid_model(), 50.0, T0), mass_rate_kg_per_h=ctx.real("mass", 1, 1e6))
    s = s.with_new_fluid(dataclasses.replace(s.fluid, properties=dataclasses.replace(s.fluid.properties, molar_mass=0.03)))
    svc.remove_liquid = lambda fluid: dataclasses.replace(fluid, properties=dataclasses.replace(fluid.properties, molar_mass=light, vapor_fraction_molar=1.0))
    out = LiquidRemover(fluid_service=svc).propagate_stream(s)
    v = svc.vapor_fraction
    if v < 0.9999:
        ctx.eq(out.mass_rate_kg_per_h * 0.03, s.mass_rate_kg_per_h * v * light, "the mass of the gas remains", rtol=1e-9)
        ctx.eq(out.vapor_fraction_molar, 1, "no liquid", rtol=1e-9)
    elif v >= 1 - 1e-6:
        ctx.eq(out.mass_rate_kg_per_h, s.mass_rate_kg_per_h, "gas without liquid is left as it is", rtol=1e-3)


@harness("streams' rates: actual, standard and mass, and changing them", budget_s=30)
def rates(ctx):
    from libecalc.process.fluid_stream.fluid_stream import FluidStream

    svc = service()
    (s,) = streams(ctx, svc, 1)
    fm = s.fluid_model
    d = STANDARD_DENSITY + 0.5 * fm.composition.ethane
    ctx.eq(s.volumetric_rate_m3_per_hour * DENSITY_PER_BAR * s.pressure_bara, s.mass_rate_kg_per_h, "actual rate", rtol=1e-9)
    ctx.eq(s.standard_rate_sm3_per_day * d, s.mass_rate_kg_per_h * 24, "standard rate", rtol=1e-9)
    r = ctx.real("rate", 0, 1e8)
    for v in (s.with_standard_rate(r), FluidStream.from_standard_rate(r, fm, s.fluid_properties), svc.create_stream_from_standard_rate(fm, s.pressure_bara, s.temperature_kelvin, r)):
        ctx.eq(v.standard_rate_sm3_per_day, r, "standard rate set", rtol=1e-9, atol=1e-9)
        ctx.eq(v.mass_rate_kg_per_h * 24, r * d, "mass of the standard rate", rtol=1e-9)
        ctx.eq(v.pressure_bara, s.pressure_bara, "pressure", rtol=1e-12)
    v = s.with_mass_rate(r)
    ctx.eq(v.mass_rate_kg_per_h, r, "mass rate set", rtol=1e-12)
    ctx.eq(v.volumetric_rate_m3_per_hour * DENSITY_PER_BAR * s.pressure_bara, r, "actual rate of the mass rate", rtol=1e-9)


class Train:
    """takes what it has capacity for"""

    def __init__(self, capacity):
        self.capacity = capacity
        self.asked = 0

    def get_excess_rate(self, stream):
        self.asked += 1
        r = stream.standard_rate_sm3_per_day
        return r - self.capacity if r > self.capacity else 0.0

    def is_valid(self, stream):
        return bool(stream.standard_rate_sm3_per_day <= self.capacity)


def distribute(rates, capacities, overflow):
    """every train's rate, when what it cannot take goes to `overflow[train]`"""
    n = len(rates)
    out = [None] * n

    def inflow(i):
        return rates[i] + sum((excess(j) for j in range(n) if overflow.get(j) == i), 0)

    def excess(j):
        r = inflow(j)
        return r - capacities[j] if r > capacities[j] else 0

    for i in range(n):
        out[i] = inflow(i) - (excess(i) if i in overflow else 0)
    return out


def _overflows(n):
    """every acyclic way for trains to overflow to at most one other"""
    out = []
    for to in itertools.product([None, *range(n)], repeat=n):
        ok = True
        for i in range(n):
            seen, j = set(), i
            while j is not None and j not in seen:
                seen.add(j)
                j = to[j]
            ok = ok and j is None
        if ok:
            out.append({i: t for i, t in enumerate(to) if t is not None})
    return out


def common(ctx, n):
    from libecalc.process.stream_distribution.common_stream_distribution import CommonStreamDistribution, Overflow

    svc = service()
    options = _overflows(n)
    ov = ctx.choice("overflow", options)
    order = ctx.choice("written", ["forward", "backward"])
    names = ["a", "b", "c", "d"][:n]
    trains = {names[i]: Train(ctx.real(f"capacity{i}", 0, 1e6)) for i in range(n)}
    total = ctx.real("rate", 1, 1e6)
    fractions = [ctx.real(f"fraction{i}", 0, 1) for i in range(n)]
    inlet = svc.create_stream_from_standard_rate(fluid_model(), 50.0, T0, total)
    items = list(ov.items())
    d = CommonStreamDistribution(
        inlet_stream=inlet, items=trains, rate_fractions=fractions, fluid_service=svc,
        overflows=[Overflow(from_id=names[i], to_id=names[j]) for i, j in (items if order == "forward" else items[::-1])],
    )
    out = d.get_streams()
    want = distribute([total * f for f in fractions], [t.capacity for t in trains.values()], ov)
    ctx.check(d.get_number_of_streams() == n and len(out) == n, "a stream for each")
    for i, (s, w) in enumerate(zip(out, want)):
        ctx.eq(s.standard_rate_sm3_per_day, w, "rate", rtol=1e-7, atol=1e-3)
        ctx.eq(s.pressure_bara, 50.0, "pressure", rtol=1e-12)
        ctx.eq(s.temperature_kelvin, T0, "temperature", rtol=1e-12)
        if i in ov:
            ctx.check(s.standard_rate_sm3_per_day <= trains[names[i]].capacity * (1 + 1e-9) + 1e-6, "no train that can overflow gets more than it can take")
    ctx.eq(sum(s.standard_rate_sm3_per_day for s in out), total * sum(fractions), "all the gas is distributed", rtol=1e-7, atol=1e-3)
    ctx.eq(sum(s.mass_rate_kg_per_h for s in d.get_streams()), inlet.mass_rate_kg_per_h * sum(fractions), "the same every time", rtol=1e-7, atol=1e-3)


for _n in (1, 2, 3):
    globals()[f"common_stream_{_n}"] = harness(f"one stream to {_n} trains of any shares and capacities; every way to overflow", name=f"common_stream_{_n}", budget_s=100, max_paths=5000)(lambda ctx, n=_n: common(ctx, n))


@harness("trains that overflow in a circle are refused", budget_s=20)
def cycles(ctx):
    from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
    from libecalc.process.stream_distribution.common_stream_distribution import CommonStreamDistribution, Overflow

    n = 3
    to = [ctx.choice(f"to{i}", [None, 0, 1, 2]) for i in range(n)]
    ov = {i: t for i, t in enumerate(to) if t is not None}
    svc = service()
    try:
        CommonStreamDistribution(
            inlet_stream=svc.create_stream_from_standard_rate(fluid_model(), 50.0, T0, 100.0), items={i: Train(1.0) for i in range(n)}, rate_fractions=[0.2] * n,
            overflows=[Overflow(from_id=i, to_id=j) for i, j in ov.items()], fluid_service=svc,
        )
        ok = True
    except EcalcValidationException:
        ok = False
    ctx.check(ok == (ov in _overflows(n)), "refused exactly when there is a circle")


@harness("the first of several distributions that all trains can take, or the last", budget_s=60)
def priorities(ctx):
    from libecalc.process.stream_distribution.common_stream_distribution import CommonStreamDistribution
    from libecalc.process.stream_distribution.individual_stream_distribution import IndividualStreamDistribution
    from libecalc.process.stream_distribution.priorities_stream_distribution import PrioritiesStreamDistribution

    svc = service()
    n, k = 2, ctx.choice("distributions", [1, 2, 3])
    trains = [Train(ctx.real(f"capacity{i}", 0, 1e6)) for i in range(n)]
    total = ctx.real("rate", 1, 1e6)
    inlet = svc.create_stream_from_standard_rate(fluid_model(), 50.0, T0, total)
    options, rows = [], []
    for j in range(k):
        fr = [ctx.real(f"fraction{j}{i}", 0, 1) for i in range(n)]
        rows.append([total * f for f in fr])
        if j == 1:
            options.append(IndividualStreamDistribution([inlet.with_standard_rate(r) for r in rows[-1]]))
        else:
            options.append(CommonStreamDistribution(inlet_stream=inlet, items=dict(enumerate(trains)), rate_fractions=fr, overflows=[], fluid_service=svc))
    for row in rows:
        for r, t in zip(row, trains):
            ctx.assume(ctx.Or(r <= t.capacity * (1 - 1e-9) - 1e-9, r >= t.capacity * (1 + 1e-9) + 1e-9))
    out = PrioritiesStreamDistribution(options, trains).get_streams()
    want = rows[-1]
    for row in rows:
        if all([bool(r <= t.capacity) for r, t in zip(row, trains)]):
            want = row
            break
    for s, w in zip(out, want, strict=True):
        ctx.eq(s.standard_rate_sm3_per_day, w, "rate", rtol=1e-9, atol=1e-6)


@harness("comparing any pressures with a target of any tolerance", budget_s=20)
def constraint(ctx):
    from libecalc.process.process_solver.float_constraint import FloatConstraint

    v, x, tol = ctx.real("target", 0, 500), ctx.real("value", 0, 500), ctx.real("tolerance", 1e-6, 1)
    d = x - v
    ctx.assume(ctx.Or(ctx.And(d <= tol * 0.999, d >= -tol * 0.999), d >= tol * 1.001, d <= -tol * 1.001))
    c = FloatConstraint(v, abs_tol=tol)
    close, less, more = ctx.And(d <= tol, d >= -tol), d < -tol, d > tol
    for got, want, label in (
        (x == c, close, "equal"), (x != c, ctx.Not(close), "not equal"), (x < c, less, "less"), (x <= c, ctx.Or(less, close), "less or equal"), (x > c, more, "more"), (x >= c, ctx.Or(more, close), "more or equal"),
        (c == x, close, "equal to"), (c < x, more, "target less"), (c > x, less, "target more"), (c <= x, ctx.Or(more, close), "target less or equal"), (c >= x, ctx.Or(less, close), "target more or equal"),
    ):
        ctx.check(got if bool(want) else ctx.Not(got), label)


@harness("searching a range for where something begins or ceases to hold, wherever that is", budget_s=60, max_paths=2000)
def bisection(ctx):
    from libecalc.process.process_solver.boundary import Boundary
    from libecalc.process.process_solver.search_strategies import Bisect, BisectResult, DidNotConvergeError

    lo = ctx.choice("from", [0.0, 10.0, -5.0])
    hi = ctx.choice("to", [10.0, 100.0])
    ctx.assume(lo < hi)
    at = ctx.real("threshold", -20, 120)
    tol = ctx.choice("tolerance", [1e-2, 1e-3])
    b, s = Boundary(min=lo, max=hi), Bisect(tolerance=tol)
    reach = tol * max(abs(lo), abs(hi), 1.0)
    kind = ctx.choice("kind", ["search", "lowest", "highest"])
    if kind == "search":
        try:
            x = s.search(b, lambda v: BisectResult(higher=bool(v <= at), accepted=bool(v <= at)))
        except DidNotConvergeError:
            ctx.check(at <= lo + reach, "nothing found only where nothing holds")
            return
        ctx.check(x <= at, "it holds there")
        ctx.check(ctx.Or(x >= at - reach * 1.001, x >= hi - reach * 1.001), "it does not hold much further")
    else:
        f = (lambda v: bool(v >= at)) if kind == "lowest" else (lambda v: bool(v <= at))
        x = s.lowest_true(b, f) if kind == "lowest" else s.highest_true(b, f)
        if x is None:
            ctx.check(at > hi if kind == "lowest" else at < lo, "nothing found only where nothing holds")
            return
        ctx.check(x >= at if kind == "lowest" else x <= at, "it holds there")
        ctx.check(ctx.And(x >= lo, x <= hi), "in the range")
        if kind == "lowest":
            ctx.check(ctx.Or(x <= at + reach * 1.001, x == lo), "it does not hold much before")
        else:
            ctx.check(ctx.Or(x >= at - reach * 1.001, x == hi), "it does not hold much further")


@harness("settings of handlers, where a later one replaces an earlier one", budget_s=20)
def configurations(ctx):
    from libecalc.process.process_solver.configuration import Configuration, SpeedConfiguration, merge_configurations
    from libecalc.process.process_solver.solver import Solution

    ids = ["x", "y", "z"]
    a = [Configuration(configuration_handler_id=ctx.choice(f"a{i}", ids), value=SpeedConfiguration(speed=ctx.real(f"speed a{i}"))) for i in range(2)]
    b = [Configuration(configuration_handler_id=ctx.choice(f"b{i}", ids), value=SpeedConfiguration(speed=ctx.real(f"speed b{i}"))) for i in range(2)]
    want = {c.configuration_handler_id: c.value.speed for c in (*a, *b)}
    for got in (merge_configurations(a, b), Solution(configuration=a).combine(Solution(configuration=b)).configuration):
        got = {c.configuration_handler_id: c.value.speed for c in got} if len({c.configuration_handler_id for c in got}) == len(list(got)) else None
        ctx.check(got is not None and set(got) == set(want), "each handler once")
        for k in want:
            ctx.eq(got[k], want[k], "the last setting", rtol=1e-12)
