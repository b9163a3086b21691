"""C31: a compressor's outlet is the state its head and efficiency lead to."""

from checks.fluid import CP, fluid_model
from engine.runner import harness

ASSUMPTIONS = ["the gas follows a simple law (enthalpy proportional to temperature; compressibility and heat capacity ratio one value before and one after compression, or linear in pressure) instead of NeqSim's"]
OUTSIDE = "NeqSim's flashes; polytropic exponents that are not whole numbers, except through the damped iteration"

GAS_CONSTANT = 8.314472
# heat capacity ratio before, after, and efficiency: n/(n-1) is a whole number with the ratio before (first) and the mean (second)
GASES = [(1.2, 2 * 4 / 3 - 1.2, 0.5, 3, 2), (1.25, 1.25, 0.8, 4, 4), (1.2, 1.2, 0.5, 3, 3), (1.5, 1.5, 1.0, 3, 3), (2.0, 2.0, 0.5, 1, 1), (4 / 3, 2 * 1.5 - 4 / 3, 1.0, 4, 3)]


def gas_service(z, kappa, failing=None, spoil=None, vapor=1.0):
    """gas with one compressibility and heat capacity ratio at the inlet and others after a flash to an enthalpy"""
    from libecalc.process.fluid_stream.exceptions import FluidFlashCalculationError
    from libecalc.process.fluid_stream.fluid_properties import FluidProperties

    from checks.fluid import _service_class

    class Service(_service_class()):
        asked = []

        def _state(self, fm, p, t, h, z, kappa, kw):
            return FluidProperties(**{**dict(temperature_kelvin=t, pressure_bara=p, density=0.75 * p, enthalpy_joule_per_kg=h, z=z, kappa=kappa, vapor_fraction_molar=vapor,
                                             molar_mass=0.016 + 0.014 * fm.composition.ethane, standard_density=self.standard_density(fm)), **kw})

        def flash_pt(self, fluid_model, pressure_bara, temperature_kelvin):
            return self._state(fluid_model, pressure_bara, temperature_kelvin, CP * temperature_kelvin, z[0], kappa[0], {})

        def flash_ph(self, fluid_model, pressure_bara, target_enthalpy_joule_per_kg, temperature_guess_kelvin=None):
            self.asked.append((fluid_model, pressure_bara, target_enthalpy_joule_per_kg))
            if failing == len(self.asked):
                raise FluidFlashCalculationError("no solution") if spoil is None else spoil
            kw = spoil if isinstance(spoil, dict) and (failing is None or failing == -len(self.asked)) else {}
            return self._state(fluid_model, pressure_bara, target_enthalpy_joule_per_kg / CP, target_enthalpy_joule_per_kg, z[1](pressure_bara) if callable(z[1]) else z[1], kappa[1], kw)

    s = Service()
    s.asked = []
    return s


def inlet(ctx, svc, ethane=0.0, temperature=None, p=None):
    from libecalc.process.fluid_stream.fluid_stream import FluidStream

    p = ctx.real("inlet_pressure", 1, 200) if p is None else p
    return FluidStream(fluid=svc.create_fluid(fluid_model(ethane), p, temperature), mass_rate_kg_per_h=ctx.real("mass", 1, 1e6))


def compressed(p, head, z, n, molar_mass, t):
    r = 1 + head / n * molar_mass / (z * GAS_CONSTANT * t)
    out = p
    for _ in range(n):
        out = out * r
    return out


def is_outlet(ctx, out, s, head, efficiency, p, tag=""):
    ctx.eq(out.pressure_bara, p, tag + "outlet pressure", rtol=2e-3)
    ctx.eq(out.enthalpy_joule_per_kg, s.enthalpy_joule_per_kg + head / efficiency, tag + "the work goes into the gas", rtol=1e-9)
    ctx.eq(out.mass_rate_kg_per_h, s.mass_rate_kg_per_h, tag + "mass", rtol=1e-12)
    ctx.check(out.fluid_model == s.fluid_model, tag + "composition")


@harness("any head and, in one of 3 states, any inlet pressure; 6 gases and efficiencies", budget_s=90)
def outlet(ctx):
    from libecalc.domain.process.compressor.core.train.utils.common import calculate_outlet_pressure_and_stream

    k1, k2, eff, first, n = ctx.choice("gas", GASES)
    z, t, ethane, p = ctx.choice("state", [((1.0, 0.9), 280.0, 0.25, 20.0), ((0.7, 0.9), 350.0, 0.0, 150.0), ((0.9, 0.9), 300.0, 0.0, None)])
    svc = gas_service(z, (k1, k2))
    s = inlet(ctx, svc, ethane=ethane, temperature=t, p=p)
    head = ctx.real("head", 100, 500000)
    guess = compressed(s.pressure_bara, head, z[0], first, s.molar_mass, t)
    ctx.assume(ctx.Or(guess <= 1999.99, guess >= 2000.01))
    out = calculate_outlet_pressure_and_stream(polytropic_efficiency=eff, polytropic_head_joule_per_kg=head, inlet_stream=s, fluid_service=svc)
    is_outlet(ctx, out, s, head, eff, compressed(s.pressure_bara, head, sum(z) / 2, n, s.molar_mass, t))
    ctx.eq(svc.asked[0][1], ctx.ite(guess > 2000, 2000.0, guess), "first guess at most 2000 bar", rtol=1e-9)
    for fm, _, h in svc.asked:
        ctx.check(fm == s.fluid_model, "flashes of this gas")
        ctx.eq(h, s.enthalpy_joule_per_kg + head / eff, "flashes at the outlet's enthalpy", rtol=1e-9)


@harness("any inlet pressure or head near 3 states; a gas whose compressibility falls or rises with pressure", budget_s=60)
def iteration(ctx):
    from libecalc.domain.process.compressor.core.train.utils.common import calculate_outlet_pressure_and_stream

    slope = ctx.choice("slope", [-0.002, 0.0015, -0.004])
    if slope == -0.004:  # many iterations
        p0, head = ctx.choice("slow", [(70.0, 150000.0), (70.0, 130000.0)])
    else:
        p0, head = ctx.choice("state", [(20.0, 150000.0), (60.0, 80000.0), (100.0, 120000.0)])
    if slope == -0.004:
        p0 = p0 * ctx.real("factor", 0.99, 1.002)
    elif ctx.choice("symbolic", ["pressure", "head"]) == "pressure":
        p0 = p0 * ctx.real("factor", 0.9, 1.1)
    else:
        head = head * ctx.real("factor", 0.9, 1.1)
    svc = gas_service((0.9, lambda p: 0.9 + slope * p), (2.0, 2.0))
    s = inlet(ctx, svc, temperature=300.0, p=p0)
    out = calculate_outlet_pressure_and_stream(polytropic_efficiency=0.5, polytropic_head_joule_per_kg=head, inlet_stream=s, fluid_service=svc)
    z = (0.9 + 0.9 + slope * out.pressure_bara) / 2
    ctx.eq((out.pressure_bara / p0 - 1) * z, head * 0.016 / (GAS_CONSTANT * 300.0), "the pressure for the state it leads to", rtol=4e-3)
    ctx.eq(out.enthalpy_joule_per_kg, s.enthalpy_joule_per_kg + head / 0.5, "the work goes into the gas", rtol=1e-9)


@harness("the pressure for a head, and the head for that pressure, of any head and 5 gases", budget_s=30)
def head_and_back(ctx):
    import numpy as np

    from libecalc.domain.process.compressor.core.train.utils.enthalpy_calculations import calculate_outlet_pressure_campbell, calculate_polytropic_head_campbell

    n = ctx.choice("exponent", [2, 3, 4, 5, 6])
    eff = ctx.choice("efficiency", [0.5, 0.8, 1.0])
    kappa = (n / eff) / (n / eff - 1)  # n / (n - 1) == n
    z, t, mm = ctx.choice("state", [(0.9, 300.0, 0.016), (0.75, 350.0, 0.025)])
    p = ctx.real("inlet_pressure", 1, 200)
    ratio_root = ctx.real("root of the pressure ratio", 1.001, 3)
    head = (ratio_root - 1) * n * z * GAS_CONSTANT * t / mm
    out = calculate_outlet_pressure_campbell(kappa=kappa, polytropic_efficiency=eff, polytropic_head_fluid_Joule_per_kg=head, molar_mass=mm, z_inlet=z, inlet_temperature_K=t, inlet_pressure_bara=p)
    expected = p
    for _ in range(n):
        expected = expected * ratio_root
    ctx.eq(out, expected, "pressure for a head", rtol=1e-7)
    if n <= 4:
        ratio = ctx.real("ratio", 1.001, 8)
        h = calculate_polytropic_head_campbell(kappa=kappa, polytropic_efficiency=eff, molar_mass=mm, z=z, pressure_ratios=ratio, temperatures_kelvin=t)
        h = h.item() if isinstance(h, np.ndarray) else h
        back = calculate_outlet_pressure_campbell(kappa=kappa, polytropic_efficiency=eff, polytropic_head_fluid_Joule_per_kg=h, molar_mass=mm, z_inlet=z, inlet_temperature_K=t, inlet_pressure_bara=10.0)
        ctx.eq(back, 10 * ratio, "the same pressure back", rtol=1e-7)


SLOPES = [0.5, 0.0, -0.5, -0.9, -1.0, -1.2, -2.0, -3.0]


@harness("any distance from the solution, responses of slope 0.5 to -3", budget_s=40)
def damping(ctx):
    from libecalc.common.numeric_methods import DampState, adaptive_pressure_update

    slope = ctx.choice("slope", SLOPES)
    fixed = 100.0
    p = ctx.real("start", 80, 120)
    state = DampState()
    for i in range(30):
        raw = fixed + slope * (p - fixed)
        new, state = adaptive_pressure_update(p_prev=p, p_raw=raw, state=state)
        lo, hi = ctx.ite(p < raw, p, raw), ctx.ite(p < raw, raw, p)
        ctx.check(ctx.And(new >= lo - 1e-9, new <= hi + 1e-9), "no further than the response")
        if i == 0:
            ctx.eq(new, raw, "nothing damped without oscillation", rtol=1e-12)
        done = ctx.And(new - p < 1e-3 * new, p - new < 1e-3 * new)
        p = new
        if done:
            break
    ctx.eq(p, fixed, "to the solution", rtol=1e-2)


@harness("a failure or an unphysical result in the first, second or third flash, or no usable pressure", budget_s=30)
def failing(ctx):
    from libecalc.domain.process.compressor.core.exceptions import CompressorOutletCalculationError
    from libecalc.domain.process.compressor.core.train.utils.common import calculate_outlet_pressure_and_stream

    kind = ctx.choice("kind", ["flash", "pressure", "temperature", "density", "z", "kappa", "enthalpy", "vapour", "head"])
    at = ctx.choice("flash", [1, 2, 3])
    field = {"pressure": "pressure_bara", "temperature": "temperature_kelvin", "density": "density", "z": "z", "kappa": "kappa", "enthalpy": "enthalpy_joule_per_kg", "vapour": "vapor_fraction_molar"}.get(kind)
    head = 20000.0 if kind in ("z", "kappa") else ctx.real("head", 1000, 50000) if kind != "head" else ctx.real("head", -1e6, -4.8e5)
    h = CP * 300.0
    value = None
    if field:
        value = h + head / 0.5 + ctx.real("off", -1e6, 1e6) if kind == "enthalpy" else ctx.choice("value", [-1.0, 0.0, 1.2]) if kind in ("z", "kappa") else ctx.real("value", -10, 10)
    svc = gas_service((0.9, 0.9), (1.2, 1.2), failing=at if kind == "flash" else -at, spoil={field: value} if field else None)
    s = inlet(ctx, svc, temperature=300.0, p=20.0)
    try:
        calculate_outlet_pressure_and_stream(polytropic_efficiency=0.5, polytropic_head_joule_per_kg=head, inlet_stream=s, fluid_service=svc)
        ok = True
    except CompressorOutletCalculationError:
        ok = False
    if kind == "flash":
        ctx.check(ok == (len(svc.asked) < at), "a failed flash is a failed compression")
    elif kind == "head":
        ctx.check(not ok, "no pressure below zero")
    elif len(svc.asked) < at:
        ctx.check(ok, "nothing failed")
    elif kind == "enthalpy":
        target = h + head / 0.5
        off = value - target
        tol = target * 1e-4
        ctx.check(ctx.And(off <= tol * 1.001, off >= -tol * 1.001) if ok else ctx.Or(off > tol * 0.999, off < -tol * 0.999), "the enthalpy asked for")
    elif kind == "vapour":
        ctx.check(ctx.And(value >= -1.1e-5, value <= 1 + 1.1e-5) if ok else ctx.Or(value < -0.9e-5, value > 1 + 0.9e-5), "a vapour fraction")
    else:
        ctx.check((value > 0) if ok else (value <= 0), "a physical state")


CURVE = [(1000.0, 50000.0, 0.5), (2000.0, 40000.0, 0.5), (3000.0, 20000.0, 0.5)]


def chart(control_margin=None, curves=((3000.0, CURVE),)):
    from libecalc.domain.process.value_objects.chart import ChartCurve
    from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData

    return UserDefinedChartData(
        curves=[ChartCurve(speed_rpm=v, rate_actual_m3_hour=[p[0] for p in pts], polytropic_head_joule_per_kg=[p[1] for p in pts], efficiency_fraction=[p[2] for p in pts]) for v, pts in curves],
        control_margin=control_margin)


def interpolate(ctx, x, pts):
    from checks.c21 import line

    return line(ctx, x, [p[0] for p in pts], [p[1] for p in pts])


@harness("a compressor at any flow and vapour fraction", budget_s=40)
def compressor(ctx):
    from libecalc.process.fluid_stream.fluid_stream import FluidStream
    from libecalc.process.process_pipeline.process_error import CompressorStonewallError, CompressorSurgeError, LiquidAtInletError
    from libecalc.process.process_units.compressor import Compressor

    k1, k2, eff, _, n = GASES[ctx.choice("gas", [0, 2])]
    vapor = ctx.real("vapour fraction", 0, 1)
    ctx.assume(ctx.Or(vapor < 0.99989, vapor > 0.99991))
    svc = gas_service((1.0, 0.9), (k1, k2), vapor=vapor)
    c = Compressor(compressor_chart=chart(), fluid_service=svc)
    c.set_speed(3000.0) if hasattr(c, "set_speed") else setattr(c, "_speed", 3000.0)
    p = ctx.choice("pressure", [20.0, 60.0])
    q = ctx.real("flow", 500, 3500)
    s = FluidStream(fluid=svc.create_fluid(fluid_model(), p, 300.0), mass_rate_kg_per_h=q * (0.75 * p))
    ctx.assume(ctx.And(*[ctx.Or(q < x - 0.01, q > x + 0.01) for x in (1000.0, 3000.0)]))
    try:
        out = c.propagate_stream(s)
    except CompressorSurgeError:
        ctx.check(q < 1000, "surge only below the smallest flow")
        return
    except CompressorStonewallError:
        ctx.check(q > 3000, "stonewall only above the largest flow")
        return
    except LiquidAtInletError:
        ctx.check(vapor < 0.9999, "liquid")
        return
    ctx.check(vapor > 0.9999, "nothing but gas is compressed")
    ctx.check(ctx.And(q >= 1000, q <= 3000), "inside the chart")
    head = interpolate(ctx, q, CURVE)
    is_outlet(ctx, out, s, head, eff, compressed(p, head, 0.95, n, 0.016, 300.0))


@harness("a train of 1 or 2 stages of one speed at any rate, with a cooler between", budget_s=60)
def train(ctx):
    import libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor  # noqa: F401
    from checks.trains import make_train

    stages = ctx.choice("stages", [1, 2])
    k1, k2, eff, _, n = GASES[{1: 2, 2: 4}[stages]]
    svc = gas_service((1.0, 0.9), (k1, k2))
    t = make_train([[(1.0, CURVE)]] * stages, svc=svc)
    rho = 0.75 * 20.0
    q = ctx.real("flow", 1001, 1999)
    ctx.assume(ctx.Or(q <= 1300, q >= 1330) if stages == 2 else True)  # not where the second stage just needs no recirculation
    t.set_evaluation_input(rate=ctx.array([q * rho / (0.75 / 24)]), fluid_model=fluid_model(), suction_pressure=ctx.array([20.0]), discharge_pressure=ctx.array([25.0]), intermediate_pressure=None)
    r = t.evaluate()
    p, power = 20.0, 0
    for i in range(stages):
        x = q * 20.0 / p
        x = ctx.ite(x < 1000, 1000.0, x)
        head = interpolate(ctx, x, CURVE)
        p_out = compressed(p, head, 0.95, n, 0.016, 300.0)
        s = r.stage_results[i]
        ctx.eq(s.inlet_stream_condition.pressure[0], p, "inlet pressure", rtol=5e-3)
        ctx.eq(s.outlet_stream_condition.pressure[0], p_out, "outlet pressure", rtol=5e-3)
        ctx.eq(s.polytropic_head_kJ_per_kg[0], head / 1000, "head", rtol=5e-3)
        ctx.eq(s.outlet_stream_condition.temperature_kelvin[0], 300 + head / 0.5 / CP, "outlet temperature", rtol=1e-3)
        power = power + x * (0.75 * p) * head / 0.5 / 3.6e9
        p = p_out
    ctx.eq(r.get_energy_result().power.values[0], power, "power", rtol=2e-2)
