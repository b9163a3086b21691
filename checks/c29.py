"""C29: gas properties are those of the fluid and conditions asked for, whatever was asked before."""

import dataclasses
from contextlib import ExitStack
from unittest.mock import patch

from engine.runner import harness

ASSUMPTIONS = ["a simple law stands in for the Java library behind its interface (no JVM here): properties depend on pressure, temperature, composition and equation of state; hexane is liquid below 300 K; properties are stale until initialised after a flash"]
OUTSIDE = "the equations of state themselves; more than 3 (4) requests in a history"

T0, P0 = 288.15, 1.01325
PHASE_T = 300.0
M = {"water": 0.01801534, "nitrogen": 0.0280134, "CO2": 0.04400995, "methane": 0.01604246, "ethane": 0.03006904, "propane": 0.04409562, "n-hexane": 0.08617536, "n_hexane": 0.08617536, "i-butane": 0.0581222, "i_butane": 0.0581222, "n-butane": 0.0581222, "n_butane": 0.0581222}
EOS = {"SRK": 1.0, "PR": 1.1}


def mass(comp):
    tot = sum(comp.values())
    return sum(v * M[k] for k, v in comp.items()) / tot


def factor(eos, comp):
    """equations of state differ, and isomers of the same mass"""
    return EOS["SRK" if eos.endswith("SRK") else "PR"] * (1.05 if any(c.startswith("i") for c in comp) else 1.0)


def law(ctx, eos, comp, p, t):
    """(density, enthalpy J/kg, z, kappa)"""
    k, m = factor(eos, comp), mass(comp)
    g = 1.25 if eos.startswith("GERG") else 1.0
    return g * k * m * 1000 * p / 20, (1000 * k * t + 30 * p) * g, g * (1 - 0.002 * k * p), 1.4 if g > 1 else k * (1.2 + 0.001 * t)


def t_of_h(eos, comp, h, p):
    g = 1.25 if eos.startswith("GERG") else 1.0
    return (h / g - 30 * p) / (1000 * factor(eos, comp))


def has_liquid(comp, t):
    return "n-hexane" in comp and t < PHASE_T


def gas_of(comp):
    return {k: v for k, v in comp.items() if k != "n-hexane"}


class System:
    made = 0

    def __init__(self, ctx, jvm, eos, t, p):
        self.ctx, self.jvm, self.eos, self.t, self.p = ctx, jvm, eos, t, p
        self.comp, self.flow, self.rule = {}, None, None
        self.flashed = self.inited = False
        System.made += 1

    def clone(self):
        c = System(self.ctx, self.jvm, self.eos, self.t, self.p)
        c.comp, c.flow, c.rule, c.flashed, c.inited = dict(self.comp), self.flow, self.rule, self.flashed, self.inited
        return c

    def addComponent(self, name, v):
        self.comp[name] = v

    def setTotalFlowRate(self, v, unit):
        assert unit == "kg/hr"
        self.flow = v

    def setMixingRule(self, r):
        self.rule = r

    def setPressure(self, p, unit):
        assert unit == "bara"
        self.p, self.flashed, self.inited = p, False, False

    def setTemperature(self, t, unit):
        assert unit == "K"
        self.t, self.flashed, self.inited = t, False, False

    def init(self, n):
        pass

    def initProperties(self):
        self.inited = self.flashed

    def _law(self, gerg=False):
        if not self.inited:
            return (-1.0,) * 4
        return law(self.ctx, ("GERG_" if gerg else "") + self.eos, self.comp, self.p, self.t)

    def getDensity(self, unit):
        assert unit == "kg/m3"
        return self._law()[0]

    def getEnthalpy(self, unit):
        assert unit == "J/kg"
        return self._law()[1]

    def getZ(self):
        return self._law()[2]

    def getGamma2(self):
        return self._law()[3]

    def getMolarMass(self):
        return mass(self.comp)

    def getTemperature(self, unit):
        assert unit == "K"
        return self.t

    def getPressure(self, unit):
        assert unit == "bara"
        return self.p

    def getMolarComposition(self):
        tot = sum(self.comp.values())
        return [v / tot for v in self.comp.values()]

    def getComponentNames(self):
        return list(self.comp)

    def hasPhaseType(self, kind):
        return True

    def getPhaseNumberOfPhase(self, kind):
        return 0

    def getMoleFraction(self, n):
        if has_liquid(self.comp, self.t):
            return 1 - self.comp["n-hexane"] / sum(self.comp.values())
        return 1.0

    def phaseToSystem(self, kind):
        assert kind == "gas"
        if has_liquid(self.comp, self.t):
            self.comp = gas_of(self.comp)
        return self

    def getTotalNumberOfMoles(self):
        return self.flow / 3600 / mass(self.comp)

    def getPhase(self, n):
        return Phase(self)


class Phase:
    def __init__(self, s):
        self.s = s

    def getProperties_GERG2008(self):
        _, h, z, _ = self.s._law(gerg=True)
        return [0.0, z, 0, 0, 0, 0, 0, h * mass(self.s.comp), 0, 0, 8.3144621 * 3.5, 0, 0, 0]

    def getDensity_GERG2008(self):
        return self.s._law(gerg=True)[0]

    def getMolarMass(self):
        return mass(self.s.comp)


class JavaFailure(Exception):
    pass


class Jvm:
    """the Java library's module"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.fail = None  # how the next PH flash goes wrong
        jvm = self

        class Ops:
            def __init__(self, s):
                self.s = s

            def TPflash(self):
                self.s.flashed = True
                if jvm.fail == "tp":
                    raise jvm.error

            def PHflash(self, h, unit):
                assert unit == "J/kg"
                self.ph("", h)

            def PHflashGERG2008(self, joule):
                self.ph("GERG_", joule / (self.s.flow / 3600))

            def ph(self, g, h):
                if jvm.fail == "java":
                    raise jvm.error
                self.s.t = t_of_h(g + self.s.eos, self.s.comp, h if jvm.fail != "off" else h + 2e5, self.s.p)
                self.s.flashed = True

        class N:
            pass

        self.thermo, self.thermo.system = N(), N()
        self.thermo.system.SystemSrkEos = lambda t, p: System(ctx, jvm, "SRK", t, p)
        self.thermo.system.SystemPrEos = lambda t, p: System(ctx, jvm, "PR", t, p)
        self.thermodynamicoperations = N()
        self.thermodynamicoperations.ThermodynamicOperations = Ops
        from ecalc_neqsim_wrapper.exceptions import JAVA_ERRORS

        self.error = JAVA_ERRORS[0]("java")

    def instance(self):
        return self

    def get_neqsim_module(self):
        return self


def service(ctx, reference=512, flash=100000):
    """a fresh service over a stand-in of the Java library"""
    from ecalc_neqsim_wrapper import thermo
    from ecalc_neqsim_wrapper.cache_service import CacheConfig, CacheService
    from ecalc_neqsim_wrapper.fluid_service import NeqSimFluidService

    jvm = Jvm(ctx)
    stack = ExitStack()
    stack.enter_context(patch.object(thermo, "NeqsimService", jvm))

    def reset():
        NeqSimFluidService.reset_instance()
        CacheService._caches.clear()

    reset()
    stack.callback(reset)
    NeqSimFluidService.configure(CacheConfig(reference_fluid_max_size=reference, flash_max_size=flash))
    return stack, NeqSimFluidService.instance(), jvm


FLUIDS = {
    "lean": ({"methane": 1.0}, "SRK"),
    "double": ({"methane": 2.0}, "SRK"),
    "lean PR": ({"methane": 1.0}, "PR"),
    "rich": ({"methane": 0.8, "ethane": 0.2}, "SRK"),
    "swapped": ({"methane": 0.2, "ethane": 0.8}, "SRK"),
    "butane": ({"methane": 0.8, "i_butane": 0.2}, "SRK"),
    "propane": ({"methane": 0.8, "propane": 0.2}, "SRK"),
    "n-butane": ({"methane": 0.8, "n_butane": 0.2}, "SRK"),
    "nitrogen": ({"methane": 0.8, "nitrogen": 0.2}, "SRK"),
    "water": ({"methane": 0.8, "water": 0.2}, "SRK"),
    "wet": ({"methane": 0.75, "n_hexane": 0.25}, "SRK"),
    "wet GERG": ({"methane": 1.5, "n_hexane": 0.5}, "GERG_PR"),
    "lean GERG": ({"methane": 1.0}, "GERG_SRK"),
}


def model(name):
    from libecalc.process.fluid_stream.fluid_model import EoSModel, FluidComposition, FluidModel

    comp, eos = FLUIDS[name]
    return FluidModel(eos_model=EoSModel(eos), composition=FluidComposition(**comp))


def java_names(comp):
    tot = sum(comp.values())
    return {k.replace("_", "-"): v / tot for k, v in comp.items()}


def std_density(ctx, name):
    comp, eos = FLUIDS[name]
    comp = java_names(comp)
    return law(ctx, eos, gas_of(comp) if has_liquid(comp, T0) else comp, P0, T0)[0]


def is_state(ctx, props, name, p, t, label, comp=None):
    own, eos = FLUIDS[name]
    comp = java_names(own) if comp is None else comp
    rho, h, z, kappa = law(ctx, eos, comp, p, t)
    near = lambda a, b, atol, what: ctx.check(ctx.near(a, b, atol=atol, rtol=1e-6), f"{label}: {what}")
    near(props.pressure_bara, p, 2e-6, "pressure")
    near(props.temperature_kelvin, t, 2e-6, "temperature")
    near(props.density, rho, 1e-5, "density")
    near(props.enthalpy_joule_per_kg, h, 1e-2, "enthalpy")
    near(props.z, z, 1e-7, "compressibility")
    near(props.kappa, kappa, 1e-7, "isentropic exponent")
    near(props.molar_mass, mass(comp), 1e-9, "molar mass")
    ctx.check(ctx.near(props.standard_density, std_density(ctx, name), atol=1e-7, rtol=1e-6), f"{label}: density at standard conditions")


def request(ctx, svc, i, kind, name):
    fm = model(name)
    eos, comp = FLUIDS[name][1], java_names(FLUIDS[name][0])
    p = ctx.real(f"p{i}", 1, 400)
    if kind == "ph" or kind == "guess":
        h = ctx.real(f"h{i}", 100, 9e5)
        t = t_of_h(eos, comp, h, p)
        ctx.assume(t >= 100)
        g = {"temperature_guess_kelvin": ctx.real(f"g{i}", 250, 400)} if kind == "guess" else {}
        props = svc.flash_ph(fm, p, h, **g)
    else:
        t = ctx.real(f"t{i}", 250, 400)
        props = svc.flash_pt(fm, p, t)
    edge = "n-hexane" in comp and ctx.abs(t - PHASE_T) <= 1e-5
    if edge:
        return
    is_state(ctx, props, name, p, t, "gas state after " + ("pt" if kind == "pt" else "ph"))
    ctx.eq(props.vapor_fraction_molar, 0.75 if has_liquid(comp, t) else 1.0, "vapour fraction")


@harness("histories of flashes of several fluids at any conditions, with any cache size: each state is the one asked for", budget_s=80, max_paths=6000)
def requests(ctx):
    ref, size = ctx.choice("cache sizes", [(512, 100000), (1, 1), (0, 0)])
    names = ctx.choice("fluids", [("lean", "double"), ("lean", "lean PR"), ("lean", "lean GERG"), ("rich", "swapped"), ("butane", "rich"), ("butane", "n-butane"), ("propane", "nitrogen"), ("n-butane", "water"), ("wet", "lean"), ("wet GERG", "wet"), ("lean GERG", "lean PR"), ("wet", "wet")])
    n = (3 if size > 1 else 2) + (1 if ctx.thorough else 0)
    stack, svc, _ = service(ctx, ref, size)
    with stack:
        for i in range(n):
            request(ctx, svc, i, ctx.choice(f"kind{i}", ["pt", "ph", "guess"] if i == n - 1 else ["pt", "ph"]), names[ctx.choice(f"fluid{i}", [0, 1]) if i else 0])


def lru(ctx, maxsize, ops):
    """most recently used last"""
    kept = []
    out = []
    for op, k, v in ops:
        hit = next((x for x in kept if x[0] == k), None)
        if op == "get":
            out.append(None if hit is None else hit[1])
            if hit is not None:
                kept.remove(hit)
                kept.append(hit)
        else:
            if hit is not None:
                kept.remove(hit)
            kept.append((k, v))
            kept = kept[-maxsize:] if maxsize else []
            out.append(None)
    return out, kept


@harness("a cache gives the last value of a key, keeps the most recently used up to its size; any sequence of 5 (6) uses", budget_s=60, max_paths=20000)
def cache(ctx):
    from ecalc_neqsim_wrapper.cache_service import CacheService, LRUCache

    size = ctx.choice("size", [0, 1, 2])
    named = ctx.choice("named", [False, True])
    CacheService._caches.clear()
    c = CacheService.create_cache("c", size) if named else LRUCache(size)
    if named:
        ctx.check(CacheService.create_cache("c", size) is c and CacheService.get_cache("c") is c, "one cache per name")
        ctx.check(CacheService.create_cache("d", size) is not c and CacheService.get_cache("nope") is None, "other names have their own")
    ops, got = [], []
    for i in range(6 if ctx.thorough else 5):
        op = ctx.choice(f"op{i}", ["put", "get"]) if 0 < i < 4 else ("put" if i == 0 else "get")
        k = ctx.real(f"k{i}", 0, 3)
        ops.append((op, k, i))
        got.append(c.get(k) if op == "get" else c.put(k, i))
    want, kept = lru(ctx, size, ops)
    ctx.same(got, want, "the last value put, if still kept")
    ctx.check(len(c) == len(kept), "no more than the size is kept")
    st = c.get_stats()
    gets = [w for (op, _, _), w in zip(ops, want) if op == "get"]
    ctx.check((st["hits"], st["misses"]) == (sum(w is not None for w in gets), sum(w is None for w in gets)), "hits and misses are counted")
    if named:
        CacheService.clear_all()
        ctx.check(len(c) == 0 and all(c.get(k) is None for _, k, _ in ops), "nothing is left after clearing")


@harness("liquid removal, streams and rates at any condition: gas alone remains, rates by the gas density at standard conditions", budget_s=60)
def streams(ctx):
    name = ctx.choice("fluid", list(FLUIDS))
    p, t, q = ctx.real("p", 1, 400), ctx.real("t", 250, 400), ctx.real("q", 0, 1e7)
    own, eos = FLUIDS[name]
    comp = java_names(own)
    stack, svc, _ = service(ctx)
    with stack:
        fm = model(name)
        rho0 = std_density(ctx, name)
        fluid = svc.create_fluid(fm, p, t)
        is_state(ctx, fluid.properties, name, p, t, "fluid")
        ctx.check(fluid.fluid_model == fm, "the fluid is the one given")
        gas = svc.remove_liquid(fluid)
        wet = has_liquid(comp, t)
        if wet:
            dry = {k: v / 0.75 for k, v in gas_of(comp).items()}
            rho, h, z, _ = law(ctx, eos, dry, p, t)
            ctx.eq(gas.composition.methane, 1, "only gas remains")
            ctx.eq(gas.composition.n_hexane, 0, "no liquid remains")
            ctx.eq(gas.density, rho, "density of the gas that remains")
            ctx.eq(gas.enthalpy_joule_per_kg, h, "enthalpy of the gas that remains")
            ctx.eq(gas.molar_mass, mass(dry), "molar mass of the gas that remains")
            ctx.eq(gas.standard_density_gas_phase_after_flash, law(ctx, eos, dry, P0, T0)[0], "standard density of the gas that remains")
            ctx.same(str(gas.fluid_model.eos_model.value), eos, "equation of state is kept")
        else:
            ctx.check(gas == fluid, "gas without liquid is left as it is")
        s = svc.create_stream_from_standard_rate(fm, p, t, q)
        ctx.eq(s.mass_rate_kg_per_h, q * rho0 / 24, "mass rate of a standard rate")
        ctx.eq(s.standard_rate_sm3_per_day, q, "standard rate of the stream")
        ctx.eq(s.volumetric_rate_m3_per_hour, q * rho0 / 24 / law(ctx, eos, comp, p, t)[0], "actual rate of the stream", rtol=1e-5)
        is_state(ctx, s.fluid.properties, name, p, t, "stream")
        m = svc.create_stream_from_mass_rate(fm, p, t, q)
        ctx.eq(m.mass_rate_kg_per_h, q, "mass rate of the stream")
        ctx.eq(svc.mass_rate_to_standard_rate(fm, svc.standard_rate_to_mass_rate(fm, q)), q, "rates convert back")


@harness("a flash that fails or gives another state than asked for is refused, and not remembered", budget_s=30)
def failures(ctx):
    from ecalc_neqsim_wrapper.exceptions import NeqsimFlashCalculationError

    name = ctx.choice("fluid", ["lean", "lean GERG"])
    how = ctx.choice("how", ["java", "off", "tp"])
    guess = ctx.choice("guess", [None, 300.0])
    p, h = ctx.real("p", 1, 400), ctx.real("h", 2e5, 9e5)
    t = t_of_h(FLUIDS[name][1], {}, h, p)
    ctx.assume(t >= 100)
    stack, svc, jvm = service(ctx)
    with stack:
        svc.standard_rate_to_mass_rate(model(name), 1.0)
        jvm.fail = how
        call = (lambda: svc.flash_pt(model(name), p, 300.0)) if how == "tp" else (lambda: svc.flash_ph(model(name), p, h, guess))
        try:
            call()
            ctx.check(False, "a failed flash is refused")
        except NeqsimFlashCalculationError:
            ctx.check(True, "a failed flash is refused")
        jvm.fail = None
        is_state(ctx, call(), name, p, 300.0 if how == "tp" else t, "after a failure")


@harness("a flash result is accepted exactly when it is physical and has the enthalpy asked for; any properties", budget_s=30)
def accepted(ctx):
    from libecalc.process.fluid_stream.fluid_properties import FluidProperties
    from libecalc.process.fluid_stream.fluid_property_validation import validate_ph_flash_result

    names = ["pressure_bara", "temperature_kelvin", "density", "z", "kappa", "standard_density"]
    bad = ctx.choice("varied", names + ["vapor_fraction_molar", "enthalpy_joule_per_kg"])
    special = ctx.choice("special", [None, float("nan"), float("inf")])
    h, target = ctx.real("h", -1e6, 1e6), ctx.real("target", -1e6, 1e6)
    x = ctx.real("x", -2, 2)
    values = {**{n: 1.0 for n in names}, "vapor_fraction_molar": 1.0, "enthalpy_joule_per_kg": h, "molar_mass": 0.016}
    if special is not None:
        values[bad] = special
    elif bad != "enthalpy_joule_per_kg":
        values[bad] = x
    d = ctx.abs(h - target)
    tol = ctx.max(10.0, ctx.abs(target) * 1e-4)
    edge = ctx.abs(d - tol) <= 1e-6
    if edge:
        return
    ok = d <= tol
    if special is not None:
        ok = False
    elif bad == "vapor_fraction_molar":
        edge = ctx.Or(ctx.abs(x) < 2e-5, ctx.abs(x - 1) < 2e-5)
        if edge:
            return
        ok = ctx.And(ok, x >= 0, x <= 1)
    elif bad != "enthalpy_joule_per_kg":
        ok = ctx.And(ok, x > 0)
    try:
        validate_ph_flash_result(FluidProperties(**values), target, "here")
        got = True
    except ValueError:
        got = False
    ctx.check(ok if got else ctx.Not(ok), "accepted exactly when physical and as asked for")


@harness("compositions: shares normalised, molar mass of any shares", budget_s=60)
def composition(ctx):
    from libecalc.process.fluid_stream.exceptions import InvalidFluidCompositionException, NegativeComponentFractionException
    from libecalc.process.fluid_stream.fluid_model import FluidComposition

    heavy = ctx.choice("heavy", ["ethane", "i_butane", "n_hexane", "CO2", "water"])
    a, b = ctx.real("a", -1, 10), ctx.choice("b", [0.0, 1.0, 4.0])
    try:
        c = FluidComposition(methane=b, **{heavy: a})
    except NegativeComponentFractionException:
        ctx.check(a < 0, "negative shares are refused")
        return
    ctx.check(a >= 0, "negative shares are refused")
    try:
        n = c.normalized()
    except InvalidFluidCompositionException:
        ctx.check(a + b <= 0, "a fluid without components is refused")
        return
    ctx.check(a + b > 0, "a fluid without components is refused")
    ctx.eq(getattr(n, heavy) * (a + b), a, "share of the whole")
    ctx.eq(n.methane * (a + b), b, "share of the whole")
    ctx.eq(sum(v for _, v in n.items()), 1, "shares add to one")
    ctx.eq(c.molar_mass_mixture * (a + b), a * M[heavy] + b * M["methane"], "molar mass of the mixture")


@harness("mixing two streams of any rate: moles of each component, at the pressure and temperature given", budget_s=40)
def mixing(ctx):
    from ecalc_neqsim_wrapper.thermo import mix_neqsim_streams
    from libecalc.process.fluid_stream.fluid_model import EoSModel, FluidComposition

    heavy = ctx.choice("heavy", ["ethane", "i_butane", "n_hexane", "CO2", "water"])
    a, b = ctx.choice("a", [0.0, 0.5, 3.0]), ctx.choice("b", [1.0, 4.0])
    m1, f = 250.0, ctx.real("m2", 0, 1e5)
    c = FluidComposition(methane=b, **{heavy: a})
    stack, _, _ = service(ctx)
    with stack:
        other = {"methane": 0.5, "propane": 0.5}
        eos = ctx.choice("eos", ["SRK", "PR"])
        mixed, fluid = mix_neqsim_streams(c, FluidComposition(**other), m1, f, 20.0, 310.0, EoSModel(eos))
        n1, n2 = m1 * (a + b) / (a * M[heavy] + b * M["methane"]), f / mass(other)
        ctx.eq(mixed.methane * (n1 + n2), n1 * b / (a + b) + n2 * 0.5, "moles of a shared component", rtol=1e-5)
        ctx.eq(mixed.propane * (n1 + n2), n2 * 0.5, "moles of the second's component", rtol=1e-5)
        ctx.eq(getattr(mixed, heavy) * (n1 + n2), n1 * a / (a + b), "moles of the first's component", rtol=1e-5)
        ctx.eq(fluid.pressure_bara, 20, "pressure of the mixture")
        ctx.eq(fluid.temperature_kelvin, 310, "temperature of the mixture")
        ctx.eq(fluid.density, factor(eos, [heavy] if a > 0 else []) * fluid.molar_mass * 1000, "density of the mixture", rtol=1e-5)
