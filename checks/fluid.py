"""A fluid package with a simple, exactly computable law, in place of NeqSim (which needs a Java machine).

density = DENSITY_PER_BAR * pressure (or a constant), enthalpy = CP * temperature,
compressor outlet pressure = inlet pressure + head / HEAD_PER_BAR, outlet enthalpy = inlet enthalpy + head / efficiency.
"""

import contextlib

CP = 2000.0
DENSITY_PER_BAR = 0.75
STANDARD_DENSITY = 0.75
HEAD_PER_BAR = 1000.0  # J/kg per bar


def z_and_kappa(p):
    """of the gas whose compressibility and heat capacity ratio vary with pressure"""
    return 0.95 - 0.0006 * p, 1.25 + 0.0004 * p


def share_of_ethane(fluid_model):
    return fluid_model.composition.ethane / sum(v for _, v in fluid_model.composition.items())


def _service_class():
    from libecalc.process.fluid_stream.fluid import Fluid
    from libecalc.process.fluid_stream.fluid_properties import FluidProperties
    from libecalc.process.fluid_stream.fluid_service import FluidService
    from libecalc.process.fluid_stream.fluid_stream import FluidStream

    class StubFluidService(FluidService):
        def __init__(self, constant_density=None, vapor_fraction=1.0, varying=False, thermal=False):
            self.constant_density = constant_density
            self.varying = varying
            self.thermal = thermal  # the density also follows the temperature, where it is set
            self.vapor_fraction = vapor_fraction
            self.calls = []

        def standard_density(self, fluid_model):
            return STANDARD_DENSITY + 0.5 * share_of_ethane(fluid_model)

        def _props(self, fluid_model, p, t, h):
            d = self.constant_density if self.constant_density is not None else DENSITY_PER_BAR * p
            if self.thermal and isinstance(t, (int, float)):
                d = d * (300.0 / t)
            z, kappa = z_and_kappa(p) if self.varying else (0.9, 1.3)
            return FluidProperties(
                temperature_kelvin=t, pressure_bara=p, density=d, enthalpy_joule_per_kg=h, z=z, kappa=kappa,
                vapor_fraction_molar=self.vapor_fraction, molar_mass=0.016 + 0.014 * share_of_ethane(fluid_model), standard_density=self.standard_density(fluid_model),
            )

        def flash_pt(self, fluid_model, pressure_bara, temperature_kelvin):
            return self._props(fluid_model, pressure_bara, temperature_kelvin, CP * temperature_kelvin)

        def flash_ph(self, fluid_model, pressure_bara, target_enthalpy_joule_per_kg, temperature_guess_kelvin=None):
            return self._props(fluid_model, pressure_bara, target_enthalpy_joule_per_kg / CP, target_enthalpy_joule_per_kg)

        def remove_liquid(self, fluid):
            return fluid

        def create_fluid(self, fluid_model, pressure_bara, temperature_kelvin):
            return Fluid(fluid_model=fluid_model, properties=self.flash_pt(fluid_model, pressure_bara, temperature_kelvin))

        def create_stream_from_standard_rate(self, fluid_model, pressure_bara, temperature_kelvin, standard_rate_m3_per_day):
            return FluidStream(
                fluid=self.create_fluid(fluid_model, pressure_bara, temperature_kelvin),
                mass_rate_kg_per_h=self.standard_rate_to_mass_rate(fluid_model, standard_rate_m3_per_day),
            )

        def create_stream_from_mass_rate(self, fluid_model, pressure_bara, temperature_kelvin, mass_rate_kg_per_h):
            return FluidStream(fluid=self.create_fluid(fluid_model, pressure_bara, temperature_kelvin), mass_rate_kg_per_h=mass_rate_kg_per_h)

        def standard_rate_to_mass_rate(self, fluid_model, standard_rate_m3_per_day):
            return standard_rate_m3_per_day * (self.standard_density(fluid_model) / 24.0)

        def mass_rate_to_standard_rate(self, fluid_model, mass_rate_kg_per_h):
            return mass_rate_kg_per_h / (self.standard_density(fluid_model) / 24.0)

    return StubFluidService


def service(**kw):
    return _service_class()(**kw)


def fluid_model(ethane=0.0, scale=1.0):
    from libecalc.process.fluid_stream.fluid_model import EoSModel, FluidComposition, FluidModel

    return FluidModel(eos_model=EoSModel.SRK, composition=FluidComposition(methane=(1.0 - ethane) * scale, ethane=ethane * scale))


def outlet(polytropic_efficiency, polytropic_head_joule_per_kg, inlet_stream, fluid_service):
    """Stands in for calculate_outlet_pressure_and_stream, which iterates on the real gas equations"""
    from libecalc.process.fluid_stream.fluid import Fluid

    p = inlet_stream.pressure_bara + polytropic_head_joule_per_kg / HEAD_PER_BAR
    h = inlet_stream.enthalpy_joule_per_kg + polytropic_head_joule_per_kg / polytropic_efficiency
    props = fluid_service.flash_ph(inlet_stream.fluid_model, p, h)
    return inlet_stream.with_new_fluid(Fluid(fluid_model=inlet_stream.fluid_model, properties=props))


@contextlib.contextmanager
def patched(fluid_service=None):
    """the compressors use `outlet`, and models built from YAML use `fluid_service`"""
    import libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor as a
    import libecalc.process.process_units.compressor as b
    from ecalc_neqsim_wrapper.fluid_service import NeqSimFluidService

    saved = [(m, m.calculate_outlet_pressure_and_stream) for m in (a, b)]
    inst = NeqSimFluidService.__dict__["instance"]
    try:
        for m, _ in saved:
            m.calculate_outlet_pressure_and_stream = outlet
        if fluid_service is not None:
            NeqSimFluidService.instance = classmethod(lambda cls: fluid_service)
        yield
    finally:
        for m, f in saved:
            m.calculate_outlet_pressure_and_stream = f
        NeqSimFluidService.instance = inst


@contextlib.contextmanager
def constant_efficiency(ctx):
    """a chart with one efficiency everywhere gives it without interpolating by distance (symbolic runs only)"""
    from libecalc.domain.process.value_objects.chart.chart import Chart

    real = Chart.efficiency_as_function_of_rate_and_head

    def same(self, rates, heads):
        import numpy as np

        values = {float(e) for c in self.curves for e in c.efficiency}
        if len(values) > 1:
            return real(self, rates, heads)
        return np.full(len(np.atleast_1d(np.asarray(rates, dtype=object))), values.pop())

    try:
        if getattr(ctx, "symbolic", False):
            Chart.efficiency_as_function_of_rate_and_head = same
        yield
    finally:
        Chart.efficiency_as_function_of_rate_and_head = real
