"""Process solver systems (shaft, compressors, recirculation loops, chokes) with the simple gas."""

from checks.fluid import DENSITY_PER_BAR, HEAD_PER_BAR, fluid_model, patched, service  # noqa: F401
from checks.trains import T0, TO_MASS  # noqa: F401

PRESSURE_CONTROLS = ["DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE", "COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"]


class System:
    def __init__(self, charts, control, shaft=None, drops=None, svc=None, temps=None):
        from libecalc.domain.process.value_objects.chart import ChartCurve
        from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData
        from libecalc.process.process_solver.anti_surge.anti_surge_strategy import AntiSurgeType
        from libecalc.process.process_solver.choke_configuration_handler import ChokeConfigurationHandler
        from libecalc.process.process_solver.recirculation_loop import RecirculationLoop
        from libecalc.process.process_solver.section_assembly import assemble_process_section
        from libecalc.process.process_solver.solver_assembly import assemble_solver
        from libecalc.process.process_units.choke import Choke
        from libecalc.process.process_units.compressor import Compressor
        from libecalc.process.process_units.pressure_dropper import PressureDropper
        from libecalc.process.process_units.temperature_setter import TemperatureSetter
        from libecalc.process.shaft import VariableSpeedShaft

        self.svc = svc or service()
        self.shaft = shaft or VariableSpeedShaft()
        self.compressors, units = [], []
        for i, c in enumerate(charts):
            chart = UserDefinedChartData(
                curves=[ChartCurve(speed_rpm=s, rate_actual_m3_hour=[p[0] for p in pts], polytropic_head_joule_per_kg=[p[1] for p in pts], efficiency_fraction=[p[2] for p in pts]) for s, pts in c],
                control_margin=None,
            )
            units.append(TemperatureSetter(fluid_service=self.svc, required_temperature_kelvin=temps[i] if temps else T0))
            if drops and drops[i]:
                units.append(PressureDropper(fluid_service=self.svc, pressure_drop_bara=drops[i]))
            compressor = Compressor(compressor_chart=chart, fluid_service=self.svc)
            self.shaft.connect(compressor)
            self.compressors.append(compressor)
            units.append(compressor)
        section = assemble_process_section(
            process_units=units, anti_surge=AntiSurgeType.COMMON_ASV if control == "COMMON_ASV" else AntiSurgeType.INDIVIDUAL_ASV,
            pressure_control=control, fluid_service=self.svc,
        )
        self.handlers = section.configuration_handlers
        self.loops = [h for h in self.handlers if isinstance(h, RecirculationLoop)]
        choke_handlers = [h for h in self.handlers if isinstance(h, ChokeConfigurationHandler)]
        self.choke_handler = choke_handlers[0] if choke_handlers else None
        self.system = assemble_solver(
            process_units=section.process_units, configuration_handlers=[self.shaft, *self.handlers], compressors=self.compressors, recirculation_loops=self.loops,
            shaft=self.shaft, pipeline_name="pipeline", pressure_control_type=control, choke_configuration_handler=self.choke_handler,
            choke=next((u for u in section.process_units if isinstance(u, Choke)), None),
        )
        self.section, self.solver, self.runner = self.system.pipeline_section, self.system.solver, self.system.runner

    def stream(self, flow, ps, temperature=T0):
        """a stream of the given actual flow (m3/h) at the inlet"""
        return self.svc.create_stream_from_mass_rate(fluid_model(), ps, temperature, flow * (self.svc.constant_density or DENSITY_PER_BAR * ps))

    def solve(self, pd, stream):
        from libecalc.process.process_solver.float_constraint import FloatConstraint

        return self.solver.find_solution([FloatConstraint(pd)], stream)

    def value(self, solution, handler):
        return next((c.value for c in solution.configuration if c.configuration_handler_id == handler.get_id()), None)

    def speed(self, solution):
        return self.value(solution, self.shaft).speed

    def recirculation(self, solution, i=0):
        v = self.value(solution, self.loops[i])
        return v.recirculation_rate if v is not None else 0.0

    def choking(self, solution):
        v = self.value(solution, self.choke_handler) if self.choke_handler else None
        return v.delta_pressure if v is not None else 0.0

    def operate(self, solution, stream):
        """(state at each compressor's inlet, outlet stream) when the solution is put to use"""
        self.runner.apply_configurations(solution.configuration)
        inlets = [self.runner.run(stream, to_id=c.get_id()) for c in self.compressors]
        return inlets, self.runner.run(stream)


def failure(solution):
    f = solution.failure
    return type(f).__name__ + ("" if f is None or not hasattr(f, "direction") else "." + f.direction.name)
