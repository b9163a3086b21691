"""Compressor trains with a simple gas, and what their results must satisfy."""

from checks.c21 import line
from checks.fluid import DENSITY_PER_BAR, HEAD_PER_BAR, STANDARD_DENSITY, fluid_model, patched, service

T0 = 300.0
TO_MASS = STANDARD_DENSITY / 24


def make_train(charts, control=None, variable=False, drops=None, temps=None, svc=None, stage_kw=None, **kw):
    from libecalc.common.fixed_speed_pressure_control import FixedSpeedPressureControl
    from libecalc.domain.process.compressor.core.train.compressor_train_common_shaft import CompressorTrainCommonShaft
    from libecalc.domain.process.compressor.core.train.stage import CompressorTrainStage
    from libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor import LegacyCompressor
    from libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier import RateModifier
    from libecalc.domain.process.value_objects.chart import ChartCurve
    from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData
    from libecalc.process.process_units.choke import Choke
    from libecalc.process.process_units.liquid_remover import LiquidRemover
    from libecalc.process.process_units.temperature_setter import TemperatureSetter
    from libecalc.process.shaft import SingleSpeedShaft, VariableSpeedShaft

    svc = svc or service()
    shaft = VariableSpeedShaft() if variable else SingleSpeedShaft()
    stages = []
    for i, c in enumerate(charts):
        chart = UserDefinedChartData(
            curves=[ChartCurve(speed_rpm=s, rate_actual_m3_hour=[p[0] for p in pts], polytropic_head_joule_per_kg=[p[1] for p in pts], efficiency_fraction=[p[2] for p in pts]) for s, pts in c],
            control_margin=None,
        )
        drop = drops[i] if drops else 0.0
        stages.append(CompressorTrainStage(
            rate_modifier=RateModifier(compressor_chart=chart, shaft=shaft),
            compressor=LegacyCompressor(compressor_chart=chart, fluid_service=svc, shaft=shaft),
            temperature_setter=TemperatureSetter(required_temperature_kelvin=temps[i] if temps else T0, fluid_service=svc),
            liquid_remover=LiquidRemover(svc),
            fluid_service=svc,
            choke=Choke(fluid_service=svc, pressure_change=drop) if drop else None,
            **((stage_kw or {}).get(i, {})),
        ))
    return CompressorTrainCommonShaft(
        energy_usage_adjustment_constant=kw.pop("constant", 0.0), energy_usage_adjustment_factor=kw.pop("factor", 1.0), stages=stages, fluid_service=svc, shaft=shaft,
        pressure_control=FixedSpeedPressureControl(control) if control else None, **kw,
    )


def run(ctx, train, rate, ps, pd, fm=None, pi=None):
    arr = lambda v: ctx.array(v)  # noqa: E731
    train.set_evaluation_input(rate=arr(rate), fluid_model=fm or fluid_model(), suction_pressure=arr(ps), discharge_pressure=arr(pd), intermediate_pressure=arr(pi) if pi else None)
    with patched():
        return train.evaluate()


def status(r, i=0):
    return str(getattr(r.failure_status[i], "value", r.failure_status[i]))


ONE = [(1.0, [(1000.0, 50000.0, 0.7), (2000.0, 40000.0, 0.8), (3000.0, 20000.0, 0.75)])]
CONTROLS = ["NONE", "DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE", "COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"]


class Stage:
    """a stage's reported operation, all in one place"""

    def __init__(self, r, i, t=0):
        s = r.stage_results[i]
        self.p_in, self.p_out = s.inlet_stream_condition.pressure[t], s.outlet_stream_condition.pressure[t]
        self.t_in, self.t_out = s.inlet_stream_condition.temperature_kelvin[t], s.outlet_stream_condition.temperature_kelvin[t]
        self.x, self.x_net = s.inlet_stream_condition.actual_rate_m3_per_hr[t], s.inlet_stream_condition.actual_rate_before_asv_m3_per_hr[t]
        self.mass, self.net = s.mass_rate_kg_per_hr[t], s.mass_rate_before_asv_kg_per_hr[t]
        self.std, self.std_net = s.inlet_stream_condition.standard_rate_sm3_per_day[t], s.inlet_stream_condition.standard_rate_before_asv_sm3_per_day[t]
        self.head, self.eff, self.power = s.polytropic_head_kJ_per_kg[t], s.polytropic_efficiency[t], s.power[t]
        self.loss, self.speed, self.valid, self.flag = s.asv_recirculation_loss_mw[t], s.speed[t], s.is_valid[t], s.chart_area_flags[t]


def consistent(ctx, s, pts, mass, temp=T0, tag="", rho=None):
    """one stage's reported numbers agree with its chart, the gas, and each other; `pts` is the curve at its speed"""
    xs, hs, es = ([p[k] for p in pts] for k in range(3))
    rho = rho or DENSITY_PER_BAR * s.p_in
    ctx.eq(s.net, mass, f"{tag} net mass rate", rtol=1e-6, atol=1e-6)
    ctx.eq(s.x * rho, s.mass, f"{tag} actual rate", rtol=1e-6, atol=1e-6)
    ctx.eq(s.std * TO_MASS, s.mass, f"{tag} standard rate", rtol=1e-6, atol=1e-6)
    ctx.eq(s.std_net * TO_MASS, s.net, f"{tag} standard rate before recirculation", rtol=1e-6, atol=1e-6)
    ctx.check(s.mass >= s.net * (1 - 1e-9), f"{tag} recirculation cannot be negative")
    ctx.check(ctx.And(s.x >= xs[0] * (1 - 1e-6), s.x <= xs[-1] * (1 + 1e-6)), f"{tag} flow inside the chart")
    h, e = line(ctx, s.x, xs, hs), line(ctx, s.x, xs, es)
    ctx.eq(s.head * 1000, h, f"{tag} head", rtol=1e-5)
    ctx.eq(s.eff, e, f"{tag} efficiency", rtol=1e-5)
    ctx.eq(s.p_out, s.p_in + h / HEAD_PER_BAR, f"{tag} outlet pressure", rtol=1e-5)
    ctx.eq(s.power * 3.6e6 * s.eff, s.head * s.mass, f"{tag} power", rtol=1e-6)
    ctx.eq(s.loss * 3.6e6 * s.eff, s.head * (s.mass - s.net), f"{tag} recirculation loss", rtol=1e-6, atol=1e-3)
    ctx.eq(s.t_in, temp, f"{tag} inlet temperature", rtol=1e-9)
    ctx.check(s.valid, f"{tag} valid")


WIDE = [(1.0, [(400.0, 40000.0, 0.72), (1200.0, 30000.0, 0.78), (2300.0, 15000.0, 0.7)])]
TIGHT = [(1.0, [(800.0, 40000.0, 0.72), (1500.0, 25000.0, 0.78)])]
NARROW = [(1.0, [(1100.0, 40000.0, 0.72), (1500.0, 25000.0, 0.78)])]


def forward(ctx, mass, ps, charts, drops=(0.0, 0.0), gross=None):
    """outlet pressure of stages run at the given net mass rate with recirculation only up to the minimum flow"""
    p, out = ps, []
    for c, d in zip(charts, drops):
        pts = c[0][1]
        p = p - d
        x = mass / (DENSITY_PER_BAR * p)
        if x < pts[0][0]:
            x = pts[0][0]
        if x > pts[-1][0]:
            return None
        p = p + line(ctx, x, [v[0] for v in pts], [v[1] for v in pts]) / HEAD_PER_BAR
        out.append(x)
    return p
