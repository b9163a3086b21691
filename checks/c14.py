"""C14: consumer systems use the first operational setting with capacity, and move overshooting rate over cross-overs."""

from checks.c13 import G, max_rate, same_bool, single
from checks.common import reals
from checks.model import GENSET_FILE, Results, consumer, doc, installation, interp, years
from engine.runner import harness

ASSUMPTIONS = ["a consumer is either sender or receiver of cross-over rate (documented restriction)"]
OUTSIDE = "systems of compressor trains (thermodynamics not encodable); more than 3 consumers, 3 settings, 3 periods"

AX, AH = [100.0, 300.0], [3000.0, 1500.0]
BX, BH = [100.0, 200.0], [2800.0, 2000.0]
CHARTS = {"a": (AX, AH), "b": (BX, BH)}
FILES = {**GENSET_FILE, **{f"{n}.csv": {"RATE": x, "HEAD": h, "EFFICIENCY": [100] * 2} for n, (x, h) in CHARTS.items()}}
INPUTS = [{"NAME": n, "FILE": f"{n}.csv", "TYPE": "PUMP_CHART_SINGLE_SPEED"} for n in CHARTS]


def pump(ctx, name, q, dp, rho):
    """power at 100 % efficiency, valid (single speed charts, no margin)"""
    p, ok, _, _ = single(ctx, q, dp, rho, xs=CHARTS[name][0], hs=CHARTS[name][1])
    return p, ok


def capacity(ctx, name, dp, rho):
    return max_rate(ctx, dp, rho, *CHARTS[name]) * 24


def by_name(ctx, r, pumps):
    names = [f"{c}{i}" for i, c in enumerate(pumps)]
    ctx.same(sorted(m.name for m in r.models), sorted(names), "one result per pump")
    return [next(m for m in r.models if m.name == x) for x in names]


def near_limit(ctx, name, q, dp, rho):
    """operating point closer to the edge of the chart than rounding allows to tell"""
    xs, hs = CHARTS[name]
    rate = ctx.max(q / 24, xs[0])
    curve = ctx.ite(rate > xs[-1], hs[-1], interp(ctx, rate, xs, hs)) * G
    req = dp * 1e5 / rho
    return ctx.And(q > 0, ctx.Or(ctx.abs(req - curve) < 1e-2, ctx.abs(rate - xs[-1]) < 1e-5))


def select(ctx, settings):
    """settings: list of lists of (power, ok) -> (power, ok, number used)"""
    power, ok, used = None, None, None
    for i in reversed(range(len(settings))):
        p = sum(x[0] for x in settings[i])
        v = ctx.And(*[x[1] for x in settings[i]])
        if power is None:
            power, ok, used = p, v, i + 1
        else:
            power, ok, used = ctx.ite(v, p, power), ctx.Or(v, ok), ctx.ite(v, i + 1, used)
    return power, ok, used


def system(pumps, settings, **k):
    return {"TYPE": "PUMP_SYSTEM", "PUMPS": [{"NAME": f"{c}{i}", "CHART": c} for i, c in enumerate(pumps)], "FLUID_DENSITY": 1000, "OPERATIONAL_SETTINGS": settings,
            **{a.upper(): b for a, b in k.items() if b is not None}}


@harness("pump system of 2 pumps, 2-3 settings by rate fractions: any total rate, discharge pressure; condition; loss; regularity; 1-2 periods", budget_s=70, max_paths=3000)
def fractions(ctx):
    extra = ctx.choice("extra", ["periods", "condition", "loss", "regularity"])
    n = 2 if extra == "periods" or ctx.thorough else 1
    q, pd = reals(ctx, "q", n, 0, 14000), reals(ctx, "pd", n, 100, 320)
    pumps = ["b", "a"] if extra == "loss" else ["a", "b"]
    c = reals(ctx, "c", n, -1, 1) if extra == "condition" else [1.0] * n
    loss = reals(ctx, "loss", n, 0, 0.5) if extra == "loss" else [0.0] * n
    reg = reals(ctx, "reg", n, 0.5, 1) if extra == "regularity" else [1.0] * n
    k = {"condition": {"condition": "SIM;C > 0"}, "loss": {"powerlossfactor": "SIM;LOSS"}}.get(extra, {})
    fr = [[1, 0], [0.5, 0.5], [0, 1]][: 2 if n == 2 and not ctx.thorough else 3]
    m = system(pumps, [{"RATE_FRACTIONS": f, "SUCTION_PRESSURE": 10, "DISCHARGE_PRESSURE": "SIM;PD"} for f in fr], total_system_rate="SIM;Q", **k)
    d = doc([installation(genset_consumers=[consumer("p", m)], regularity="SIM;REG")], end=years(n + 1)[-1], inputs=INPUTS)
    r = Results(d, columns={"Q": q, "PD": pd, "C": c, "LOSS": loss, "REG": reg}, dates=years(n), facility=FILES)
    p = r["p"]
    for i in range(n):
        qi = ctx.ite(c[i] > 0, q[i], 0) / reg[i]
        if ctx.Or(*[near_limit(ctx, a, qi * f, pd[i] - 10, 1000.0) for fs in fr for a, f in zip(pumps, fs)]):
            continue
        power, ok, used = select(ctx, [[pump(ctx, a, qi * f, pd[i] - 10, 1000.0) for a, f in zip(pumps, fs)] for fs in fr])
        got = p.is_valid.values[i]
        same_bool(ctx, got, ok, "valid when some setting has capacity")
        ctx.eq(p.operational_settings_used.values[i], used, "first setting with capacity, else the last")
        if got:
            ctx.eq(p.power.to_stream_day().values[i] * (1 - loss[i]), power, "power of the setting used")


@harness("cross-over from 2 senders to 1 receiver (or 1 to 1): any rates and discharge pressures per pump, the same or different suction pressures and densities; 1 period, fallback setting", budget_s=90, max_paths=3000)
def crossover(ctx):
    case = ctx.choice("case", ["3 3 0", "2 0", "0 1"])
    cross = [int(x) for x in case.split()]
    k = len(cross)
    pumps = ["a", "b", "a"][:k]
    q, pd = reals(ctx, "q", k, 0, 9000), reals(ctx, "pd", k, 150, 320)
    alone = ctx.choice("fallback", [False, True])
    different = alone or ctx.thorough and ctx.choice("different", [False, True])
    ps, rho = ([10.0, 18.0, 6.0], [1000.0, 930.0, 1060.0]) if different else ([10.0] * 3, [1000.0] * 3)
    settings = [{"RATES": [f"SIM;Q{i}" for i in range(k)], **({"SUCTION_PRESSURES": ps[:k], "FLUID_DENSITIES": rho[:k]} if different else {"SUCTION_PRESSURE": 10}), "DISCHARGE_PRESSURES": [f"SIM;P{i}" for i in range(k)], "CROSSOVER": cross}]
    if alone:  # first setting without cross-over, second with
        settings = [{a: b for a, b in settings[0].items() if a != "CROSSOVER"}, *settings]
    d = doc([installation(genset_consumers=[consumer("p", system(pumps, settings))])], end=years(2)[-1], inputs=INPUTS)
    cols = {**{f"Q{i}": [q[i]] for i in range(k)}, **{f"P{i}": [pd[i]] for i in range(k)}}
    r = Results(d, columns=cols, dates=years(1), facility=FILES)
    p = r["p"]
    after = list(q)
    for i, to in enumerate(cross):
        if to:
            over = ctx.max(0, q[i] - capacity(ctx, pumps[i], pd[i] - ps[i], rho[i]))
            moved = ctx.ite(pd[to - 1] >= pd[i], over, 0)
            after[i] = after[i] - moved
            after[to - 1] = after[to - 1] + moved
    # at its maximum rate a sender is on the edge of its chart: valid by construction, unless its minimum flow cannot reach the pressure
    def state(rates, crossed):
        out = []
        for i in range(k):
            pw, ok = pump(ctx, pumps[i], rates[i], pd[i] - ps[i], rho[i])
            xs, hs = CHARTS[pumps[i]]
            reach = (pd[i] - ps[i]) * 1e5 / rho[i] <= hs[0] * G
            if crossed and cross[i]:
                ok = ctx.Or(ok, ctx.And(q[i] > rates[i], reach))
            out.append((pw, ok))
        return out

    for i in range(k):
        for v, sender in ((q[i], True), (after[i], cross[i] == 0)):
            if sender and near_limit(ctx, pumps[i], v, pd[i] - ps[i], rho[i]):
                return
        if ctx.abs((pd[i] - ps[i]) * 1e5 / rho[i] - CHARTS[pumps[i]][1][0] * G) < 1e-2:
            return
    power, ok, used = select(ctx, ([state(q, False)] if alone else []) + [state(after, True)])
    got = p.is_valid.values[0]
    same_bool(ctx, got, ok, "valid when the rates after cross-over are within capacity")
    ctx.eq(p.operational_settings_used.values[0], used, "setting used")
    if got:
        ctx.eq(p.power.values[0], power, "power after cross-over")
    want = [ctx.ite(used == len(settings), x, y) for x, y in zip(after, q)]
    models = by_name(ctx, r, pumps)
    ctx.eqs([m.inlet_liquid_rate_m3_per_day.values[0] for m in models], want, "rates after cross-over")


@harness("rates, suction and discharge pressures and densities per pump and setting: any values in one of 2 periods, others in the other", budget_s=60, max_paths=2000)
def per_pump(ctx):
    now = ctx.choice("period", [1, 0])
    sym = [reals(ctx, "q", 2, 0, 6000), reals(ctx, "r", 2, 0, 6000), reals(ctx, "ps", 2, 5, 20), reals(ctx, "pd", 2, 150, 320), reals(ctx, "rho", 2, 800, 1100)]
    other = [[2900.0, 3100.0], [3000.0, 2600.0], [12.0, 8.0], [215.0, 190.0], [870.0, 1040.0]]
    first = {"RATES": ["SIM;Q0", "SIM;Q1"], "SUCTION_PRESSURES": ["SIM;S0", "SIM;S1"], "DISCHARGE_PRESSURES": ["SIM;P0", "SIM;P1"], "FLUID_DENSITIES": ["SIM;D0", "SIM;D1"]}
    second = {"RATES": ["SIM;R0", "SIM;R1"], "SUCTION_PRESSURE": "SIM;S1", "DISCHARGE_PRESSURE": "SIM;P0"}
    d = doc([installation(genset_consumers=[consumer("p", system(["a", "b"], [first, second], fluid_density=900))])], end=years(3)[-1], inputs=INPUTS)
    per = [sym, other] if now == 0 else [other, sym]
    cols = {f"{a}{i}": [per[t][j][i] for t in range(2)] for j, a in enumerate("QRSPD") for i in range(2)}
    r = Results(d, columns=cols, dates=years(2), facility=FILES)
    p, models = r["p"], by_name(ctx, r, "ab")
    for t, (q, q2, ps, pd, rho) in enumerate(per):
        pts = [[("a", q[0], pd[0] - ps[0], rho[0]), ("b", q[1], pd[1] - ps[1], rho[1])], [("a", q2[0], pd[0] - ps[1], 900.0), ("b", q2[1], pd[0] - ps[1], 900.0)]]
        if ctx.Or(*[near_limit(ctx, *x) for s in pts for x in s]):
            continue
        power, ok, used = select(ctx, [[pump(ctx, *x) for x in s] for s in pts])
        got = p.is_valid.values[t]
        same_bool(ctx, got, ok, "valid when some setting has capacity")
        ctx.eq(p.operational_settings_used.values[t], used, "setting used")
        if got:
            ctx.eq(p.power.values[t], power, "power of the setting used")
        ctx.eqs([m.inlet_liquid_rate_m3_per_day.values[t] for m in models], [ctx.ite(used == 1, a, b) for a, b in zip(q, q2)], "rates of the setting used")
        ctx.eqs([m.inlet_pressure_bar.values[t] for m in models], [ctx.ite(used == 1, a, ps[1]) for a in ps], "suction pressures of the setting used")
        ctx.eqs([m.outlet_pressure_bar.values[t] for m in models], [ctx.ite(used == 1, a, pd[0]) for a in pd], "discharge pressures of the setting used")


@harness("system defined per date, starting at or after the calculation's start: any rates; 3 periods", budget_s=60, max_paths=2000)
def dated(ctx):
    n = 3
    dates = years(n)
    q = reals(ctx, "q", n, 2400, 9000)
    start, when = ctx.choice("dates", [(0, 1), (0, 2), (1, 2)])
    fr = [[[1, 0], [0, 1]], [[0.5, 0.5], [0.3, 0.7]]]
    common = {"SUCTION_PRESSURE": 10, "DISCHARGE_PRESSURE": 200}
    m = {dates[t]: system(["a", "b"], [{"RATE_FRACTIONS": f, **common} for f in fr[j]], total_system_rate="SIM;Q") for j, t in enumerate((start, when))}
    d = doc([installation(genset_consumers=[consumer("p", m)])], end=years(n + 1)[-1], inputs=INPUTS)
    r = Results(d, columns={"Q": q}, dates=dates, facility=FILES)
    p = r["p"]
    for i in range(n):
        if i < start:
            ctx.eq(p.power.values[i], 0, "no power before the first definition")
            ctx.eq(p.operational_settings_used.values[i], 0, "no setting before the first definition")
            ctx.check(p.is_valid.values[i], "valid before the first definition")
            continue
        f = fr[0] if i < when else fr[1]
        if ctx.Or(*[near_limit(ctx, a, q[i] * x, 190.0, 1000.0) for s in f for a, x in zip("ab", s)]):
            continue
        power, ok, used = select(ctx, [[pump(ctx, a, q[i] * x, 190.0, 1000.0) for a, x in zip("ab", s)] for s in f])
        got = p.is_valid.values[i]
        same_bool(ctx, got, ok, "valid by the settings in force")
        ctx.eq(p.operational_settings_used.values[i], used, "setting used of those in force")
        if got:
            ctx.eq(p.power.values[i], power, "power of the setting in force")
