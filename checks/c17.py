"""C17: sampled compressors interpolate inside their working area, and recirculate or choke into it where that is possible."""

from checks.c13 import same_bool
from checks.common import reals
from checks.model import GENSET_FILE, Results, consumer, doc, installation, interp, years
from engine.runner import harness

ASSUMPTIONS = [
    "a rate is 0 or at least 1 Sm3/d, and exceeds a largest rate by 0 or at least 1 Sm3/d",
    "scipy's convex hull and triangulation are computed by scipy itself from the concrete table; evaluating the interpolation is exact arithmetic over that triangulation",
    "the root finder returns a root within its stated relative tolerance",
]
OUTSIDE = "operating points closer than 1e-6 (relative) to the edge of the working area; other tables than those given; compressor models with fluids"

M = 1e6
EDGE = 1e-6


def clamp(ctx, v, lo, hi):
    return ctx.min(ctx.max(v, lo), hi)


def at(ctx, v, pts):
    """piecewise linear through pts, constant outside"""
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    return interp(ctx, clamp(ctx, v, xs[0], xs[-1]), xs, ys)


def consumer_model(**k):
    return {"TYPE": "COMPRESSOR", **{a.upper(): b for a, b in k.items() if b is not None}}


def run_one(ctx, table, kind, q, ps=None, pd=None, models=None, ref="comp"):
    n = len(q)
    cols = {"Q": q}
    k = {"rate": "SIM;Q"}
    if ps is not None:
        cols["PS"], k["suction_pressure"] = ps, "SIM;PS"
    if pd is not None:
        cols["PD"], k["discharge_pressure"] = pd, "SIM;PD"
    c = consumer("c", consumer_model(energyfunction=ref, **k), category="COMPRESSOR")
    inst = installation(genset_consumers=[c]) if kind == "POWER" else installation(fuel_consumers=[c])
    d = doc([inst], end=years(n + 1)[-1], inputs=[{"NAME": "comp", "FILE": "comp.csv", "TYPE": "COMPRESSOR_TABULAR"}], models=models)
    return Results(d, columns=cols, dates=years(n), facility={**GENSET_FILE, "comp.csv": table})["c"]


def rates(ctx, name, n, hi):
    qs = reals(ctx, name, n, 0, hi)
    for q in qs:
        ctx.assume(ctx.Or(q == 0, q >= 1))
        for limit in (4 * M, 5 * M):
            ctx.assume(ctx.Or(q <= limit, q >= limit + 1))
    return qs


def verdict(ctx, c, i, ok, want, what):
    same_bool(ctx, c.is_valid.values[i], ok, f"{what}: valid exactly where the compressor can operate")
    if c.is_valid.values[i]:
        ctx.eq(c.energy_usage.to_stream_day().values[i], want, f"{what}: energy usage")


X1 = {"RATE": [1 * M, 2 * M, 5 * M], "SUCTION_PRESSURE": [20.0, 30.0, 50.0], "DISCHARGE_PRESSURE": [60.0, 90.0, 120.0]}
Y1 = [3.0, 8.0, 11.0]
CONST = {"RATE": 4 * M, "SUCTION_PRESSURE": 25.0, "DISCHARGE_PRESSURE": 100.0}


@harness("table of one varying variable (rate, suction or discharge pressure), the others absent or constant; rows in 3 orders; power, fuel, or fuel with power; 1-2 periods", budget_s=60, max_paths=3000)
def one_variable(ctx):
    n = ctx.choice("periods", [1, 2])
    var = ctx.choice("variable", list(X1))
    const = ctx.choice("constant", [(), ("DISCHARGE_PRESSURE",), ("SUCTION_PRESSURE", "RATE")])
    const = [c for c in const if c != var]
    order = ctx.choice("order", [(0, 1, 2), (2, 1, 0), (1, 2, 0)] if n == 1 or ctx.thorough else [(1, 2, 0)])
    kind = ctx.choice("kind", ["POWER", "FUEL", "BOTH"] if n == 1 or ctx.thorough else ["BOTH"])
    q = rates(ctx, "q", n, 6 * M)
    ps, pd = reals(ctx, "ps", n, 10, 59), reals(ctx, "pd", n, 60, 150)
    table = {var: [X1[var][k] for k in order], **{c: [CONST[c]] * 3 for c in const}}
    table.update({"POWER": [Y1[k] for k in order]} if kind == "POWER" else {"FUEL": [Y1[k] * 1000 for k in order]})
    if kind == "BOTH":
        table["POWER"] = [Y1[k] * 2 for k in order]
    c = run_one(ctx, table, "POWER" if kind == "POWER" else "FUEL", q, ps, pd)
    for i in range(n):
        v = {"RATE": q, "SUCTION_PRESSURE": ps, "DISCHARGE_PRESSURE": pd}[var][i]
        ok = v >= X1[var][0] if var == "SUCTION_PRESSURE" else v <= X1[var][-1]
        for name in const:
            ok = ctx.And(ok, {"RATE": q[i] <= CONST["RATE"], "SUCTION_PRESSURE": ps[i] >= 25, "DISCHARGE_PRESSURE": pd[i] <= 100}[name])
        off = q[i] == 0
        want = ctx.ite(off, 0.0, at(ctx, v, list(zip(X1[var], Y1))))
        verdict(ctx, c, i, ctx.Or(off, ok), want * (1 if kind == "POWER" else 1000), var)
        if kind == "BOTH" and c.is_valid.values[i]:
            ctx.eq(c.power.to_stream_day().values[i], want * 2, "shaft power by the fuel used")
    if kind == "FUEL":
        ctx.check(c.power is None, "no power when the table has none")


# rate unit 1e6 Sm3/d; the last point is inside, every triangle joins it with an edge
AREAS = {
    "rate, discharge": (("RATE", "DISCHARGE_PRESSURE"), [(1, 20), (2, 60), (4, 56), (5, 24)], (3, 40), [3.0, 9.0, 12.0, 7.0, 8.5]),
    "rate, suction": (("RATE", "SUCTION_PRESSURE"), [(1, 60), (2, 20), (4, 24), (5, 56)], (3, 40), [3.0, 9.0, 12.0, 7.0, 8.5]),
    "suction, discharge": (("SUCTION_PRESSURE", "DISCHARGE_PRESSURE"), [(20, 40), (50, 70), (50, 160), (20, 100)], (35, 95), [3.0, 2.0, 12.0, 9.0, 7.0]),
}


def affine(p, q, r, vs):
    """coefficients (k0, kx, ky) of the plane through three points"""
    (x0, y0), (x1, y1), (x2, y2) = p, q, r
    det = (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)
    kx = ((vs[1] - vs[0]) * (y2 - y0) - (vs[2] - vs[0]) * (y1 - y0)) / det
    ky = ((x1 - x0) * (vs[2] - vs[0]) - (x2 - x0) * (vs[1] - vs[0])) / det
    return vs[0] - kx * x0 - ky * y0, kx, ky


def side(p, q, x, y):
    """positive to the left of the line p -> q"""
    return (q[0] - p[0]) * (y - p[1]) - (q[1] - p[1]) * (x - p[0])


def surface(ctx, name, x, y):
    """energy usage inside the area"""
    _, corners, mid, vals = AREAS[name]
    n, out = len(corners), None
    for i in range(n):
        a, b = corners[i], corners[(i + 1) % n]
        k0, kx, ky = affine(a, b, mid, [vals[i], vals[(i + 1) % n], vals[n]])
        z = k0 + kx * x + ky * y
        s = 1 if side(a, b, *mid) > 0 else -1
        here = ctx.And(s * side(mid, a, x, y) >= 0, s * side(b, mid, x, y) >= 0)
        out = z if out is None else ctx.ite(here, z, out)
    return out


def projected(ctx, name, x, y):
    if name == "rate, discharge":
        x = ctx.max(x, at(ctx, y, [(20, 1.0), (60, 2.0)]))
        return x, ctx.max(y, at(ctx, x, [(1, 20.0), (5, 24.0)]))
    if name == "rate, suction":
        x = ctx.max(x, at(ctx, y, [(20, 2.0), (60, 1.0)]))
        return x, ctx.min(y, at(ctx, x, [(1, 60.0), (5, 56.0)]))
    y = ctx.max(y, at(ctx, x, [(20, 40.0), (50, 70.0)]))
    return ctx.min(x, at(ctx, y, [(40, 20.0), (70, 50.0), (160, 50.0)])), y


def two(ctx, name, x, y):
    """(can operate, energy usage); points at the edge of what can be operated are left out"""
    _, corners, _, _ = AREAS[name]
    limits = {
        "rate, discharge": lambda: [60 - y, at(ctx, y, [(24, 5.0), (56, 4.0), (60, 2.0)]) - x],
        "rate, suction": lambda: [y - 20, at(ctx, y, [(20, 2.0), (24, 4.0), (56, 5.0)]) - x],
        "suction, discharge": lambda: [x - 20, at(ctx, x, [(20, 100.0), (50, 160.0)]) - y],
    }[name]()
    ctx.assume(ctx.And(*[ctx.abs(v) > 1e-5 for v in limits]))
    px, py = projected(ctx, name, x, y)
    return ctx.And(*[v > 0 for v in limits]), surface(ctx, name, px, py)


@harness("table of two varying variables in 3 combinations, the third absent or constant: any rate and pressures; 1 period (thorough 2)", budget_s=90, max_paths=3000)
def two_variables(ctx):
    n = 2 if ctx.thorough else 1
    name = ctx.choice("variables", list(AREAS))
    const = ctx.choice("constant", [False, True])
    cols, corners, mid, vals = AREAS[name]
    pts = [*corners, mid]
    order = ctx.choice("order", [(0, 1, 2, 3, 4), (4, 2, 0, 3, 1)])
    scale = {"RATE": M}
    table = {c: [pts[k][j] * scale.get(c, 1.0) for k in order] for j, c in enumerate(cols)}
    third = next(c for c in X1 if c not in cols)
    value = {"RATE": 4 * M, "SUCTION_PRESSURE": 12.0, "DISCHARGE_PRESSURE": 90.0}[third]
    if const:
        table[third] = [value] * len(pts)
    table["POWER"] = [vals[k] for k in order]
    hi = {"rate, discharge": (19, 80), "rate, suction": (75, 140), "suction, discharge": (75, 180)}[name]
    q = rates(ctx, "q", n, 6 * M)
    u = reals(ctx, "u", n, 0, 6)  # rate in 1e6
    ps, pd = reals(ctx, "ps", n, 5, hi[0]), reals(ctx, "pd", n, 5, hi[1])
    for i in range(n):
        ctx.assume(q[i] == u[i] * M)
        ctx.assume(pd[i] >= ps[i])
    c = run_one(ctx, table, "POWER", q, ps, pd)
    for i in range(n):
        x, y = [{"RATE": u, "SUCTION_PRESSURE": ps, "DISCHARGE_PRESSURE": pd}[v][i] for v in cols]
        off = q[i] == 0
        ok, want = two(ctx, name, x, y)
        if const:
            if third == "RATE":
                ctx.assume(ctx.abs(q[i] - value) > 1)
            ok = ctx.And(ok, {"RATE": q[i] <= value, "SUCTION_PRESSURE": ps[i] >= value, "DISCHARGE_PRESSURE": pd[i] <= value}[third])
        verdict(ctx, c, i, ctx.Or(off, ok), ctx.ite(off, 0.0, want), name)


# deciding the cases one by one keeps the solver's work linear
def fmax(a, b):
    return a if a >= b else b


def fmin(a, b):
    return a if a <= b else b


def fclamp(v, lo, hi):
    return fmin(fmax(v, lo), hi)


# working area of three variables: 20 <= ps <= 40, ps + 10 <= pd <= 2 ps + 20, low(pd) <= rate <= high(ps, pd)
def low(pd):
    return 1 + 0.01 * pd


def high(ps, pd):
    return 5 - 0.02 * pd + 0.03 * ps


def energy(r, ps, pd):
    return 2 + 0.5 * r + 0.05 * pd - 0.03 * ps


def three_table(order=1):
    rows = [(r * M, float(ps), float(pd)) for ps in (20, 40) for pd in (ps + 10, 2 * ps + 20) for r in (low(pd), high(ps, pd))][::order]
    return {"RATE": [r[0] for r in rows], "SUCTION_PRESSURE": [r[1] for r in rows], "DISCHARGE_PRESSURE": [r[2] for r in rows],
            "POWER": [energy(r[0] / M, r[1], r[2]) for r in rows]}


def three(ctx, r, ps, pd):
    """(can operate, energy usage, near an edge)"""
    # recirculation, with pressures choked into the area
    pd1 = fmax(pd, fclamp(ps, 20, 40) + 10)
    ps1 = fmin(ps, fclamp(pd1 - 10, 20, 40))
    fits = [ps1 - 20, 2 * ps1 + 20 - pd1]
    minimum = ctx.And(*[v >= 0 for v in fits], r <= low(pd1))
    e1 = energy(low(pd1), ps1, pd1)
    inside = ctx.And(ps >= 20, ps <= 40, pd >= ps + 10, pd <= 2 * ps + 20, r >= low(pd), r <= high(ps, pd))
    # discharge choking
    r2, ps2 = fmax(r, low(fclamp(ps, 20, 40) + 10)), fmin(ps, 40)
    choke = ctx.And(ps2 >= 20, r2 >= low(ps2 + 10), r2 <= high(ps2, ps2 + 10), pd <= ps2 + 10)
    e2 = energy(r2, ps2, ps2 + 10)
    # suction choking
    r3, pd3 = fmax(r, low(fclamp(pd, 30, 100))), fmax(pd, 30)
    ps3 = fmin(40, pd3 - 10)
    valve = ctx.And(ps >= ps3, pd3 <= 2 * ps3 + 20, r3 <= high(ps3, pd3))
    e3 = energy(r3, ps3, pd3)
    ok = ctx.Or(inside, minimum, choke, valve)
    want = energy(r, ps, pd) if inside else e1 if minimum else e2 if choke else e3
    # the limits of what can be operated; rates just above the maximum are taken for it
    top = most(ctx, ps, pd)
    edge = ctx.Or(ctx.And(r > top - 2e-3, r < top + 2e-3), *[ctx.abs(v) < 1e-4 for v in fits])
    # between the areas of the projections the energy usage is continuous: rates by the minimum are taken for it
    edge = ctx.Or(edge, ctx.abs(r - low(pd1)) < 2e-3)
    return ok, want, edge


def most(ctx, ps, pd):
    """maximum rate at the pressures, 0 if there is none"""
    pd1 = fmax(pd, fclamp(ps, 20, 40) + 10)
    ps1 = fmin(ps, fclamp(pd1 - 10, 20, 40))
    return high(ps1, pd1) if ctx.And(ps1 >= 20, pd1 <= 2 * ps1 + 20) else 0.0


@harness("table of three variables, rows in reverse order (thorough: 2 orders): any rate and pressures; 1 period", budget_s=90, max_paths=1500)
def three_variables(ctx):
    order = ctx.choice("order", [1, -1]) if ctx.thorough else -1
    u = ctx.real("u", 0, 6)
    ps, pd = ctx.real("ps", 15, 50), ctx.real("pd", 15, 120)
    ctx.assume(ctx.And(ctx.Or(u == 0, u >= 0.001), pd >= ps))
    off = u == 0
    ok, want, edge = three(ctx, u, ps, pd)
    ctx.assume(ctx.Or(off, ctx.Not(edge)))
    c = run_one(ctx, three_table(order), "POWER", [u * M], [ps], [pd])
    verdict(ctx, c, 0, ctx.Or(off, ok), ctx.ite(off, 0.0, want), "three variables")


T_X, T_E = [0.0, 5.0, 10.0, 20.0], [0.0, 0.2, 0.3, 0.4]
LHV = 38.0


def turbine(ctx, load, factor=1.0, constant=0.0):
    """fuel, valid for a shaft load"""
    adj = ctx.ite(load > 0, (load + constant) / factor, load)
    eff = interp(ctx, clamp(ctx, adj, T_X[0], T_X[-1]), T_X, T_E)
    return adj, eff, adj <= T_X[-1]


@harness("sampled compressor with turbine: any rate, turbine and compressor adjustments of factor and constant; 1-2 periods", budget_s=60, max_paths=2000)
def with_turbine(ctx):
    n = ctx.choice("periods", [1, 2])
    q = rates(ctx, "q", n, 6 * M)
    kf, kc = ctx.choice("compressor adjustment", [(1.0, 0.0), (1.25, 0.5), (0.8, 0.0)])
    tf, tc = ctx.choice("turbine adjustment", [(1.0, 0.0), (1.25, 1.0), (0.5, 0.0)])
    adj = lambda f, c: {"POWER_ADJUSTMENT_FACTOR": f, "POWER_ADJUSTMENT_CONSTANT": c} if (f, c) != (1.0, 0.0) else {}
    models = [
        {"NAME": "t", "TYPE": "TURBINE", "LOWER_HEATING_VALUE": LHV, "TURBINE_LOADS": T_X, "TURBINE_EFFICIENCIES": T_E, **adj(tf, tc)},
        {"NAME": "ct", "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": "comp", "TURBINE_MODEL": "t", **adj(kf, kc)},
    ]
    power = [4.0, 9.0, 18.0]
    c = run_one(ctx, {"RATE": X1["RATE"], "POWER": power}, "FUEL", q, models=models, ref="ct")
    for i in range(n):
        p = ctx.ite(q[i] > 0, at(ctx, q[i], list(zip(X1["RATE"], power))), 0.0)
        load = ctx.ite(p > 0, p * kf + kc, p)
        a, eff, fits = turbine(ctx, load, tf, tc)
        if ctx.And(q[i] > 0, ctx.Or(ctx.abs(a - T_X[-1]) < 1e-6, ctx.abs(q[i] - 5 * M) < 1)):
            continue
        ok = ctx.And(q[i] <= 5 * M, fits)
        same_bool(ctx, c.is_valid.values[i], ok, "valid exactly when compressor and turbine have capacity")
        if c.is_valid.values[i]:
            # fuel [Sm3/d] * LHV [MJ/Sm3] * efficiency = load [MW] * 86400 s/d
            ctx.eq(c.energy_usage.to_stream_day().values[i] * LHV * eff, a * 86400, "fuel for the load at the turbine's efficiency")


def system(compressors, settings, kind):
    m = {"TYPE": "COMPRESSOR_SYSTEM", "COMPRESSORS": [{"NAME": f"k{i}", "COMPRESSOR_MODEL": c} for i, c in enumerate(compressors)], "OPERATIONAL_SETTINGS": settings}
    c = consumer("s", m, category="COMPRESSOR")
    return installation(genset_consumers=[c]) if kind == "POWER" else installation(fuel_consumers=[c])


def cross(ctx, kind):
    u, w = ctx.real("u", 0.001, 6), ctx.real("w", 0, 2)  # 1e6
    ps = ctx.choice("ps", [18.0, 27.0, 45.0]) if kind == "3" and not ctx.thorough else ctx.real("ps", 15, 60)
    pd = ctx.real("pd", 30, 90)
    ctx.assume(pd >= ps)
    if kind == "1":
        table, top = {"RATE": X1["RATE"], "POWER": Y1}, 5.0
    elif kind == "3":
        table, top = three_table(), most(ctx, ps, pd)
    else:
        cols, corners, mid, vals = AREAS[kind]
        pts = [*corners, mid]
        table = {c: [p[j] * (M if c == "RATE" else 1.0) for p in pts] for j, c in enumerate(cols)}
        table["POWER"] = vals
        if kind == "rate, discharge":
                top = ctx.ite(pd > 60, 0.0, at(ctx, pd, [(24, 5.0), (56, 4.0), (60, 2.0)]))
        else:
            top = ctx.ite(ps < 20, 0.0, at(ctx, ps, [(20, 2.0), (24, 4.0), (56, 5.0)]))
    limits = {"1": [], "rate, discharge": [pd - 60], "rate, suction": [ps - 20], "3": [ps - 20, pd - 2 * ctx.min(ps, 40) - 20]}[kind]
    ctx.assume(ctx.And(*[abs(v) > 1e-3 for v in limits]))
    files = {**GENSET_FILE, "comp.csv": table, "other.csv": {"RATE": [1.0, 10 * M], "POWER": [0.1, 10.0]}}
    settings = [{"RATES": ["SIM;Q", "SIM;W"], "SUCTION_PRESSURE": "SIM;PS", "DISCHARGE_PRESSURE": "SIM;PD", "CROSSOVER": [2, 0]}]
    inputs = [{"NAME": n, "FILE": f"{n}.csv", "TYPE": "COMPRESSOR_TABULAR"} for n in ("comp", "other")]
    d = doc([system(["comp", "other"], settings, "POWER")], end=years(2)[-1], inputs=inputs)
    r = Results(d, columns={"Q": [u * M], "W": [w * M], "PS": [ps], "PD": [pd]}, dates=years(1), facility=files)
    sender, receiver = [next(m for m in r.models if m.name == f"k{i}") for i in range(2)]
    left = ctx.min(u, top)
    ctx.eq(sender.rate.values[0] / M, left, "the sender keeps up to its maximum rate", atol=1e-5)
    ctx.eq(receiver.rate.values[0] / M, w + u - left, "the rest goes to the receiver", atol=1e-5)
    ctx.check(sender.is_valid.values[0], "a sender is valid at its maximum rate")
    # near its maximum rate a sender must be able to run: with more it is not
    ctx.check(r["s"].is_valid.values[0], "the system is valid")


@harness("cross-over from a sampled compressor of 1 or 2 variables (rate with either pressure) to another: any rates and pressures; 1 period", budget_s=120, max_paths=2000)
def crossover(ctx):
    cross(ctx, ctx.choice("sender", ["1", "rate, discharge", "rate, suction"]))


@harness("cross-over from a sampled compressor of 3 variables to another: any rates and discharge pressure, 3 suction pressures (thorough: any); 1 period", budget_s=120, max_paths=2000)
def crossover_three(ctx):
    cross(ctx, "3")


@harness("cross-over from a compressor with turbine, limited by the turbine or not: any rate; adjustments; 1 period", budget_s=60, max_paths=800)
def turbine_crossover(ctx):
    u, w = ctx.real("u", 0.001, 6), ctx.real("w", 0.001, 1)
    kf, kc = ctx.choice("compressor adjustment", [(1.0, 0.0), (1.25, 0.5)])
    tf, tc = ctx.choice("turbine adjustment", [(1.0, 0.0), (1.25, 1.0), (0.5, 0.0)])
    adj = lambda f, c: {"POWER_ADJUSTMENT_FACTOR": f, "POWER_ADJUSTMENT_CONSTANT": c} if (f, c) != (1.0, 0.0) else {}
    models = [
        {"NAME": "t", "TYPE": "TURBINE", "LOWER_HEATING_VALUE": LHV, "TURBINE_LOADS": T_X, "TURBINE_EFFICIENCIES": T_E, **adj(tf, tc)},
        {"NAME": "big", "TYPE": "TURBINE", "LOWER_HEATING_VALUE": LHV, "TURBINE_LOADS": [0, 1000], "TURBINE_EFFICIENCIES": [0.3, 0.3]},
        {"NAME": "ct", "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": "comp", "TURBINE_MODEL": "t", **adj(kf, kc)},
        {"NAME": "ot", "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": "other", "TURBINE_MODEL": "big"},
    ]
    power = [4.0, 9.0, 24.0]
    files = {**GENSET_FILE, "comp.csv": {"RATE": X1["RATE"], "POWER": power}, "other.csv": {"RATE": [1.0, 10 * M], "POWER": [0.1, 10.0]}}
    settings = [{"RATES": ["SIM;Q", "SIM;W"], "SUCTION_PRESSURE": 10, "DISCHARGE_PRESSURE": 50, "CROSSOVER": [2, 0]}]
    inputs = [{"NAME": n, "FILE": f"{n}.csv", "TYPE": "COMPRESSOR_TABULAR"} for n in ("comp", "other")]
    d = doc([system(["ct", "ot"], settings, "FUEL")], end=years(2)[-1], inputs=inputs, models=models)
    r = Results(d, columns={"Q": [u * M], "W": [w * M]}, dates=years(1), facility=files)
    sender, receiver = [next(m for m in r.models if m.name == f"k{i}") for i in range(2)]
    limit = (T_X[-1] * tf - tc - kc) / kf  # compressor power at the turbine's maximum load
    top = 5.0 if limit >= power[-1] else (2 + (limit - 9) / 5 if limit > 9 else 1 + (limit - 4) / 5)
    kept = sender.rate.values[0] / M
    ctx.le(kept, ctx.min(u, top), "the sender's rate does not overload its turbine", atol=1e-5)
    ctx.le(ctx.min(u, top) - 1e-3 * top, kept, "the sender keeps what its turbine can drive", atol=1e-5)
    ctx.eq(kept + receiver.rate.values[0] / M, u + w, "no rate is lost in the cross-over", atol=1e-5)
    ctx.check(sender.is_valid.values[0], "a sender is valid at its maximum rate")
