"""C01: periods are half-open intervals; temporal models pick the definition in force."""

from datetime import datetime, timedelta

from checks.common import make_periods, sym_dates
from engine.runner import harness

ASSUMPTIONS = ["dates are whole seconds in 2000-2040; symbolic dates are integers (seconds)"]
OUTSIDE = "time zones, sub-second dates, more than 4 periods / 3 temporal keys"
LO, HI = datetime(2000, 1, 1), datetime(2040, 1, 1)


def _d(ctx, n):
    return ctx.date(n, LO, HI)


def _inside(ctx, t, p):
    return ctx.And(p.start <= t, t < p.end)


@harness("two arbitrary non-empty periods and an arbitrary instant, second resolution, 40 years", budget_s=25)
def algebra(ctx):
    from libecalc.common.time_utils import Period

    a = Period(_d(ctx, "a0"), _d(ctx, "a1"))
    b = Period(_d(ctx, "b0"), _d(ctx, "b1"))
    ctx.assume(a.start < a.end)
    ctx.assume(b.start < b.end)
    t = _d(ctx, "t")
    ina, inb = bool(t in a), bool(t in b)
    ctx.check(ina == bool(_inside(ctx, t, a)), "a period contains exactly the instants from its start up to but not including its end")
    x1, x2 = bool(Period.intersects(a, b)), bool(Period.intersects(b, a))
    ctx.check(x1 == x2, "intersects is symmetric")
    i = Period.intersection(a, b)
    ctx.check((i is not None) == x1, "intersection exists exactly when the periods intersect")
    ctx.check(x1 == bool(ctx.And(a.start < b.end, b.start < a.end)), "periods intersect exactly when they share time")
    ini = bool(t in i) if i is not None else False
    ctx.check(ini == (ina and inb), "intersection holds exactly the shared instants")
    ctx.check(bool(b in a) == bool(ctx.And(a.start <= b.start, b.end <= a.end)), "period containment")
    ctx.check(a.duration == a.end - a.start, "duration")


@harness("2-4 strictly increasing symbolic dates, arbitrary query instant; all include_before/after flags", budget_s=20)
def create_periods(ctx):
    from libecalc.common.time_utils import Period, Periods

    n = ctx.choice("n", [1, 2, 3, 4])
    dates = sym_dates(ctx, n)
    before = ctx.choice("before", [True, False])
    after = ctx.choice("after", [True, False])
    ps = Periods.create_periods(dates, include_before=before, include_after=after)
    lst = list(ps)
    ctx.same(len(lst), n - 1 + before + after, "number of periods")
    t = _d(ctx, "t")
    for p, q in zip(lst[:-1], lst[1:]):
        ctx.check(p.end == q.start, "periods are contiguous")
    hits = sum(1 for p in lst if bool(t in p))
    lo_ok = True if before else bool(t >= dates[0])
    hi_ok = True if after else bool(t < dates[-1])
    ctx.same(hits, 1 if (lo_ok and hi_ok) else 0, "every instant in the span lies in exactly one period")
    if lst:
        ctx.check(ps.all_dates == [p.start for p in lst] + [lst[-1].end], "all dates")
        ctx.check(ps.first_date == lst[0].start and ps.last_date == lst[-1].end, "first and last date")
        ctx.check(ps.period == Period(lst[0].start, lst[-1].end), "spanning period")


@harness("3 symbolic contiguous periods; target period = any pair of their dates, widened or not on each side", budget_s=25)
def selection(ctx):
    from libecalc.common.time_utils import Period

    dates = sym_dates(ctx, 4)
    ps = make_periods(dates)
    i = ctx.choice("i", [0, 1, 2])
    j = ctx.choice("j", [1, 2, 3])
    ctx.assume(i < j)
    wide = ctx.choice("wide", [0, 1])
    s = dates[i] - timedelta(days=5) if wide and i == 0 else dates[i]
    e = dates[j] + timedelta(days=5) if wide and j == 3 else dates[j]
    target = Period(s, e)
    ctx.same(tuple(target.get_period_indices(ps)), (i, j), "indices of a period inside a vector of periods")
    sub = target.get_periods(ps)
    ctx.check(list(sub) == list(ps)[i:j], "selected periods are those inside the target")
    ctx.check(target.get_timesteps(dates[:-1]) == dates[i:j], "selected timesteps")
    far = Period(dates[-1] + timedelta(days=1), dates[-1] + timedelta(days=2))
    ctx.same(len(far.get_periods(ps)), 0, "disjoint target selects nothing")


@harness("temporal model with 1-3 sorted symbolic date keys, arbitrary target period and instant", budget_s=40)
def temporal_model(ctx):
    from libecalc.common.temporal_model import TemporalModel
    from libecalc.common.time_utils import Period, define_time_model_for_period

    n = ctx.choice("n", [1, 2, 3])
    dates = sym_dates(ctx, n, first=datetime(2010, 1, 1))
    model = {d: f"m{k}" for k, d in enumerate(dates)}
    tgt = Period(_d(ctx, "s"), _d(ctx, "e"))
    ctx.assume(tgt.start < tgt.end)
    t = _d(ctx, "t")
    out = define_time_model_for_period(model, tgt)
    hits = [m for p, m in out.items() if bool(t in p)]
    force = None
    for k, d in enumerate(dates):
        if bool(d <= t):
            force = f"m{k}"
    want = [force] if (force is not None and bool(_inside(ctx, t, tgt))) else []
    ctx.same(hits, want, "inside the target the latest definition not after the instant applies, outside none does")
    for p in out:
        ctx.check(ctx.And(tgt.start <= p.start, p.start < p.end, p.end <= tgt.end), "definitions are clipped to the target")
    if out:
        tm = TemporalModel(out)
        if want:
            ctx.same(tm.get_model(t), force, "lookup by instant")
        keys = list(out)
        q = Period(t, t + timedelta(seconds=1))
        if want:
            ctx.same(tm.get_model(q), force, "lookup by period")
        ctx.check(list(tm.get_periods()) == keys, "periods listed in order")
        ctx.check([m for m in tm.get_models()] == [out[k] for k in keys], "models listed in order")
        ctx.check(tm.get_period() == Period(keys[0].start, keys[-1].end), "spanning period of the model")
    ctx.check(define_time_model_for_period(None, tgt) is None, "no model stays no model")
    plain = define_time_model_for_period("x", tgt)
    ctx.check(list(plain.items()) == [(tgt, "x")], "a plain value applies to the whole target")


@harness("temporal model from 3 distinct symbolic dates in any order", budget_s=25)
def unsorted_keys(ctx):
    from libecalc.common.temporal_model import InvalidTemporalModel, TemporalModel

    ds = [_d(ctx, f"k{i}") for i in range(3)]
    ctx.assume(ctx.And(ds[0] != ds[1], ds[1] != ds[2], ds[0] != ds[2]))
    is_sorted = bool(ctx.And(ds[0] < ds[1], ds[1] < ds[2]))
    data = dict(zip(ds, "abc"))
    try:
        tm = TemporalModel(data)
        raised = False
    except InvalidTemporalModel:
        raised = True
    ctx.same(raised, not is_sorted, "date keys that are not in ascending order are rejected")
    if not raised:
        t = _d(ctx, "t")
        ctx.assume(t >= ds[0])
        force = "a"
        for d, m in zip(ds, "abc"):
            if bool(d <= t):
                force = m
        ctx.same(tm.get_model(t), force, "latest definition applies from its date onwards")
