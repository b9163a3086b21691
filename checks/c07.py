"""C07: input time series are fitted to the calculation's time vector by the documented rules."""

from datetime import datetime, timedelta

from checks.common import reals, sym_dates
from engine.runner import harness

ASSUMPTIONS = ["dates are whole seconds; data dates are distinct (duplicate dates are rejected on input)"]
OUTSIDE = "parsing of date strings; more than 3 data dates or 4 target dates"
LO, HI = datetime(2018, 1, 1), datetime(2030, 1, 1)


def _expected(ctx, data, kind, extrapolate, t):
    """data: [(date, value)] sorted"""
    first, last = data[0], data[-1]
    if bool(t < first[0]):
        return 0.0
    if bool(t > last[0]):
        return last[1] if extrapolate else 0.0
    for d, v in data:
        if bool(t == d):
            return v
    for (d0, v0), (d1, v1) in zip(data[:-1], data[1:]):
        if bool(ctx.And(d0 < t, t < d1)):
            if kind == "RIGHT":
                return v0
            if kind == "LEFT":
                return v1
            w = (t - d0).total_seconds() / (d1 - d0).total_seconds()
            return v0 + (v1 - v0) * w
    raise AssertionError("unreachable")


def _fit(kind_fixed):
    def h(ctx):
        from libecalc.dto.types import InterpolationType
        from libecalc.presentation.yaml.domain.time_series import TimeSeries

        kind = kind_fixed
        extrapolate = ctx.choice("extrapolate", [True, False])
        n = ctx.choice("n", [1, 2, 3])
        dates = sym_dates(ctx, n, "x", first=datetime(2020, 1, 1))
        vals = reals(ctx, "y", n, -1e6, 1e6)
        order = list(range(n))
        if n > 1 and ctx.choice("shuffled", [False, True]):
            order = order[1:] + order[:1]
        m = 3 if n < 3 else 2
        t0 = ctx.date("t0", LO, HI)
        targets = [t0]
        for i in range(1, m):
            t = ctx.date(f"t{i}", LO, HI)
            ctx.assume(t > targets[-1])
            targets.append(t)
        ts = TimeSeries("SIM;A", [dates[i] for i in order], [vals[i] for i in order], extrapolate, InterpolationType[kind]).sort()
        ctx.check(ts.time_vector == dates, "sorted by date")
        ctx.eqs(ts.series, vals, "values follow their dates")
        out = ts.fit_to_time_vector(targets)
        ctx.check(out.time_vector == targets, "fitted to the requested dates")
        ctx.eqs(out.series, [_expected(ctx, list(zip(dates, vals)), kind, extrapolate, t) for t in targets], "fitted value", atol=1e-3)

    return h


from engine.runner import Harness  # noqa: E402

HARNESSES = [
    Harness(f"fit_{k.lower()}", _fit(k), f"{k} interpolation; 1-3 symbolic data dates in any order, 2-3 symbolic target dates before/at/between/after them, both extrapolation settings, values in [-1e6,1e6]", budget_s=60, max_paths=3000)
    for k in ("RIGHT", "LEFT", "LINEAR")
]


class _Res:
    def __init__(self, dates, cols):
        self._d, self._c = dates, cols

    def get_time_vector(self):
        return self._d

    def get_headers(self):
        return list(self._c)

    def get_column(self, h):
        return self._c[h]


@harness("two collections with their own settings, symbolic dates and values; lookup by name, influence on the time vector", budget_s=25)
def collections(ctx):
    from libecalc.dto.types import InterpolationType
    from libecalc.presentation.yaml.domain.time_series_collection import TimeSeriesCollection
    from libecalc.presentation.yaml.domain.time_series_collections import TimeSeriesCollections
    from libecalc.presentation.yaml.domain.time_series_exceptions import TimeSeriesNotFound

    d = sym_dates(ctx, 3, "x", first=datetime(2020, 1, 1))
    a, b, c = reals(ctx, "a", 2, -1e6, 1e6), reals(ctx, "b", 2, -1e6, 1e6), reals(ctx, "c", 2, -1e6, 1e6)
    inf1, inf2 = ctx.choice("inf1", [True, False]), ctx.choice("inf2", [True, False])
    c1 = TimeSeriesCollection("ONE", _Res([d[1], d[0]], {"A": [a[1], a[0]], "B": [b[1], b[0]]}), InterpolationType.RIGHT, False, inf1)
    c2 = TimeSeriesCollection("TWO", _Res([d[1], d[2]], {"A": c}), InterpolationType.LEFT, True, inf2)
    cs = TimeSeriesCollections({"ONE": c1, "TWO": c2})
    ctx.same(sorted(cs.get_time_series_references()), ["ONE;A", "ONE;B", "TWO;A"], "references")
    t = ctx.date("t", LO, HI)
    for ref, data, kind, ex in (
        ("ONE;A", [(d[0], a[0]), (d[1], a[1])], "RIGHT", False),
        ("ONE;B", [(d[0], b[0]), (d[1], b[1])], "RIGHT", False),
        ("TWO;A", [(d[1], c[0]), (d[2], c[1])], "LEFT", True),
    ):
        s = cs.get_time_series(ref)
        ctx.same(s.reference_id, ref, "reference id")
        ctx.eqs(s.fit_to_time_vector([t]).series, [_expected(ctx, data, kind, ex, t)], "each series uses its own column and its collection's settings")
    want = set()
    if inf1:
        want |= {0, 1}
    if inf2:
        want |= {1, 2}
    ctx.check(sorted(cs.get_time_vector()) == [d[i] for i in sorted(want)], "only influencing collections contribute dates")
    for bad in ("ONE;X", "THREE;A", "ONE"):
        try:
            cs.get_time_series(bad)
            ok = bad == "ONE;X"  # the stub resource raises its own error
        except (TimeSeriesNotFound, KeyError):
            ok = True
        ctx.check(ok, "unknown references are rejected")


@harness("collection settings read from the model: default and miscellaneous types", budget_s=10)
def yaml_settings(ctx):
    from libecalc.presentation.yaml.domain.time_series_collection import TimeSeriesCollection
    from libecalc.presentation.yaml.yaml_types.time_series.yaml_time_series import (
        YamlDefaultTimeSeriesCollection,
        YamlMiscellaneousTimeSeriesCollection,
    )

    d = sym_dates(ctx, 2, "x", first=datetime(2020, 1, 1))
    v = reals(ctx, "v", 2, -1e6, 1e6)
    t = ctx.date("t", LO, HI)
    typ = ctx.choice("type", ["DEFAULT", "MISCELLANEOUS"])
    inf = ctx.choice("inf", [True, False])
    if typ == "DEFAULT":
        y = YamlDefaultTimeSeriesCollection(NAME="S", TYPE="DEFAULT", FILE="f.csv", INFLUENCE_TIME_VECTOR=inf)
        kind, ex = "RIGHT", False
    else:
        kind = ctx.choice("kind", ["RIGHT", "LEFT", "LINEAR"])
        exo = ctx.choice("ex", [None, True, False])
        args = {} if exo is None else {"EXTRAPOLATION": exo}
        y = YamlMiscellaneousTimeSeriesCollection(NAME="S", TYPE="MISCELLANEOUS", FILE="f.csv", INFLUENCE_TIME_VECTOR=inf, INTERPOLATION_TYPE=kind, **args)
        ex = bool(exo)
    c = TimeSeriesCollection.from_yaml(_Res(d, {"A": v}), y)
    ctx.same(c.should_influence_time_vector(), inf, "influence setting")
    ctx.eqs(c.get_time_series("A").fit_to_time_vector([t]).series, [_expected(ctx, list(zip(d, v)), kind, ex, t)], "settings of the model are applied", atol=1e-3)


@harness("up to 3 series dates and 2 extra dates (possibly equal), symbolic start/end, optional start", budget_s=40, max_paths=3000)
def global_time_vector(ctx):
    from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
    from libecalc.presentation.yaml.mappers.variables_mapper.get_global_time_vector import get_global_time_vector

    n = ctx.choice("n", [0, 1, 2])
    k = ctx.choice("k", [0, 1])
    dates = [ctx.date(f"s{i}", LO, HI) for i in range(n)]
    extra = [ctx.date(f"e{i}", LO, HI) for i in range(k)]
    has_start = ctx.choice("has_start", [True, False])
    start = ctx.date("start", LO, HI) if has_start else None
    end = ctx.date("end", LO, HI)
    try:
        tv = get_global_time_vector(dates, end=end, start=start, additional_dates=set(extra) if k else None)
    except EcalcValidationException:
        tv = None
    if not n and start is None:
        ctx.check(tv is None, "no dates at all is rejected")
        return
    s = start
    if s is None:
        s = dates[0]
        for x in dates[1:]:
            if bool(x < s):
                s = x
    if bool(end <= s):
        ctx.check(tv is None, "an end date not after the start is rejected")
        return
    if tv is None:
        ctx.fail("a valid span is accepted")
        return
    for p, q in zip(tv[:-1], tv[1:]):
        ctx.check(p < q, "the time vector is strictly increasing")
    ctx.check(ctx.And(tv[0] == s, tv[-1] == end), "the time vector runs from start to end")
    for x in dates + extra:
        if bool(ctx.And(s <= x, x <= end)):
            ctx.check(ctx.Or(*[x == y for y in tv]), "every date inside the span is kept")
    for y in tv:
        ctx.check(ctx.Or(y == s, y == end, *[x == y for x in dates + extra]), "no date is invented")
