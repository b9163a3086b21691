"""C08: variables evaluate in dependency order and per period; dated expressions apply from their date."""

from datetime import datetime, timedelta
from itertools import permutations

from checks.common import make_periods, reals, sym_dates
from engine.runner import harness

ASSUMPTIONS = ["dates of time-dependent variables coincide with period boundaries or lie outside the span (the time vector contains all dates of the model)"]
OUTSIDE = "more than 3 interdependent variables, more than 3 periods / 3 dated definitions"


def _var(text):
    from libecalc.presentation.yaml.yaml_types.yaml_variable import YamlSingleVariable

    return YamlSingleVariable(VALUE=text)


def _evaluate(variables, columns, periods):
    from types import SimpleNamespace

    from libecalc.dto.types import InterpolationType
    from libecalc.presentation.yaml.domain.time_series import TimeSeries
    from libecalc.presentation.yaml.mappers.variables_mapper.variables_mapper import map_yaml_to_variables

    class Provider:
        def get_time_series_references(self):
            return list(columns)

        def get_time_series(self, ref):
            return TimeSeries(ref, list(periods.start_dates), columns[ref], True, InterpolationType.RIGHT)

    return map_yaml_to_variables(SimpleNamespace(variables=variables), Provider(), periods)


@harness("3 variables referring to each other and to 2 input series, every declaration order; 2 periods", budget_s=30)
def dependency_order(ctx):
    ps = make_periods(sym_dates(ctx, 3))
    a, b = reals(ctx, "a", 2, -1e3, 1e3), reals(ctx, "b", 2, -1e3, 1e3)
    defs = {"v1": _var("SIM;A {+} 1"), "v2": _var("$var.v1 {*} 2"), "v3": _var("$var.v2 {-} SIM;B {*} $var.v1")}
    order = ctx.choice("order", list(permutations(defs)))
    vm = _evaluate({k: defs[k] for k in order}, {"SIM;A": a, "SIM;B": b}, ps)
    ctx.eqs(vm.variables["$var.v1"], [x + 1 for x in a], "variable value")
    ctx.eqs(vm.variables["$var.v2"], [(x + 1) * 2 for x in a], "variable referring to a variable")
    ctx.eqs(vm.variables["$var.v3"], [(x + 1) * 2 - y * (x + 1) for x, y in zip(a, b)], "variable referring to variables and series")
    ctx.eqs(vm.variables["SIM;A"], a, "input series unchanged")
    ctx.check(list(vm.get_periods()) == list(ps), "periods of the variables")


@harness("circular and missing references, every declaration order", budget_s=15)
def unsolvable(ctx):
    from libecalc.presentation.yaml.mappers.variables_mapper.variables_mapper import InvalidVariablesException

    ps = make_periods(sym_dates(ctx, 3))
    a = reals(ctx, "a", 2, -1e3, 1e3)
    case = ctx.choice("case", ["self", "cycle", "missing", "indirect"])
    defs = {
        "self": {"x": "$var.x {+} SIM;A", "ok": "SIM;A"},
        "cycle": {"x": "$var.y {+} 1", "y": "$var.x {+} SIM;A", "ok": "SIM;A"},
        "missing": {"x": "SIM;B", "ok": "SIM;A"},
        "indirect": {"y": "$var.x", "x": "$var.nope", "ok": "SIM;A"},
    }[case]
    order = ctx.choice("order", list(permutations(defs)))
    try:
        vm = _evaluate({k: _var(defs[k]) for k in order}, {"SIM;A": a}, ps)
        got = vm.variables
        ok = False
    except InvalidVariablesException as e:
        ok, got = "$var.x" in str(e), None
    ctx.check(ok, "unsolvable variables are reported, not evaluated", got)


@harness("time-dependent variable with 1-3 distinct dates in any order, on period boundaries or outside the span; 3 symbolic periods", budget_s=60, max_paths=2500)
def time_dependent(ctx):
    dates = sym_dates(ctx, 4)
    ps = make_periods(dates)
    a = reals(ctx, "a", 3, -1e3, 1e3)
    n = ctx.choice("n", [1, 2, 3])
    spots = [dates[0] - timedelta(days=400), *dates]
    which = []
    for i in range(n):
        which.append(ctx.choice(f"k{i}", [s for s in range(len(spots)) if s not in which]))
    exprs = ["SIM;A {+} 1", "SIM;A {*} 2", "7"]
    f = [lambda x: x + 1, lambda x: x * 2, lambda x: 7.0]
    var = {spots[w]: _var(exprs[i]) for i, w in enumerate(which)}
    vm = _evaluate({"t": var, "u": _var("$var.t {*} 3")}, {"SIM;A": a}, ps)
    want = []
    for j in range(3):
        best = None
        for i, w in enumerate(which):
            if w <= j + 1 and (best is None or w > which[best]):
                best = i
        want.append(0.0 if best is None else f[best](a[j]))
    ctx.eqs(vm.variables["$var.t"], want, "the latest definition not after the period applies, 0 before the first")
    ctx.eqs(vm.variables["$var.u"], [3 * x for x in want], "variables may refer to time-dependent variables")


@harness("expression per period: 1-2 dated expressions over 3 symbolic periods, clipped to a target", budget_s=40, max_paths=1500)
def temporal_expressions(ctx):
    from libecalc.common.time_utils import Period
    from libecalc.common.variables import VariablesMap
    from libecalc.expression import Expression
    from libecalc.expression.temporal_expression import TemporalExpression

    dates = sym_dates(ctx, 4)
    ps = make_periods(dates)
    a = reals(ctx, "a", 3, -1e3, 1e3)
    vm = VariablesMap(periods=ps, variables={"SIM;A": a})
    kind = ctx.choice("kind", ["plain", "number", "dated", "periods"])
    ts = ctx.choice("ts", [0, 1, 2])
    te = ctx.choice("te", [k for k in (1, 2, 3) if k > ts])
    start = dates[ts] if ctx.choice("clip_start", [True, False]) or ts else dates[0] - timedelta(days=100)
    end = dates[te] if ctx.choice("clip_end", [True, False]) or te < 3 else dates[3] + timedelta(days=100)
    target = Period(start, end)
    k1 = ctx.choice("k1", [0, 1, 2])
    first = dates[k1] if k1 else dates[0] - timedelta(days=10)
    k2 = ctx.choice("k2", [k for k in (1, 2, 3) if k > k1])
    far = dates[3] + timedelta(days=1000)
    e = {
        "plain": "SIM;A {+} 1",
        "number": 4,
        "dated": {first: "SIM;A {+} 1", dates[k2]: "SIM;A {*} 3"},
        "periods": {Period(first, dates[k2]): "SIM;A {+} 1", Period(dates[k2], far): "SIM;A {*} 3"},
    }[kind]
    got = TemporalExpression(expression=e, target_period=target, expression_evaluator=vm).evaluate()
    want = []
    for j in range(3):
        if not (ts <= j < te):
            want.append(0.0)
        elif kind == "plain":
            want.append(a[j] + 1)
        elif kind == "number":
            want.append(4.0)
        elif j >= k2:
            want.append(a[j] * 3)
        elif j >= k1:
            want.append(a[j] + 1)
        else:
            want.append(0.0)
    ctx.eqs(got, want, "each period uses the expression in force, zero outside the target")
    ctx.eqs(vm.evaluate(Expression.setup_from_expression("SIM;A {*} 2")), [2 * x for x in a], "plain evaluation")


@harness("subset of the variables for a period: any pair of dates, widened or not on each side, and disjoint periods", budget_s=30)
def subsets(ctx):
    from libecalc.common.time_utils import Period
    from libecalc.common.variables import VariablesMap
    from libecalc.expression import Expression

    dates = sym_dates(ctx, 4)
    ps = make_periods(dates)
    a, b = reals(ctx, "a", 3, -1e3, 1e3), reals(ctx, "b", 3, -1e3, 1e3)
    vm = VariablesMap(periods=ps, variables={"SIM;A": a, "$var.b": b})
    i = ctx.choice("i", [0, 1, 2])
    j = ctx.choice("j", [k for k in (1, 2, 3) if k > i])
    start = dates[0] - timedelta(days=5) if i == 0 and ctx.choice("wide_start", [True, False]) else dates[i]
    end = dates[3] + timedelta(days=5) if j == 3 and ctx.choice("wide_end", [True, False]) else dates[j]
    sub = vm.get_subset_for_period(Period(start, end))
    ctx.check(list(sub.get_periods()) == list(ps)[i:j], "subset covers the periods inside")
    ctx.eqs(sub.variables["SIM;A"], a[i:j], "subset keeps the values of its periods")
    ctx.eqs(sub.evaluate(Expression.setup_from_expression("SIM;A {+} $var.b {+} 1")), [x + y + 1 for x, y in zip(a[i:j], b[i:j])], "expressions evaluate on the subset")
    ctx.check(sub.period == Period(dates[i], dates[j]), "subset span")
    ctx.same(sub.number_of_periods, j - i, "number of periods")
    k = ctx.choice("k", [0, 1, 2])
    one = vm.get_subset_for_timestep(dates[k])
    ctx.eqs(one.variables["$var.b"], [b[k]], "subset for one date")
    ctx.check(list(one.get_periods()) == [list(ps)[k]], "subset for one date covers its period")
    s2 = vm.get_subset(i, j)
    ctx.eqs(s2.variables["$var.b"], b[i:j], "subset by index")
    ctx.check(list(s2.get_periods()) == list(ps)[i:j], "subset by index covers those periods")
    none = vm.get_subset_for_period(Period(dates[3] + timedelta(days=1), dates[3] + timedelta(days=9)))
    ctx.same((len(none.get_periods()), len(none.variables["SIM;A"])), (0, 0), "a disjoint period gives an empty subset")
