"""C06: the expression language means ordinary arithmetic, evaluated per period."""

from checks.common import reals
from engine.runner import Harness, harness

ASSUMPTIONS = [
    "a reference evaluator (recursive descent written from the documentation) is the oracle",
    "chained comparisons without parentheses are not specified and not generated",
    "powers have literal exponents",
]
OUTSIDE = "expressions with more than 3 operators; division overflow to infinity"

ARITH = ["{+}", "{-}", "{*}", "{/}"]
COMP = ["<", "<=", ">", ">=", "==", "!="]
PREC = {"{^}": 3, "{*}": 2, "{/}": 2, "{+}": 1, "{-}": 1, **dict.fromkeys(COMP, 0)}


def _apply(ctx, op, a, b):
    if op == "{+}":
        return a + b
    if op == "{-}":
        return a - b
    if op == "{*}":
        return a * b
    if op == "{/}":
        if b == 0:
            ctx.assume(a == 0)  # x/0 with x != 0 saturates; not specified here
            return 0.0
        return a / b
    c = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    return ctx.ite(c, 1.0, 0.0)


def _ref(ctx, vals, ops):
    """left-associative precedence evaluation of vals[0] ops[0] vals[1] ..."""
    vals, ops = list(vals), list(ops)
    for level in (2, 1, 0):
        i = 0
        while i < len(ops):
            if PREC[ops[i]] == level:
                vals[i : i + 2] = [_apply(ctx, ops[i], vals[i], vals[i + 1])]
                ops.pop(i)
            else:
                i += 1
    return vals[0]


def _eval(text, env, n):
    from libecalc.expression import Expression

    return Expression.setup_from_expression(text).evaluate(env, n)


def _two_ops(first):
    def h(ctx):
        op1 = first
        op2 = ctx.choice("op2", ARITH + COMP)
        form = ctx.choice("form", ["plain", "left", "right"])
        if form == "plain" and op1 in COMP and op2 in COMP:
            ctx.assume(False)
        cols = {n: reals(ctx, n, 2, -1e3, 1e3) for n in ("a", "b", "c")}
        env = {"SIM;A:1-x": cols["a"], "SIM;B": cols["b"], "$var.c": cols["c"]}
        A, B, C = "SIM;A:1-x", "SIM;B", "$var.c"
        text = {"plain": f"{A} {op1} {B} {op2} {C}", "left": f"({A} {op1} {B}) {op2} {C}", "right": f"{A} {op1} ({B} {op2} {C})"}[form]
        want = []
        for a, b, c in zip(cols["a"], cols["b"], cols["c"]):
            if form == "plain":
                want.append(_ref(ctx, [a, b, c], [op1, op2]))
            elif form == "left":
                want.append(_apply(ctx, op2, _apply(ctx, op1, a, b), c))
            else:
                want.append(_apply(ctx, op1, a, _apply(ctx, op2, b, c)))
        got = _eval(text, env, 2)
        ctx.eqs(got, want, "expression value", atol=1e-5)

    return h


HARNESSES = [
    Harness(f"two_operators_{i}", _two_ops(op), f"A {op} B <any operator> C with each parenthesisation; 2 periods; values in [-1e3,1e3]", budget_s=25, max_paths=600)
    for i, op in enumerate(ARITH + COMP)
]


@harness("three operators, arithmetic only, no parentheses; one period", budget_s=40, max_paths=600)
def three_operators(ctx):
    ops = [ctx.choice(f"op{i}", ARITH) for i in range(3)]
    v = reals(ctx, "v", 4, -1e3, 1e3)
    want = _ref(ctx, v, ops)
    got = _eval(f"A {ops[0]} B {ops[1]} C {ops[2]} D", {k: [x] for k, x in zip("ABCD", v)}, 1)
    ctx.eqs(got, [want], "expression value", atol=1e-5)


@harness("powers with literal exponent, literals, scientific notation, constants; 2 periods", budget_s=20)
def literals(ctx):
    a = reals(ctx, "a", 2, -100, 100)
    env = {"A": a}
    ctx.eqs(_eval("A {^} 2", env, 2), [x * x for x in a], "square")
    ctx.eqs(_eval("2 {*} A {^} 2 {+} 1", env, 2), [2 * x * x + 1 for x in a], "power binds tighter than product")
    ctx.eqs(_eval("2 {^} 3 {^} 2", env, 2), [512.0, 512.0], "power is right associative")
    ctx.eqs(_eval("A {*} 1.5e-2", env, 2), [x * 0.015 for x in a], "scientific literal")
    ctx.eqs(_eval("1e+1 {+} A", env, 2), [x + 10 for x in a], "scientific literal")
    ctx.eqs(_eval(5, env, 2), [5.0, 5.0], "a number fills every period")
    ctx.eqs(_eval("5.25", env, 2), [5.25, 5.25], "a numeric string fills every period")
    ctx.eqs(_eval("1.2e-05", env, 2), [1.2e-05, 1.2e-05], "a numeric string fills every period", atol=1e-12)
    ctx.eqs(_eval("A {-} A {-} A", env, 2), [-x for x in a], "subtraction is left associative")
    ctx.eqs(_eval("8 {/} 4 {/} 2 {+} 0 {*} A", env, 2), [1.0, 1.0], "division is left associative")
    ctx.eqs(_eval("(A > 0) {+} (A > 1)", env, 2), [ctx.ite(x > 1, 2.0, ctx.ite(x > 0, 1.0, 0.0)) for x in a], "truth values add as numbers")
    ctx.eqs(_eval("((A))", env, 2), a, "redundant parentheses")


@harness("product of two expressions and text round trip; 2 periods", budget_s=20)
def compose(ctx):
    from libecalc.expression import Expression

    a, b = reals(ctx, "a", 2, -1e3, 1e3), reals(ctx, "b", 2, -1e3, 1e3)
    env = {"A": a, "B": b}
    e1 = Expression.setup_from_expression("A {+} B")
    e2 = Expression.setup_from_expression("A {-} 2")
    p = Expression.multiply(e1, e2)
    ctx.eqs(p.evaluate(env, 2), [(x + y) * (x - 2) for x, y in zip(a, b)], "multiplying expressions multiplies their values")
    again = Expression.setup_from_expression(str(p))
    ctx.eqs(again.evaluate(env, 2), [(x + y) * (x - 2) for x, y in zip(a, b)], "printing and parsing keeps the meaning")
    ctx.same(sorted(set(p.variables)), ["A", "B"], "referenced variables")


BAD = ["A {+}", "{*} A", "(A {+} B", "A {+} B)", "A B", "A {+} B C", "3 A", "A # B" , "A + B", "A ; B", "(A) (B)"]


@harness("malformed expressions (missing operand/operator/parenthesis, unknown operator), missing references", budget_s=10)
def malformed(ctx):
    from libecalc.expression.expression import Expression, InvalidExpressionError

    a, b, c = ([ctx.real(n, -1e3, 1e3)] for n in "abc")
    text = ctx.choice("text", [t for t in BAD if "#" not in t] + ["A {+} MISSING", "$var.missing"])
    try:
        r = Expression.setup_from_expression(text).evaluate({"A": a, "B": b, "C": c}, 1)
        ok = False
    except InvalidExpressionError:
        ok, r = True, None
    ctx.check(ok, f"rejected: {text}", f"evaluated to {r}")
