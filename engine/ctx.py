"""The harness-facing context.  The same harness function runs symbolically (Ctx) and concretely (ReplayCtx)."""

from __future__ import annotations

import math
from datetime import datetime, timedelta
from fractions import Fraction

ATOL = 1e-6
RTOL = 1e-6


class Violation(Exception):
    def __init__(self, label, detail=""):
        super().__init__(f"{label}: {detail}")
        self.label = label


class ReplaySkip(BaseException):
    """The concrete inputs do not satisfy the harness's assumptions."""


def _nan(x):
    return isinstance(x, float) and math.isnan(x)


class ReplayCtx:
    """Plain floats, unmodified libraries."""

    symbolic = False

    def __init__(self, inputs: dict):
        self.inputs = inputs
        self.failures: list[tuple[str, str]] = []
        self.checks = 0

    # inputs
    def real(self, name, lo=None, hi=None):
        v = float(self.inputs[name])
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return v

    def log_points(self, points):
        pass

    def integer(self, name, lo, hi):
        return int(self.inputs[name])

    def boolean(self, name):
        return bool(self.inputs[name])

    def choice(self, name, options):
        return options[int(self.inputs[name])]

    def date(self, name, lo, hi):
        """whole-second datetime"""
        return lo + timedelta(seconds=round(float(self.inputs[name])))

    # assertions
    def assume(self, cond):
        if not cond:
            raise ReplaySkip()

    def check(self, cond, label, detail=""):
        self.checks += 1
        if not bool(cond):
            self.failures.append((label, str(detail)))

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def near(self, a, b, atol=ATOL, rtol=RTOL):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= (atol + rtol * abs(b)) * 0.5

    def eq(self, a, b, label, atol=ATOL, rtol=RTOL):
        self.check(self.near(a, b, atol, rtol), label, f"{a!r} != {b!r}")

    def le(self, a, b, label, atol=ATOL, rtol=RTOL):
        a, b = float(a), float(b)
        ok = not (math.isnan(a) or math.isnan(b)) and a <= b + (atol + rtol * abs(b)) * 0.5
        self.check(ok, label, f"{a!r} > {b!r}")

    def same(self, a, b, label):
        """exact equality of non-numeric or discrete values"""
        self.check(a == b, label, f"{a!r} != {b!r}")

    def eqs(self, xs, ys, label, **k):
        xs, ys = list(xs), list(ys)
        if len(xs) != len(ys):
            self.check(False, label + " (length)", f"{len(xs)} != {len(ys)}")
            return
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.eq(x, y, label, **k)

    # logic usable in both modes
    @staticmethod
    def And(*xs):
        return all(xs)

    @staticmethod
    def Or(*xs):
        return any(xs)

    @staticmethod
    def Not(x):
        return not x

    @staticmethod
    def implies(a, b):
        return (not a) or bool(b)

    @staticmethod
    def ite(c, a, b):
        return a if c else b

    @staticmethod
    def max(*xs):
        return max(xs)

    @staticmethod
    def min(*xs):
        return min(xs)

    @staticmethod
    def abs(x):
        return abs(x)

    @staticmethod
    def isnan(x):
        return math.isnan(float(x))

    def array(self, xs):
        import numpy as np

        return np.array(list(xs), dtype=float)

    def witness(self, label):
        pass

    def exact_roots(self, last_probe=False):
        pass

    def fork_minmax(self):
        pass


class SymCtx:
    symbolic = True

    def __init__(self, path, harness_state):
        self.path = path
        self.hs = harness_state  # runner.HarnessState

    def exact_roots(self, last_probe=False):
        """root_scalar returns a root, not a point near one; with last_probe the root is not the last point it tries"""
        self.path.exact_roots = True
        self.path.last_probe = last_probe

    def fork_minmax(self):
        """max() and min() of symbolic values split the path instead of building an if-then-else"""
        self.path.fork_minmax = True

    # inputs
    def _reg(self, name, e, kind):
        self.path.inputs[name] = (e, kind)

    def log_points(self, points):
        """values at which the logarithm is pinned exactly"""
        self.path.log_points = tuple(points)

    def real(self, name, lo=None, hi=None):
        import z3

        from engine import sym as S

        v = z3.Real(name)
        self._reg(name, v, "real")
        if lo is not None:
            self.path.add(v >= S.to_q(lo))
        if hi is not None:
            self.path.add(v <= S.to_q(hi))
        return S.SymReal(v, False)

    def integer(self, name, lo, hi):
        import z3

        from engine import sym as S

        v = z3.Int(name)
        self._reg(name, v, "int")
        self.path.add(z3.And(v >= lo, v <= hi))
        return S.SymReal(z3.ToReal(v), False)

    def boolean(self, name):
        import z3

        from engine import sym as S

        v = z3.Bool(name)
        self._reg(name, v, "bool")
        return S.SymBool(v)

    def choice(self, name, options):
        import z3

        v = z3.Int(name)
        self._reg(name, v, "int")
        self.path.add(z3.And(v >= 0, v < len(options)))
        for i in range(len(options) - 1):
            if self.path.branch(v == i):
                return options[i]
        return options[-1]

    def date(self, name, lo, hi):
        import z3

        from engine.symtime import SymDT, dt_e

        v = z3.Int(name)
        self._reg(name, v, "int")
        self.path.add(z3.And(v >= 0, v <= int((hi - lo).total_seconds())))
        return SymDT(dt_e(lo) + v)

    # assertions
    def assume(self, cond):
        from engine import sym as S

        if not S.is_sym(cond):
            if not cond:
                raise S.PathInfeasible()
            return
        e = S.bx(cond)
        self.path.add(e)
        if not self.path.replaying():
            import z3

            r, _ = self.path._check()
            if r == z3.unsat:
                raise S.PathInfeasible()

    def check(self, cond, label, detail=""):
        from engine import sym as S

        if not S.is_sym(cond):
            self.hs.count(label)
            if not bool(cond):
                self.hs.candidate(self.path, None, label, str(detail))
            return
        import z3

        self.hs.decide(self.path, z3.Not(S.bx(cond)), label)

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def _diff(self, a, b, atol, rtol):
        """Returns True/False if decided without the solver, else list of negated-goal expressions (strong, weak)."""
        import z3

        from engine import sym as S

        if not S.is_sym(a) and not S.is_sym(b):
            a, b = float(a), float(b)
            if math.isnan(a) or math.isnan(b):
                return math.isnan(a) and math.isnan(b)
            if math.isinf(a) or math.isinf(b):
                return a == b
            return abs(a - b) <= atol + rtol * abs(b)
        if S.is_special(a) or S.is_special(b):
            return False
        d = z3.simplify(S.ex(a) - S.ex(b), som=True)
        if z3.is_rational_value(d):
            if d.numerator_as_long() == 0:
                return True
        eb = S.ex(b)
        absb = z3.If(eb >= 0, eb, -eb)

        def neg(k):
            t = S.to_q(atol * k) + S.to_q(rtol * k) * absb
            return z3.Or(d > t, -d > t)

        # weak uses the plain constant tolerance when rtol adds nothing: cheap linear query first
        return [neg(1000), neg(1)]

    def near(self, a, b, atol=ATOL, rtol=RTOL):
        import z3

        from engine import sym as S

        r = self._diff(S.plain(a), S.plain(b), atol, rtol)
        if isinstance(r, bool):
            return r
        return S.mkb(z3.Not(r[-1]))

    def eq(self, a, b, label, atol=ATOL, rtol=RTOL):
        from engine import sym as S

        r = self._diff(S.plain(a), S.plain(b), atol, rtol)
        if isinstance(r, bool):
            if self.path.replaying():
                return
            self.hs.count(label)
            if not r:
                self.hs.candidate(self.path, None, label, f"{a!r} != {b!r}")
            elif S.is_sym(S.plain(a)) or S.is_sym(S.plain(b)):
                self.hs.discharged += 1  # the difference normalises to 0
            return
        self.hs.decide(self.path, r[1], label, strong=r[0])

    def le(self, a, b, label, atol=ATOL, rtol=RTOL):
        import z3

        from engine import sym as S

        a, b = S.plain(a), S.plain(b)
        if S.is_special(a) or S.is_special(b) or (not S.is_sym(a) and not S.is_sym(b)):
            c = a <= b if S.is_special(a) or S.is_special(b) else a <= b + atol + rtol * abs(b)
            return self.check(c, label, f"{a!r} > {b!r}")
        eb = S.ex(b)
        absb = z3.If(eb >= 0, eb, -eb)
        d = z3.simplify(S.ex(a) - eb, som=True)
        self.hs.decide(self.path, d > S.to_q(atol) + S.to_q(rtol) * absb, label,
                       strong=d > S.to_q(atol * 1000) + S.to_q(rtol * 1000) * absb)

    def same(self, a, b, label):
        from engine import sym as S

        c = a == b
        if not S.is_sym(c):
            c = bool(c)
        self.check(c, label, f"{a!r} != {b!r}")

    def eqs(self, xs, ys, label, **k):
        xs, ys = list(xs), list(ys)
        if len(xs) != len(ys):
            self.check(False, label + " (length)", f"{len(xs)} != {len(ys)}")
            return
        for x, y in zip(xs, ys):
            self.eq(x, y, label, **k)

    @staticmethod
    def And(*xs):
        from engine import sym as S

        return S.land(*xs)

    @staticmethod
    def Or(*xs):
        from engine import sym as S

        return S.lor(*xs)

    @staticmethod
    def Not(x):
        from engine import sym as S

        return S.lnot(x)

    @staticmethod
    def implies(a, b):
        from engine import sym as S

        return S.lor(S.lnot(a), b)

    @staticmethod
    def ite(c, a, b):
        from engine import sym as S

        return S.ite(c, a, b)

    @staticmethod
    def max(*xs):
        from engine import helpers

        return helpers.max_(*xs)

    @staticmethod
    def min(*xs):
        from engine import helpers

        return helpers.min_(*xs)

    @staticmethod
    def abs(x):
        from engine import sym as S

        return S.absolute(x)

    @staticmethod
    def isnan(x):
        from engine import sym as S

        return False if S.is_sym(x) else math.isnan(float(x))

    def array(self, xs):
        from engine.shims import np_shim

        return np_shim.array(list(xs), dtype=float)

    def witness(self, label):
        self.hs.witnesses[label] = self.hs.witnesses.get(label, 0) + 1
