"""Symbolic values backed by z3 and the path explorer that executes real Python code with them."""

from __future__ import annotations

import math
import os
import random
import sys
import time
from fractions import Fraction

import numpy as np
import z3

z3.set_param("model.completion", True)


class EngineStop(BaseException):
    """Base for control-flow exceptions (not Exception: code under test must not swallow them)."""


class PathInfeasible(EngineStop):
    pass


class PathBudget(EngineStop):
    pass


class PathDiverged(EngineStop):
    """Re-execution did not follow the recorded prefix (non-determinism outside the engine)."""


class ReplayAssumptionFailed(EngineStop):
    pass


# --------------------------------------------------------------------------------------
# current path
# --------------------------------------------------------------------------------------
CUR: "PathState | None" = None
SLOW = float(os.environ.get("ECALC_SLOW", "inf"))  # report queries that take longer (s)


def cur() -> "PathState":
    if CUR is None:
        raise RuntimeError("symbolic value used outside a symbolic run")
    return CUR


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.concretised = 0
        self.concretise_sites: dict[str, int] = {}
        self.fallbacks: dict[str, int] = {}


def assume(*conds):
    """Restrict the current path (for stubs with a contract)."""
    c = cur()
    for cond in conds:
        if not is_sym(cond):
            if not cond:
                raise PathInfeasible()
            continue
        c.add(bx(cond))
    if not c.replaying():
        r, _ = c._check()
        if r == z3.unsat:
            raise PathInfeasible()


def to_q(x) -> z3.RatNumRef:
    if isinstance(x, bool) or isinstance(x, np.bool_):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    return z3.RealVal(str(Fraction(repr(float(x)))))


def model_value(m: z3.ModelRef, e) -> Fraction | bool:
    v = m.eval(e, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    raise ValueError(f"no value for {e}: {v}")


class PathState:
    def __init__(self, prefix, stats: Stats, timeout_ms: int, seed: int = 1):
        self.prefix = list(prefix)  # list of bools
        self.decisions: list[tuple[bool, bool]] = []  # (value, forced)
        self.alternatives: list[list[bool]] = []
        self.stats = stats
        self.timeout_ms = timeout_ms
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.solver.set("arith.nl.nra", False)  # it does not heed the timeout; _nlsat is used instead
        self.pc: list = []
        self.memo: dict[int, tuple[object, bool]] = {}
        self.tokens: list = []
        self.inputs: dict[str, tuple[object, str]] = {}  # name -> (expr, kind)
        self.choices: dict[str, object] = {}
        self.partial = False
        self.fresh = 0
        self.seed = seed
        self.deadline: float | None = None
        self.zero_known: set[int] = set()
        self.fork_minmax = False
        self.exact_roots = False
        self.last_probe = False
        self._keep: list = []
        self.quotients: dict[int, tuple] = {}  # id of a quotient variable -> (variable, numerator, denominator)
        self.lazy: dict[int, object] = {}  # id of a quotient variable -> its definition, until it is used
        self._seen: set[int] = set()

    def _activate(self, e):
        """add the definitions of the quotients e depends on"""
        if not self.lazy:
            return
        todo = [e]
        seen = self._seen
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            self._keep.append(x)
            d = self.lazy.pop(i, None)
            if d is not None:
                self.pc.append(d)
                self.solver.add(d)
                todo.append(d)
            todo.extend(x.children())

    def _unquotient(self, e):
        """a comparison of a quotient with a number, as one of numerator with denominator"""
        neg = z3.is_not(e)
        a = e.arg(0) if neg else e
        if not (z3.is_le(a) or z3.is_ge(a) or z3.is_lt(a) or z3.is_gt(a) or z3.is_eq(a)):
            return e
        l, r = a.arg(0), a.arg(1)
        if z3.is_rational_value(l):
            l, r, swap = r, l, True
        else:
            swap = False
        if not z3.is_rational_value(r):
            return e
        k = None
        if z3.is_mul(l) and l.num_args() == 2 and z3.is_rational_value(l.arg(0)):
            k, l = l.arg(0), l.arg(1)
        q = self.quotients.get(l.get_id())
        if q is None:
            return e
        _, num, den = q
        pos = self.branch(den > 0)
        lhs, rhs = (k * num if k is not None else num), r * den
        if swap == pos:
            lhs, rhs = rhs, lhs
        out = z3.simplify(a.decl()(lhs, rhs))
        return z3.simplify(z3.Not(out)) if neg else out

    # -- solver access -------------------------------------------------------------
    def _check(self, *extra, timeout_ms=None):
        for e in extra:
            self._activate(e)
        t = time.monotonic()
        self.stats.queries += 1
        try:
            if timeout_ms is not None:
                self.solver.set("timeout", timeout_ms)
            self.solver.push()
            try:
                for e in extra:
                    self.solver.add(e)
                r = self.solver.check()
                m = self.solver.model() if r == z3.sat else None
            finally:
                self.solver.pop()
                if timeout_ms is not None:
                    self.solver.set("timeout", self.timeout_ms)
        except z3.Z3Exception:
            r, m = z3.unknown, None
        dt = time.monotonic() - t
        self.stats.solver_s += dt
        if dt > SLOW:
            import traceback

            print(f"slow query {dt:.1f}s {r}", "".join(traceback.format_stack(limit=14)[:-1])[-2500:], str(extra)[:600], file=sys.stderr)
        if r == z3.unknown:
            r, m = self._nlsat(extra, timeout_ms or self.timeout_ms)
        if r == z3.unknown:
            self.stats.unknown += 1
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise PathBudget()
        return r, m

    def _nlsat(self, extra, timeout_ms):
        t = time.monotonic()
        self.stats.queries += 1
        try:
            s = z3.Then("simplify", "purify-arith", "solve-eqs", "elim-term-ite", "simplify", "qfnra").solver()
            s.set("timeout", timeout_ms)
            for e in self.pc:
                s.add(e)
            for e in extra:
                s.add(e)
            r = s.check()
            m = s.model() if r == z3.sat else None
        except z3.Z3Exception:
            r, m = z3.unknown, None
        self.stats.solver_s += time.monotonic() - t
        return r, m

    def add(self, e):
        self._activate(e)
        self.pc.append(e)
        self.solver.add(e)

    def feasible(self, e) -> bool:
        r, _ = self._check(e)
        return r != z3.unsat

    def branch(self, e) -> bool:
        """Decide the truth of e on this path, forking when both are possible."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = e.get_id()
        if key in self.memo:
            return self.memo[key][1]
        u = self._unquotient(e)
        if u is not e:
            val = self.branch(u)
            self.memo[key] = (e, val)
            return val
        n = len(self.decisions)
        if n < len(self.prefix):
            val, forced = self.prefix[n]
            if val == "c":
                raise PathDiverged()
        else:
            ne = z3.Not(e)
            t = self.feasible(e)
            if not t:
                val, forced = False, True
            else:
                f = self.feasible(ne)
                if f:
                    val, forced = True, False
                    self.alternatives.append([*self.decisions, (False, False)])
                else:
                    val, forced = True, True
        self.decisions.append((val, forced))
        if not forced:
            self.add(e if val else z3.Not(e))
        self.memo[key] = (e, val)
        ne = z3.simplify(z3.Not(e))
        self.memo[ne.get_id()] = (ne, not val)
        self._keep.append((e, ne))
        return val

    def replaying(self) -> bool:
        """Still inside the decided prefix: everything up to here was checked by the parent path."""
        return len(self.decisions) < len(self.prefix)

    def new_real(self, hint="t"):
        self.fresh += 1
        return z3.Real(f"!{hint}{self.fresh}")

    def new_int(self, hint="n"):
        self.fresh += 1
        return z3.Int(f"!{hint}{self.fresh}")

    def concretise(self, e, why=""):
        """KLEE-style concretisation: bind e to one feasible value (the path becomes partial)."""
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        self._activate(e)
        n = len(self.decisions)
        if n < len(self.prefix):
            tag, v = self.prefix[n]
            if tag != "c":
                raise PathDiverged()
        else:
            r, m = self._check()
            if r != z3.sat:
                raise PathInfeasible()
            v = model_value(m, e)
        self.decisions.append(("c", v))
        self.partial = True
        self.stats.concretised += 1
        import sys as _sys

        f = _sys._getframe(1)
        site = why
        while f is not None:
            fn = f.f_code.co_filename
            if "/libecalc/" in fn or "/ecalc_" in fn:
                site = f"{why}@{fn.split('/src/')[-1]}:{f.f_lineno}"
                break
            f = f.f_back
        self.stats.concretise_sites[site] = self.stats.concretise_sites.get(site, 0) + 1
        self.add(e == z3.RealVal(str(v)))
        return v


# --------------------------------------------------------------------------------------
# values
# --------------------------------------------------------------------------------------
class SymStr(str):
    """The text of a number."""

    def __new__(cls, value):
        o = str.__new__(cls, str(value))
        o.value = value
        return o

    def __str__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def untoken(text):
    """The number written in a text."""
    if type(text) is SymStr:
        return text.value
    t = text.strip()
    if t.startswith("<#"):
        return CUR.tokens[int(t[2:-1])]
    return float(t)


def is_sym(x) -> bool:
    return type(x) in (SymReal, SymBool)


def is_num(x) -> bool:
    return type(x) is SymReal or type(x) is SymBool or isinstance(x, (int, float, np.integer, np.floating, np.bool_))


def is_conc_num(x) -> bool:
    return not is_sym(x) and isinstance(x, (int, float, np.integer, np.floating, np.bool_))


def is_special(x) -> bool:
    """concrete nan or inf"""
    return is_conc_num(x) and not math.isfinite(x)


def ex(x):
    """z3 Real expression of a numeric value (finite)."""
    t = type(x)
    if t is SymReal:
        return x.e
    if t is SymBool:
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    return to_q(x)


def bx(x):
    """z3 Bool expression of a truth value."""
    t = type(x)
    if t is SymBool:
        return x.e
    if t is SymReal:
        return x.e != 0
    return z3.BoolVal(bool(x))


def mk(e, np_=False):
    """Wrap z3 real expr; constant-fold to a float when it is a numeral."""
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        v = float(f)
        return np.float64(v) if np_ else v
    return SymReal(e, np_)


def mkb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def _np(*xs):
    for x in xs:
        if type(x) is SymReal:
            if x.np:
                return True
        elif isinstance(x, np.generic):
            return True
    return False


def _inf_cmp(op, other, sym_left):
    # finite sym (left) op special other
    if math.isnan(other):
        return op == "ne"
    pos = other > 0
    if op == "eq":
        return False
    if op == "ne":
        return True
    if not sym_left:
        op = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}[op]
    return pos if op in ("lt", "le") else not pos


_CMP = {
    "lt": lambda a, b: a < b,
    "le": lambda a, b: a <= b,
    "gt": lambda a, b: a > b,
    "ge": lambda a, b: a >= b,
    "eq": lambda a, b: a == b,
    "ne": lambda a, b: a != b,
}


def cmp(op, a, b):
    if is_special(b):
        return _inf_cmp(op, float(b), True)
    if is_special(a):
        if math.isnan(a):
            return op == "ne"
        return _inf_cmp({"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}[op], float(a), True)
    return mkb(_CMP[op](ex(a), ex(b)))


def _special_arith(op, a, b):
    """One operand is symbolic finite, other is nan/inf."""
    sa, sb = is_special(a), is_special(b)
    sp = float(a) if sa else float(b)
    sym = b if sa else a
    if math.isnan(sp):
        return math.nan
    if op == "add":
        return sp
    if op == "sub":
        return sp if sa else -sp
    if op == "mul":
        if bool(cmp("eq", sym, 0)):
            return math.nan
        return sp if bool(cmp("gt", sym, 0)) else -sp
    if op == "div":
        if sb:
            return 0.0
        if bool(cmp("eq", sym, 0)):
            if _np(a, b):
                return math.copysign(math.inf, sp)
            raise ZeroDivisionError("float division by zero")
        return sp if bool(cmp("gt", sym, 0)) else -sp
    raise NotImplementedError(op)


def add(a, b):
    if is_special(a) or is_special(b):
        return _special_arith("add", a, b)
    # constants below double resolution vanish in floating point sums
    if not is_sym(b) and abs(b) < 1e-14:
        return a
    if not is_sym(a) and abs(a) < 1e-14:
        return b
    return mk(z3.simplify(ex(a) + ex(b)), _np(a, b))


def sub(a, b):
    if is_special(a) or is_special(b):
        return _special_arith("sub", a, b)
    return mk(z3.simplify(ex(a) - ex(b)), _np(a, b))


def mul(a, b):
    if is_special(a) or is_special(b):
        return _special_arith("mul", a, b)
    return mk(z3.simplify(ex(a) * ex(b)), _np(a, b))


def div(a, b, numpy_semantics=None):
    if is_special(a) or is_special(b):
        r = _special_arith("div", a, b)
        return r
    nps = _np(a, b) if numpy_semantics is None else numpy_semantics
    eb = z3.simplify(ex(b))
    if z3.is_rational_value(eb):
        if eb.numerator_as_long() == 0:
            zero = True
        else:
            return mk(z3.simplify(ex(a) / eb), nps)
    else:
        zero = cur().branch(eb == 0)
    if zero:
        if not nps:
            raise ZeroDivisionError("float division by zero")
        if bool(cmp("eq", a, 0)):
            return np.float64("nan")
        return np.float64("inf") if bool(cmp("gt", a, 0)) else np.float64("-inf")
    c = cur()
    ea = z3.simplify(ex(a))
    # quotient as a fresh variable: keeps queries polynomial
    key = ("div", ea.get_id(), eb.get_id())
    hit = c.memo.get(key)
    if hit is not None:
        return SymReal(hit[1], nps)
    if z3.is_rational_value(ea) and ea.numerator_as_long() == 0:
        return np.float64(0.0) if nps else 0.0
    if ea.eq(eb):
        return np.float64(1.0) if nps else 1.0
    q = c.new_real("q")
    c._keep.append((ea, eb))
    c.memo[key] = (None, q)
    c.quotients[q.get_id()] = (q, ea, eb)
    c.lazy[q.get_id()] = q * eb == ea
    return SymReal(q, nps)


def power(a, b):
    if is_special(a) or is_special(b):
        raise NotImplementedError("power with inf/nan")
    if is_conc_num(b):
        fb = Fraction(repr(float(b)))
        if abs(fb - round(fb)) < Fraction(1, 10**12) and abs(fb) < Fraction(17, 2):
            n = int(round(fb))  # such as 3.0000000000000004
            if n == 0:
                return 1.0
            r = a
            for _ in range(abs(n) - 1):
                r = mul(r, a)
            return r if n > 0 else div(1.0, r)
        if fb == Fraction(1, 2):
            return sqrt(a)
        if abs(1 / fb - round(1 / fb)) < Fraction(1, 10**9) and 2 <= round(1 / fb) <= 9:
            n = int(round(1 / fb))
            if bool(cmp("lt", a, 0)):
                return math.nan
            c = cur()
            ea = z3.simplify(ex(a))
            key = ("root", n, ea.get_id())
            hit = c.memo.get(key)
            if hit is None:
                s = c.new_real("root")
                p = s
                for _ in range(n - 1):
                    p = p * s
                c.add(s >= 0)
                c.add(p == ea)
                c.memo[key] = hit = (ea, s)
            return SymReal(hit[1], _np(a, b))
    # general power: concretise both
    va = concrete(a, "pow")
    vb = concrete(b, "pow")
    return va**vb


def sqrt(a):
    if not is_sym(a):
        return np.sqrt(a)
    if bool(cmp("lt", a, 0)):
        return math.nan
    c = cur()
    ea = z3.simplify(ex(a))
    key = ("sqrt", ea.get_id())
    hit = c.memo.get(key)
    if hit is None:
        s = c.new_real("sqrt")
        c.add(s >= 0)
        c.add(s * s == ea)
        c.memo[key] = hit = (ea, s)
    return SymReal(hit[1], True)


# where the logarithm is pinned between floats; a harness adds the values that matter to it
LOG_POINTS = [10.0 ** (k / 10) for k in range(-60, 61)]


def log(a):
    """An increasing function with the logarithm's value at the points, and between its values in between."""
    if bool(cmp("le", a, 0)):
        raise ValueError("math domain error")
    c = cur()
    ea = z3.simplify(ex(a))
    key = ("log", ea.get_id())
    hit = c.memo.get(key)
    if hit is None:
        v = c.new_real("log")
        for p in sorted({*LOG_POINTS, *getattr(c, "log_points", ())}):
            lo, at, hi = (z3.RealVal(str(Fraction(x))) for x in (math.log(p) * (1 - 1e-15) if p > 1 else math.log(p) * (1 + 1e-15), p, math.log(p) * (1 + 1e-15) if p > 1 else math.log(p) * (1 - 1e-15)))
            c.add(z3.Implies(ea >= at, v >= lo))
            c.add(z3.Implies(ea <= at, v <= hi))
        c.memo[key] = hit = (ea, v)
    return SymReal(hit[1], _np(a))


def neg(a):
    return mk(z3.simplify(-ex(a)), _np(a))


def absolute(a):
    if not is_sym(a):
        return abs(a)
    e = ex(a)
    return mk(z3.simplify(z3.If(e >= 0, e, -e)), _np(a))


def ite(cond, a, b):
    """Merge a and b under cond (both finite numbers); forks when it cannot merge."""
    if not is_sym(cond):
        return a if cond else b
    if is_sym(cond) and type(cond) is SymReal:
        cond = cmp("ne", cond, 0)
        if not is_sym(cond):
            return a if cond else b
    ab = isinstance(a, (bool, np.bool_)) or type(a) is SymBool
    bb = isinstance(b, (bool, np.bool_)) or type(b) is SymBool
    if ab and bb:
        return mkb(z3.If(cond.e, bx(a), bx(b)))
    if is_num(a) and is_num(b) and not is_special(a) and not is_special(b):
        return mk(z3.simplify(z3.If(cond.e, ex(a), ex(b))), _np(a, b))
    return a if bool(cond) else b


def smax(a, b):
    c = cmp("gt", b, a)
    if CUR is not None and CUR.fork_minmax and is_sym(c):
        return b if bool(c) else a
    return ite(c, b, a)


def smin(a, b):
    c = cmp("lt", b, a)
    if CUR is not None and CUR.fork_minmax and is_sym(c):
        return b if bool(c) else a
    return ite(c, b, a)


def trunc_int(a):
    """int(x) as an integer-valued symbolic real."""
    e = ex(a)
    t = z3.If(e >= 0, z3.ToReal(z3.ToInt(e)), -z3.ToReal(z3.ToInt(-e)))
    return mk(z3.simplify(t), False)


def floor(a):
    if not is_sym(a):
        return math.floor(a)
    return mk(z3.simplify(z3.ToReal(z3.ToInt(ex(a)))), _np(a))


def ceil(a):
    if not is_sym(a):
        return math.ceil(a)
    return mk(z3.simplify(-z3.ToReal(z3.ToInt(-ex(a)))), _np(a))


def rnd(a, nd=None):
    """round half even to nd decimals"""
    s = 10 ** (nd or 0)
    e = ex(a) * to_q(Fraction(s) if isinstance(s, int) else Fraction(1, 10 ** (-nd)))
    f = z3.ToInt(e)
    fr = e - z3.ToReal(f)
    half = z3.RealVal("1/2")
    r = z3.If(fr > half, f + 1, z3.If(fr < half, f, z3.If(f % 2 == 0, f, f + 1)))
    out = z3.ToReal(r) / to_q(Fraction(s) if isinstance(s, int) else Fraction(1, 10 ** (-nd)))
    return mk(z3.simplify(out), _np(a))


def concrete(x, why="float"):
    if type(x) is SymReal:
        return float(cur().concretise(x.e, why))
    if type(x) is SymBool:
        return bool(x)
    return x


def _arr(o):
    return isinstance(o, np.ndarray)


def _binop(fn):
    def f(self, o):
        if _arr(o):
            return fn(_lift(self), o)
        if not is_num(o):
            return NotImplemented
        return fn(self, o)

    return f


def _rbinop(fn):
    def f(self, o):
        if _arr(o):
            return fn(o, _lift(self))
        if not is_num(o):
            return NotImplemented
        return fn(o, self)

    return f


def _lift(x):
    from engine.shims.nparr import SymArray

    a = np.empty((), dtype=object)
    a[()] = x
    return a.view(SymArray)


def _arrop(ufunc, fn):
    def g(a, b):
        if _arr(a) or _arr(b):
            from engine.shims.nparr import as_sym

            return ufunc(as_sym(a), as_sym(b))
        return fn(a, b)

    return g


class _SymBase:
    __slots__ = ()
    __array_ufunc__ = None  # make ndarray defer to us

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    __add__ = _binop(_arrop(np.add, add))
    __radd__ = _rbinop(_arrop(np.add, add))
    __sub__ = _binop(_arrop(np.subtract, sub))
    __rsub__ = _rbinop(_arrop(np.subtract, sub))
    __mul__ = _binop(_arrop(np.multiply, mul))
    __rmul__ = _rbinop(_arrop(np.multiply, mul))
    __truediv__ = _binop(_arrop(np.true_divide, div))
    __rtruediv__ = _rbinop(_arrop(np.true_divide, div))
    __pow__ = _binop(_arrop(np.power, power))
    __rpow__ = _rbinop(_arrop(np.power, power))

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __lt__(self, o):
        return self._c("lt", np.less, o)

    def __le__(self, o):
        return self._c("le", np.less_equal, o)

    def __gt__(self, o):
        return self._c("gt", np.greater, o)

    def __ge__(self, o):
        return self._c("ge", np.greater_equal, o)

    def __eq__(self, o):
        if not _arr(o) and not is_num(o):
            return NotImplemented
        return self._c("eq", np.equal, o)

    def __ne__(self, o):
        if not _arr(o) and not is_num(o):
            return NotImplemented
        return self._c("ne", np.not_equal, o)

    def _c(self, op, uf, o):
        if _arr(o):
            return uf(_lift(self), o)
        if not is_num(o):
            return NotImplemented
        return cmp(op, self, o)

    def __hash__(self):
        return 7

    def __floordiv__(self, o):
        return floor(div(self, o))

    def __rfloordiv__(self, o):
        return floor(div(o, self))

    def __mod__(self, o):
        return sub(self, mul(o, floor(div(self, o))))

    def __rmod__(self, o):
        return sub(o, mul(self, floor(div(o, self))))

    def __divmod__(self, o):
        return self // o, self % o

    def __float__(self):
        return float(concrete(self, "float()"))

    def __int__(self):
        return int(concrete(trunc_int(self), "int()"))

    def __index__(self):
        c = cur()
        e = z3.simplify(ex(self))
        if z3.is_rational_value(e):
            return int(e.numerator_as_long() // e.denominator_as_long())
        for v in range(0, 200):
            k = (v + 1) // 2 * (1 if v % 2 else -1)
            if c.branch(e == k):
                return k
        raise PathBudget()

    def __trunc__(self):
        return trunc_int(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def __round__(self, nd=None):
        return rnd(self, nd)

    def is_integer(self):
        e = ex(self)
        return mkb(z3.ToReal(z3.ToInt(e)) == e)

    def item(self):
        return SymReal(self.e, False) if type(self) is SymReal else self

    def tolist(self):
        return self.item()

    @property
    def real(self):
        return self


class SymReal(_SymBase):
    __slots__ = ("e", "np")

    def __init__(self, e, np_=False):
        self.e = e
        self.np = np_

    @property
    def __class__(self):
        return np.float64 if self.np else float

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __repr__(self):
        s = str(self.e).replace("\n", " ")
        return f"<sym {s[:60]}>"

    def __str__(self):
        """In texts a symbolic number stands as a token, see untoken."""
        if CUR is None:
            return repr(self)
        CUR.tokens.append(self)
        return f"<#{len(CUR.tokens) - 1}>"

    def __format__(self, spec):
        return str(self)

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def astype(self, dtype):
        return self


class SymBool(_SymBase):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o):
        if _arr(o):
            return np.bitwise_and(_lift(self), o)
        return mkb(z3.And(self.e, bx(o)))

    __rand__ = __and__

    def __or__(self, o):
        if _arr(o):
            return np.bitwise_or(_lift(self), o)
        return mkb(z3.Or(self.e, bx(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkb(z3.Xor(self.e, bx(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkb(z3.Not(self.e))

    def __repr__(self):
        return f"<symbool {str(self.e)[:60]}>"

    def __format__(self, spec):
        return repr(self)


def lnot(a):
    if type(a) in (SymBool, SymReal):
        return mkb(z3.Not(bx(a)))
    return not a


def land(*xs):
    if any(type(x) not in (SymBool, SymReal) and not x for x in xs):
        return False
    ys = [bx(x) for x in xs if is_sym(x)]
    return mkb(z3.And(*ys)) if ys else True


def lor(*xs):
    if any(type(x) not in (SymBool, SymReal) and bool(x) for x in xs):
        return True
    ys = [bx(x) for x in xs if is_sym(x)]
    return mkb(z3.Or(*ys)) if ys else False


def cast_like(v, kind):
    """What a pydantic float/int/bool field keeps for a symbolic value."""
    if kind == "float":
        return SymReal(v.e, False) if type(v) is SymReal else mk(ex(v))
    return v


def plain(v):
    """Unwrap 0-d arrays."""
    if isinstance(v, np.ndarray) and v.size == 1:
        v = v.view(np.ndarray).ravel().tolist()[0]
    return v
