"""root_scalar for symbolic functions: some point within the stated tolerance of some root in the bracket."""

import scipy.optimize as _so

from engine import sym as S
from engine.sym import is_sym

__name__ = "scipy.optimize"


def root_scalar(f, args=(), method=None, bracket=None, x0=None, x1=None, xtol=None, rtol=None, maxiter=None, **kw):
    real = lambda: _so.root_scalar(f, args=args, method=method, bracket=bracket, x0=x0, x1=x1, xtol=xtol, rtol=rtol, maxiter=maxiter, **kw)  # noqa: E731
    if bracket is None or S.CUR is None:
        return real()
    a, b = bracket
    fa, fb = f(a, *args), f(b, *args)
    if not any(is_sym(v) for v in (a, b, fa, fb)):
        return real()
    if bool(S.mul(fa, fb) > 0):
        raise ValueError("f(a) and f(b) must have different signs")
    for x, fx in ((a, fa), (b, fb)):
        if bool(fx == 0):
            return _so.RootResults(root=x, iterations=0, function_calls=2, flag=0, method=method)
    c = S.cur()
    if c.exact_roots:
        t = S.SymReal(c.new_real("root"))
        S.assume(S.cmp("ge", t, S.smin(a, b)), S.cmp("le", t, S.smax(a, b)))
        S.assume(S.cmp("eq", f(t, *args), 0))
        if c.last_probe:
            f(a, *args)
        return _so.RootResults(root=t, iterations=1, function_calls=3, flag=0, method=method)
    t, r = S.SymReal(c.new_real("root")), S.SymReal(c.new_real("near"))
    lo, hi = S.smin(a, b), S.smax(a, b)
    S.assume(S.cmp("ge", t, lo), S.cmp("le", t, hi), S.cmp("ge", r, lo), S.cmp("le", r, hi))
    ft = f(t, *args)
    d = S.absolute(S.sub(r, t))
    S.assume(S.cmp("eq", ft, 0), S.cmp("le", d, S.add(S.mul(rtol if rtol is not None else 1e-15, S.absolute(r)), xtol or 2e-12)))
    return _so.RootResults(root=r, iterations=1, function_calls=3, flag=0, method=method)


def __getattr__(name):
    return getattr(_so, name)
