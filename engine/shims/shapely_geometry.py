"""Point / LineString with symbolic coordinates (the subset used by the code); real shapely when everything is concrete."""

import shapely.geometry as _g

from engine import sym as S
from engine.sym import is_sym

__name__ = "shapely.geometry"


def __getattr__(name):
    return getattr(_g, name)


class _Point:
    def __init__(self, x, y):
        self.x, self.y = x, y

    def distance(self, line):
        return S.sqrt(line._closest(self)[2])


class _Line:
    def __init__(self, pts):
        self.pts = [tuple(p) for p in pts]
        self._memo = []

    @property
    def coords(self):
        return self.pts

    def _closest(self, p):
        for q, r in self._memo:
            if q is p:
                return r
        best = None
        along0 = 0.0
        for (x0, y0), (x1, y1) in zip(self.pts[:-1], self.pts[1:]):
            dx, dy = x1 - x0, y1 - y0
            l2 = dx * dx + dy * dy
            if not is_sym(l2) and l2 == 0:
                continue
            t = ((p.x - x0) * dx + (p.y - y0) * dy) / l2
            t = S.ite(t < 0, 0.0, S.ite(t > 1, 1.0, t)) if is_sym(t) else min(max(t, 0.0), 1.0)
            cx, cy = x0 + t * dx, y0 + t * dy
            d2 = (p.x - cx) * (p.x - cx) + (p.y - cy) * (p.y - cy)
            length = S.sqrt(l2) if is_sym(l2) else l2**0.5
            if best is None or bool(d2 < best[2]):
                best = (cx, cy, d2, along0 + t * length)
            along0 = along0 + length
        self._memo.append((p, best))
        return best

    def distance(self, p):
        return S.sqrt(self._closest(p)[2])

    def project(self, p):
        return _Along(self, p)

    def interpolate(self, d):
        if isinstance(d, _Along) and d.line is self:
            c = self._closest(d.p)
            return _Point(c[0], c[1])
        from engine.shims.scipy_interpolate import lin_eval

        cum = [0.0]
        for (x0, y0), (x1, y1) in zip(self.pts[:-1], self.pts[1:]):
            cum.append(cum[-1] + S.sqrt((x1 - x0) * (x1 - x0) + (y1 - y0) * (y1 - y0)))
        return _Point(*(lin_eval(d, cum, [q[k] for q in self.pts], self.pts[0][k], self.pts[-1][k]) for k in (0, 1)))


class _Along:
    """The distance along a line of the projection of a point."""

    def __init__(self, line, p):
        self.line, self.p = line, p


def Point(*args):
    xy = args[0] if len(args) == 1 else args
    return _P(*xy)


class _P(_Point):
    """Concrete or symbolic; delegates to shapely as soon as both sides are concrete."""

    def distance(self, other):
        if isinstance(other, _Line):
            if other._concrete and not is_sym(self.x) and not is_sym(self.y):
                return _g.Point(self.x, self.y).distance(_g.LineString(other.pts))
            return super().distance(other)
        return S.sqrt((self.x - other.x) * (self.x - other.x) + (self.y - other.y) * (self.y - other.y))


class LineString(_Line):
    def __init__(self, pts):
        super().__init__(pts)
        self._concrete = not any(is_sym(v) for q in self.pts for v in q)

    def project(self, p):
        if self._concrete and not is_sym(p.x) and not is_sym(p.y):
            return _g.LineString(self.pts).project(_g.Point(p.x, p.y))
        return super().project(p)

    def interpolate(self, d):
        if self._concrete and not isinstance(d, _Along) and not is_sym(d):
            q = _g.LineString(self.pts).interpolate(d)
            return _P(q.x, q.y)
        return super().interpolate(d)
