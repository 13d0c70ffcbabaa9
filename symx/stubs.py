"""
Models of the scipy entry points the package calls.

* solve_ivp / quad / root_scalar: dispatched to a handler the driver installs
  (nondeterministic or contract-based result).
* CubicSpline with concrete tables: scipy's own coefficients, as exact
  rationals; evaluation forks on the interval.
* PchipInterpolator with symbolic data: scipy's slope formulas, evaluated on
  symbolic data (forks on the sign tests).
"""
from __future__ import annotations

from fractions import Fraction
import numpy as _np

from . import expr as X
from . import values as V
from .values import SymReal, SymArray, symarray

HANDLERS: dict = {}      # name -> callable, reset for every path


class IvpCall:
    def __init__(self, fun, t_span, y0, events, kw):
        self.fun = fun
        self.t0, self.t1 = t_span[0], t_span[1]
        self.t_span = t_span
        self.y0 = y0
        if events is None:
            self.events = []
        elif callable(events):
            self.events = [events]
        else:
            self.events = list(events)
        self.events_obj = events
        self.kw = kw


RECORD: list = []        # (function, options) of every call, for accuracy


def _dispatch(name):
    def missing(*a, **k):
        raise V.Unsupported(f"{name} called without a model")
    return HANDLERS.get(name, missing)


def solve_ivp(fun, t_span, y0, method="RK45", t_eval=None, dense_output=False,
              events=None, vectorized=False, args=None, **options):
    if args is not None:
        f0 = fun
        fun = lambda t, y: f0(t, y, *args)
    RECORD.append(("solve_ivp", options))
    return _dispatch("solve_ivp")(IvpCall(
        fun, t_span, y0, events, dict(method=method, t_eval=t_eval,
                                      dense_output=dense_output, **options)))


def quad(func, a, b, args=(), **kw):
    RECORD.append(("quad", kw))
    return _dispatch("quad")(func, a, b)


def root_scalar(f, args=(), method=None, bracket=None, **kw):
    RECORD.append(("root_scalar", kw))
    return _dispatch("root_scalar")(f, bracket, dict(method=method, **kw))


def resource_files(pkg):
    return _dispatch("files")(pkg)


# --------------------------------------------------------------------------
def _map(f, x):
    if isinstance(x, (list, tuple)):
        x = _np.array([e for e in x], dtype=object)
    if isinstance(x, _np.ndarray):
        r = _np.empty(x.shape, dtype=object)
        for i in _np.ndindex(*x.shape):
            r[i] = f(x[i])
        return r.view(SymArray)
    r = _np.empty((), dtype=object)
    r[()] = f(x)
    return r.view(SymArray)


class PPoly:
    """Piecewise polynomial; c[k, i] multiplies (x - x[i])**(deg-k)."""

    def __init__(self, c, x, extrapolate=True, axis=0):
        self.c = c if isinstance(c, SymArray) else symarray(c)
        self.x = x if isinstance(x, SymArray) else symarray(x)
        self.axis = 0
        self.extrapolate = True

    @classmethod
    def construct_fast(cls, c, x, extrapolate=None, axis=0):
        return PPoly(c, x)

    @classmethod
    def from_spline(cls, *a, **k):
        raise V.Unsupported("PPoly.from_spline")

    def _interval(self, t):
        """Index of the interval whose polynomial scipy uses at t (forks)."""
        n = len(self.x) - 1
        lo, hi = 0, n - 1
        while lo < hi:
            mid = (lo + hi + 1)//2
            if bool(t >= self.x[mid]):
                lo = mid
            else:
                hi = mid - 1
        return lo

    def _eval(self, t):
        if isinstance(t, _np.ndarray):
            t = t.item()
        i = self._interval(t)
        s = t - self.x[i]
        r = 0
        for k in range(self.c.shape[0]):
            r = r*s + self.c[k, i]
        return r

    def __call__(self, x, nu=0, extrapolate=None):
        p = self.derivative(nu) if nu else self
        return _map(p._eval, x)

    def derivative(self, nu=1):
        if nu < 0:
            return self.antiderivative(-nu)
        c = self.c
        for _ in range(nu):
            d = c.shape[0] - 1
            if d == 0:
                n = _np.empty((1, c.shape[1]), dtype=object)
                n.fill(0.0)
            else:
                n = _np.empty((d, c.shape[1]), dtype=object)
                for k in range(d):
                    for i in range(c.shape[1]):
                        n[k, i] = c[k, i]*(d-k)
            c = n.view(SymArray)
        return PPoly(c.copy(), self.x)

    def antiderivative(self, nu=1):
        c = self.c
        for _ in range(nu):
            d = c.shape[0]
            n = _np.empty((d+1, c.shape[1]), dtype=object)
            for k in range(d):
                for i in range(c.shape[1]):
                    n[k, i] = c[k, i]/(d-k) if isinstance(c[k, i], SymReal) \
                        else Fraction(c[k, i])/(d-k)
            acc = 0
            for i in range(c.shape[1]):
                n[d, i] = acc
                s = self.x[i+1] - self.x[i]
                r = 0
                for k in range(d+1):
                    r = r*s + n[k, i]
                acc = r
            c = n.view(SymArray)
        return PPoly(c, self.x)

    def integrate(self, a, b, extrapolate=None):
        p = self.antiderivative()
        return _map(lambda _: p._eval(b) - p._eval(a), 0.0)

    def roots(self, *a, **k):
        raise V.Unsupported("PPoly.roots")

    solve = roots


def _concrete(a):
    return not V.contains_sym(a if isinstance(a, _np.ndarray)
                              else _np.asarray(a, dtype=object))


class CubicSpline(PPoly):
    def __init__(self, x, y, axis=0, bc_type="not-a-knot", extrapolate=None):
        if not (_concrete(x) and _concrete(y)):
            raise V.Unsupported("CubicSpline through symbolic points")
        from scipy.interpolate import CubicSpline as Real
        xf = _np.asarray(x, dtype=object).astype(float)
        yf = _np.asarray(y, dtype=object).astype(float)
        r = Real(xf, yf, bc_type=bc_type)
        c = _np.empty(r.c.shape, dtype=object)
        for i in _np.ndindex(*c.shape):
            c[i] = Fraction(float(r.c[i]))
        xs = _np.empty(r.x.shape, dtype=object)
        for i, e in enumerate(r.x):
            xs[i] = X.simplest(float(e))
        super().__init__(c.view(SymArray), xs.view(SymArray))


class PchipInterpolator(PPoly):
    def __init__(self, x, y, axis=0, extrapolate=None):
        x = _np.asarray(x, dtype=object)
        y = _np.asarray(y, dtype=object)
        if x.ndim != 1 or y.ndim != 1:
            raise ValueError("`x` must be 1-dimensional")
        if x.shape[0] < 2:
            raise ValueError("`x` must contain at least 2 elements.")
        if x.shape[0] != y.shape[0]:
            raise ValueError("The length of `y` along `axis`=0 does not match "
                             "the length of `x`")
        n = x.shape[0]
        fx = [Fraction(float(e)) if isinstance(e, float) else e for e in x]
        fy = [Fraction(float(e)) if isinstance(e, float) else e for e in y]
        fx = [Fraction(e) if isinstance(e, (int, _np.integer)) else e for e in fx]
        fy = [Fraction(e) if isinstance(e, (int, _np.integer)) else e for e in fy]
        h = [fx[i+1] - fx[i] for i in range(n-1)]
        for e in h:
            if not bool(e > 0):
                raise ValueError("`x` must be strictly increasing sequence.")
        m = [(fy[i+1] - fy[i])/h[i] for i in range(n-1)]
        d = self._slopes(h, m)
        c = _np.empty((4, n-1), dtype=object)
        for i in range(n-1):
            t = (d[i] + d[i+1] - 2*m[i])/h[i]
            c[0, i] = t/h[i]
            c[1, i] = (m[i] - d[i])/h[i] - t
            c[2, i] = d[i]
            c[3, i] = fy[i]
        super().__init__(c.view(SymArray), symarray(fx))

    @staticmethod
    def _edge(h0, h1, m0, m1):
        d = ((2*h0 + h1)*m0 - h0*m1)/(h0 + h1)
        if _sgn(d) != _sgn(m0):
            return Fraction(0)
        if _sgn(m0) != _sgn(m1) and bool(abs(d) > 3*abs(m0)):
            return 3*m0
        return d

    @classmethod
    def _slopes(cls, h, m):
        n = len(h) + 1
        if n == 2:
            return [m[0], m[0]]
        d = [None]*n
        for k in range(1, n-1):
            if _sgn(m[k]) != _sgn(m[k-1]) or bool(m[k] == 0) \
                    or bool(m[k-1] == 0):
                d[k] = Fraction(0)
            else:
                w1 = 2*h[k] + h[k-1]
                w2 = h[k] + 2*h[k-1]
                d[k] = (w1 + w2)/(w1/m[k-1] + w2/m[k])
        d[0] = cls._edge(h[0], h[1], m[0], m[1])
        d[-1] = cls._edge(h[-1], h[-2], m[-1], m[-2])
        return d


def _sgn(x):
    if bool(x > 0):
        return 1
    return -1 if bool(x < 0) else 0
