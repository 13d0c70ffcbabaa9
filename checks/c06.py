"""C06  Built-in data fits are the published correlations."""
from .common import FITS, RANGE, fit_object

BOUNDS = ("published formula: every lambda in the range (White, Drela: up to "
          "10); monotone and positive: "
          "[-0.09, 0.1]; spline: all 27 knots and 26 intervals")

KN = [-0.090, -0.088, -0.086, -0.084, -0.080, -0.076, -0.072, -0.068, -0.064,
      -0.060, -0.056, -0.052, -0.048, -0.040, -0.032, -0.016, 0.000, 0.016,
      0.032, 0.048, 0.064, 0.080, 0.100, 0.120, 0.140, 0.200, 0.250]
SH = [0.000, 0.015, 0.027, 0.038, 0.056, 0.072, 0.085, 0.095, 0.104, 0.113,
      0.122, 0.130, 0.138, 0.153, 0.168, 0.195, 0.220, 0.244, 0.268, 0.291,
      0.313, 0.333, 0.359, 0.382, 0.404, 0.463, 0.500]
HH = [3.55, 3.49, 3.44, 3.39, 3.30, 3.22, 3.15, 3.09, 3.04, 2.99, 2.94, 2.90,
      2.87, 2.81, 2.75, 2.67, 2.61, 2.55, 2.49, 2.44, 2.39, 2.34, 2.28, 2.23,
      2.18, 2.07, 2.00]


def formula(env, fit):
    f = fit_object(env, fit)
    lo, hi = RANGE[fit]
    lam = env.real("lam", lo, hi or 10, lo_open=False)
    S, H = env.scal(f.shear(lam)), env.scal(f.shape(lam))
    env.observe("S", S)
    env.observe("H", H)
    if fit == "White":
        z = 0.25 - lam
        eS = (lam + 0.09)**0.62
        eH = (2 + 4.14*z - 83.5*z**2 + 854*z**3 - 3337*z**4 + 4576*z**5)
    elif fit == "Drela":
        r = lam/(lam + 0.18)
        eS = 0.220 + 1.52*lam - 5*lam**3 - 0.072*r*r
        eH = 2.61 - 4.1*lam + 14*lam**3 + 0.56*r*r
    elif lam < 0:
        eS = 0.22 + 1.402*lam + 0.018*lam/(0.107 + lam)
        eH = 2.088 + 0.0731/(0.14 + lam)
    else:
        eS = 0.22 + 1.57*lam - 1.8*lam**2
        eH = 2.61 - 3.75*lam + 5.24*lam**2
    env.eq("S is the published correlation", S, eS,
           scale=lambda: 0.2 + abs(eS))
    env.eq("H is the published correlation", H, eH,
           scale=lambda: 2.0 + abs(eH))


def monotone(env, fit):
    """dS/dlambda > 0 inside; S and H positive."""
    f = fit_object(env, fit)
    lam = env.real("lam", -0.09, 0.1)
    S = env.scal(f.shear(lam))
    H = env.scal(f.shape(lam))
    d = env.diff(lambda t: env.scal(f.shear(t)), lam)
    env.check("S strictly increases", d > 0)
    if lam >= -0.088:
        env.check("S > 0", S > 0)
    env.check("H > 0", H > 0)


def increase_cb(env, fit):
    """Across the branch point of Cebeci-Bradshaw, two points at once."""
    f = fit_object(env, fit)
    a = env.real("a", -0.09, 0, lo_open=False, hi_open=True)
    b = env.real("b", 0, 0.1, lo_open=False)
    env.lt("S(a) < S(b) for a < 0 <= b", env.scal(f.shear(a)),
           env.scal(f.shear(b)))


def knots(env):
    f = fit_object(env, "Spline")
    n = len(KN)
    env.check("tables have 27 entries", len(f.lambda_values) == n and
              len(f.shape_values) == n and len(f.shear_values) == n)
    for i in range(n):
        env.eq("S at knot", env.scal(f.shear(KN[i])), SH[i],
               scale=lambda: 0.1)
        env.eq("H at knot", env.scal(f.shape(KN[i])), HH[i])
        env.eq("table lambda", float(f.lambda_values[i]), KN[i],
               scale=lambda: 0.01)
        env.eq("table S", float(f.shear_values[i]), SH[i], scale=lambda: 0.1)
        env.eq("table H", float(f.shape_values[i]), HH[i])


def smooth(env, q):
    """Adjacent intervals: value, slope and curvature have no jump, and each
    piece is a cubic (fourth derivative zero)."""
    f = fit_object(env, "Spline")
    i = env.choice("knot", list(range(1, len(KN) - 1)))
    a = env.real("a", -0.09, 0.25)
    b = env.real("b", -0.09, 0.25)
    env.assume((a > KN[i-1]) & (a < KN[i]))
    env.assume((b > KN[i]) & (b < KN[i+1]))

    def g(t):
        return env.scal(getattr(f, q)(t))

    C = [1e5, 1e7, 1e8]
    E = [1e-8, 1e-6, 1e-3]      # rounding of the spline coefficients
    fa, fb = g, g
    if not env.symbolic:
        return numeric(env, g, i)
    for k in range(3):
        va, vb = fa(a), fb(b)
        env.check(f"derivative {k} continuous at knots",
                  ((vb - va) <= C[k]*(b - a) + E[k]) &
                  ((va - vb) <= C[k]*(b - a) + E[k]))
        fa = (lambda h: lambda t: env.diff(h, t))(fa)
        fb = (lambda h: lambda t: env.diff(h, t))(fb)
    d4 = env.diff(lambda t: fa(t), a)
    env.eq("piecewise cubic", d4, 0)


def numeric(env, g, i):
    """Replay: cubic through four points of each interval, compare at knot."""
    import numpy as np
    sides = []
    for lo, hi in ((KN[i-1], KN[i]), (KN[i], KN[i+1])):
        h = hi - lo
        t = np.array([0.1, 0.35, 0.65, 0.9])
        v = np.array([g(lo + h*e) for e in t])
        c = np.polyfit(t, v, 3)
        at = (KN[i] - lo)/h
        sides.append([np.polyval(np.polyder(c, k), at)/h**k
                      for k in range(3)])
        w = g(lo + 0.5*h)
        env.eq("piecewise cubic", np.polyval(c, 0.5), w)
    for k, tol in enumerate((1e-6, 1e-3, 1.0)):
        d = abs(sides[0][k] - sides[1][k])
        env.check(f"derivative {k} continuous at knots",
                  d <= tol*(1 + abs(sides[0][k])))


def jobs(tier):
    return [("formula", dict(fit=f)) for f in FITS if f != "Spline"] + \
        [("monotone", dict(fit=f)) for f in FITS] + \
        [("increase_cb", dict(fit="Cebeci-Bradshaw")), ("knots", {})] + \
        [("smooth", dict(q=q)) for q in ("shear", "shape")]
