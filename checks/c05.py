"""C05  Data fits saturate element by element outside their range."""
from .common import FITS, RANGE, fit_object

BOUNDS = ("exact over reals: every scalar lambda; arrays of 2 elements "
          "(3 for White and Drela in the thorough tier) with every "
          "combination of below/inside/above the range; spline arrays: "
          "second element outside the range or in the first or last interval; "
          "whole-number arguments (numbers, lists and arrays)")
Q = ("shear", "shape", "shape_p")


def clamp(v, fit):
    lo, hi = RANGE[fit]
    if v < lo:
        return lo
    if hi is not None and v > hi:
        return hi
    return v


def call(env, f, q, a, fit):
    return getattr(f, q)(a)


def scalar(env, fit, q):
    f = fit_object(env, fit)
    lo, hi = RANGE[fit]
    lam = env.real("lam", lo=None, hi=50)
    if fit in ("White", "Drela") and q == "shape_p":
        pass
    v = env.scal(call(env, f, q, lam, fit))
    env.observe(q, v)
    w = env.scal(call(env, f, q, clamp(lam, fit), fit))
    env.eq(f"{q}(lambda) = {q}(clamped lambda)", v, w)
    if lam < lo:
        env.observe("low", 1.0)
    r = f.range()
    env.eq("range lower end", r[0], lo)
    if hi is not None:
        env.eq("range upper end", r[1], hi)


def array(env, fit, q, n):
    f = fit_object(env, fit)
    lam = [env.real(f"lam{i}", lo=None, hi=50) for i in range(n)]
    if fit == "Spline":
        for x in lam[1:]:
            env.assume((x < -0.088) | (x > 0.2))
    a = env.array(lam)
    v = call(env, f, q, a, fit)
    env.check("shape of the result", env.np.shape(v) == (n,))
    for i in range(n):
        w = env.scal(call(env, f, q, clamp(lam[i], fit), fit))
        env.eq(f"{q}: element {i} as if alone", v[i], w)
        env.eq(f"{q}: argument element {i} unchanged", a[i], lam[i])


def whole(env, fit, q):
    """Whole numbers are numbers: nothing is cut to integers."""
    f = fit_object(env, fit)
    one = env.real("one", 1, 1, lo_open=False)      # the reals -1, 0, 1
    for form in ("numbers", "array", "list"):
        if form == "numbers":
            v = [env.scal(call(env, f, q, k, fit)) for k in (-1, 0, 1)]
        else:
            a = [-1, 0, 1]
            v = call(env, f, q, env.np.array(a) if form == "array" else a,
                     fit)
            env.check("shape of the result", env.np.shape(v) == (3,))
        for i, k in enumerate((-1, 0, 1)):
            w = env.scal(call(env, f, q, clamp(k*one, fit), fit))
            env.eq(f"{q} at a whole number ({form})", v[i], w)


def jobs(tier):
    j = [("whole", dict(fit=f, q=q)) for f in FITS for q in Q]
    for f in FITS[::-1]:
        for q in Q:
            j.append(("array", dict(fit=f, q=q, n=2)))
    for f in FITS[::-1]:
        for q in Q:
            j.append(("scalar", dict(fit=f, q=q)))
    if tier == "thorough":
        for f in ("White", "Drela", "Cebeci-Bradshaw"):
            for q in Q:
                j.append(("array", dict(fit=f, q=q, n=3)))
    return j
