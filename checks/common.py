"""Shared driver pieces."""

FITS = ("White", "Cebeci-Bradshaw", "Drela", "Spline")
VARIANTS = ("Linear", "Nonlinear")
# documented validity ranges (lambda) of the built-in fits
RANGE = {"White": (-0.09, None), "Cebeci-Bradshaw": (-0.1, 0.1),
         "Drela": (-0.09, None), "Spline": (-0.09, 0.25)}
CLS = {"White": "_ThwaitesFunctionsWhite",
       "Cebeci-Bradshaw": "_ThwaitesFunctionsCebeciBradshaw",
       "Drela": "_ThwaitesFunctionsDrela",
       "Spline": "_ThwaitesFunctionsSpline"}


def fit_object(env, fit):
    return getattr(env.mod("ibl.thwaites_method"), CLS[fit])()


class Thw:
    """A solved Thwaites analysis along an arbitrary solution."""


QUERIES = ("u_e", "du_e", "d2u_e", "v_e", "delta_d", "delta_m", "delta_k",
           "shape_d", "shape_k")


def ask_all(m, x):
    """Every query of a solved method, so that whatever is kept is kept."""
    r = {q: getattr(m, q)(x) for q in QUERIES}
    r["tau_w"], r["dissipation"] = m.tau_w(x, 1.0), m.dissipation(x, 1.0)
    return r


def thwaites(env, variant, fit, custom="3", u_lo=0, fam="Y", past=None):
    """A solved analysis; with `past` (a list of places) an object that was
    solved before with other settings and asked at those very places."""
    tmod = env.mod("ibl.thwaites_method")
    cls = getattr(tmod, "ThwaitesMethod" + variant)
    o = Thw()
    o.nu = env.real("nu", 0)
    o.u = env.func("u", lo=u_lo)
    o.du, o.d2u = o.u.d(1), o.u.d(2)
    if fit == "Custom":
        o.S = env.func("S")
        o.H = env.func("H")
        data = (o.S, o.H, o.H.d(1))
    else:
        o.S = o.H = None
        data = fit
    o.calls = env.ivp_family(fam, ranges=[(0, None)])
    o.x0 = env.real("x0")
    o.x1 = env.real("x1")
    env.assume(o.x0 < o.x1)
    if past is None:
        o.m = cls(o.nu, o.u, o.du, o.d2u, data)
    else:
        v = env.func("v", lo=u_lo)
        S, H = env.func("S_old"), env.func("H_old")
        o.m = cls(env.real("nu_old", 0), v, v.d(1), v.d(2),
                  (S, H, H.d(1)))
        o.m.initial_delta_m = env.real("delta_m_old", 0)
        o.m.solve(o.x0, o.x1)
        c = o.calls[-1]
        for x in past:
            ask_all(o.m, x)
            if env.np.ndim(x) == 0:
                y = [env.scal(w) for w in c.sol(x)]
                env.rate(c.fun, x, y)
                c.events[0](x, env.array(y))
        o.m.nu = o.nu
        o.m.set_velocity(o.u, o.du, o.d2u)
        o.m.set_data_fits(data)
    o.m.initial_delta_m = env.real("delta_m0", 0)
    o.res = o.m.solve(o.x0, o.x1)
    o.call = o.calls[-1]
    o.sol = o.call.sol
    return o


def in_range(env, fit, lam):
    """lambda strictly inside the fit range (and off the C&B jump)."""
    if fit in RANGE:
        lo, hi = RANGE[fit]
        env.assume(lam > lo)
        if hi is not None:
            env.assume(lam < hi)
        if fit == "Cebeci-Bradshaw":
            env.assume(lam != 0)


def accurate(env, least=1):
    """Every numerical routine was asked for 1e-6 relative accuracy or
    better.  Its defaults are what scipy documents."""
    calls = env.numerics()
    env.check("integrator in use", len(calls) >= least)
    for name, kw in calls:
        if name == "solve_ivp":
            ok = kw.get("rtol", 1e-3) <= 1e-6 and \
                env.np.max(kw.get("atol", 1e-6)) <= 1e-9
        elif name == "quad":
            ok = min(kw.get("epsabs", 1.49e-8),
                     kw.get("epsrel", 1.49e-8)) <= 1e-7 and \
                max(kw.get("epsabs", 0), kw.get("epsrel", 0)) <= 1e-6 and \
                kw.get("weight") is None
        else:
            ok = (kw.get("xtol") or 2e-12) <= 1e-6 and \
                (kw.get("rtol") or 1e-12) <= 1e-6
        env.check(f"{name} is asked for 1e-6 accuracy or better", bool(ok))
