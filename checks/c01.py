"""C01  Thwaites v_e is the streamwise derivative of u_e*delta_d."""
from .common import FITS, VARIANTS, thwaites, in_range

BOUNDS = ("exact over reals: one station x, u_e>0, u_e', u_e'' arbitrary, "
          "nu>0, state>0, both variants; built-in fits (spline: every "
          "interval) and a custom fit given by arbitrary smooth S, H, H'; two "
          "stations in one query, object fresh or used before with other "
          "viscosity, velocity, fit and initial value")
ASSUME = ["the integrator's dense output obeys the rate function it was "
          "given (the solution is an arbitrary function with y'=f(x,y))"]


def ve(env, variant, fit):
    t = thwaites(env, variant, fit)
    m = t.m
    x = env.real("x")
    y = env.scal(t.sol(x)[0])
    lam = y*env.scal(m.du_e(x))
    in_range(env, fit, lam)
    v = env.scal(m.v_e(x))
    env.observe("v_e", v)
    env.observe("delta_d", env.scal(m.delta_d(x)))
    d = env.diff(lambda s: m.u_e(s)*m.delta_d(s), x)
    env.eq("v_e = d(u_e*delta_d)/dx", v, d,
           scale=lambda: max(abs(v), abs(m.delta_d(x)*m.du_e(x)),
                             abs(m.delta_d(x)*m.u_e(x))))


def stations(env, variant, fit):
    """Two stations in one query, on an object with a past."""
    X = [env.real("x"), env.real("xb")]
    A = env.array(X)
    t = thwaites(env, variant, fit, past=[X[0], A]
                 if env.choice("past", [False, True]) else None)
    m = t.m
    for x in X:
        in_range(env, fit, env.scal(t.sol(x)[0])*env.scal(m.du_e(x)))
    V = m.v_e(A)
    env.check("one value per station", env.np.shape(V) == (2,))
    for k, x in enumerate(X):
        d = env.diff(lambda s: t.u(s)*m.delta_d(s), x)
        env.eq("several stations: v_e = d(u_e*delta_d)/dx", V[k], d,
               scale=lambda: max(abs(V[k]), abs(m.delta_d(x)*m.du_e(x)),
                                 abs(m.delta_d(x)*m.u_e(x))))


def jobs(tier):
    return [("ve", dict(variant=v, fit=f)) for v in VARIANTS
            for f in FITS[::-1] + ("Custom",)] + \
        [("stations", dict(variant=v, fit=f)) for v in VARIANTS
         for f in (("White", "Custom") if tier == "quick" else
                   ("White", "Drela", "Cebeci-Bradshaw", "Custom"))]
