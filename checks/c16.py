"""C16  Head transpiration velocity is the derivative of u_e*delta_d."""
from .c15 import setup

BOUNDS = ("exact over reals along an arbitrary solution of the rates handed "
          "to the integrator: momentum thickness > 0, shape factor in "
          "(1.11, 8], edge velocity >= 0.001, any viscosity and gradient; "
          "object fresh, reassigned or solved before; one station or two stations "
          "in one query")


def transpiration(env, how):
    m, nu, u, call = setup(env, how)
    x = env.real("x", 0.5, 1)
    s = env.scal
    v = s(m.v_e(x))
    env.observe("v_e", v)
    st = call.sol(x)
    r = env.rate(call.fun, x, [st[0], st[1]])
    U, dU = s(u(x)), s(u.d(1)(x))
    flux = env.diff(lambda t: s(m.u_e(t))*s(m.delta_d(t)), x)
    env.eq("v_e is d(u_e*delta_d)/dx", v, flux, tol=1e-5,
           scale=lambda: abs(dU*st[0]*st[1]) + U*st[1]*abs(r[0])
           + U*st[0]*abs(r[1]))


def state(env, how):
    m, nu, u, call = setup(env, how)
    x, rho = env.real("x", 0.5, 1), env.real("rho", 0)
    s = env.scal
    st = call.sol(x)
    dm, H = s(m.delta_m(x)), s(m.shape_d(x))
    env.eq("delta_m is the integrated state", dm, st[0])
    env.eq("shape_d is the integrated state", H, st[1])
    env.eq("delta_d = shape_d*delta_m", s(m.delta_d(x)), st[0]*st[1])
    env.eq("shape_k*delta_m = delta_k", s(m.shape_k(x))*dm, s(m.delta_k(x)),
           scale=lambda: abs(dm))


def stations(env, how):
    """Two stations in one query."""
    m, nu, u, call = setup(env, how)
    X = [env.real("x", 0.5, 1), env.real("xb", 0.5, 1)]
    s = env.scal
    V = m.v_e(env.array(X))
    env.check("one value per station", env.np.shape(V) == (2,))
    for k, x in enumerate(X):
        st = call.sol(x)
        r = env.rate(call.fun, x, [st[0], st[1]])
        U, dU = s(u(x)), s(u.d(1)(x))
        flux = env.diff(lambda t: s(m.u_e(t))*s(m.delta_d(t)), x)
        env.eq("several stations: v_e is d(u_e*delta_d)/dx", V[k], flux,
               tol=1e-5, scale=lambda: abs(dU*st[0]*st[1])
               + U*st[1]*abs(r[0]) + U*st[0]*abs(r[1]))


def jobs(tier):
    W = ("constructor", "reassigned", "after an earlier solve")
    return [(d, dict(how=w)) for d in ("transpiration", "state") for w in W] + \
        [("stations", dict(how="constructor"))]
