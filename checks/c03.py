"""C03  Thwaites thicknesses, shape factors and wall shear are consistent."""
from .common import FITS, VARIANTS, thwaites, ask_all

BOUNDS = ("exact over reals: one station (scalar argument) and two stations "
          "(array argument), nu>0, any rho, u_e>0, any u_e', state>0, every "
          "lambda, built-in fits and an arbitrary custom fit; asked again after "
          "the data fit or the velocity was exchanged, and after a new solve "
          "of a used object")


def one(env, t, x, tag, delta_d, delta_m, delta_k, shape_d, shape_k, tau, rho):
    m = t.m
    y = env.scal(t.sol(x)[0])
    u = env.scal(t.u(x))
    lam = y*env.scal(t.du(x))
    if t.H is not None:
        H, S = env.scal(t.H(lam)), env.scal(t.S(lam))
    else:
        H, S = env.scal(m._model.shape(lam)), env.scal(m._model.shear(lam))
    env.observe(tag + "delta_m", delta_m)
    env.observe(tag + "shape_d", shape_d)
    env.observe(tag + "tau_w", tau)
    env.eq(tag + "delta_m^2 = nu*state", delta_m*delta_m, t.nu*y)
    env.check(tag + "delta_m > 0", delta_m > 0)
    env.eq(tag + "shape_d is the fit's H", shape_d, H)
    env.eq(tag + "delta_d = shape_d*delta_m", delta_d, shape_d*delta_m)
    env.eq(tag + "tau_w = rho*nu*u_e*S/delta_m", tau*delta_m, rho*t.nu*u*S)
    env.eq(tag + "shape_k*delta_m = delta_k", shape_k*delta_m, delta_k)


def scalar(env, variant, fit):
    t = thwaites(env, variant, fit)
    m = t.m
    rho = env.real("rho")
    x = env.real("x")
    s = env.scal
    one(env, t, x, "", s(m.delta_d(x)), s(m.delta_m(x)), s(m.delta_k(x)),
        s(m.shape_d(x)), s(m.shape_k(x)), s(m.tau_w(x, rho)), rho)


def array(env, variant, fit):
    t = thwaites(env, variant, fit)
    m = t.m
    rho = env.real("rho")
    x1, x2 = env.real("x"), env.real("xb")
    if fit == "Spline":     # keep the product of spline intervals small
        y2 = env.scal(t.sol(x2)[0])*env.scal(t.du(x2))
        env.assume(y2 > 0.064)
    X = env.array([x1, x2])
    r = [m.delta_d(X), m.delta_m(X), m.delta_k(X), m.shape_d(X),
         m.shape_k(X), m.tau_w(X, rho)]
    for q in r:
        env.check("array result has the shape of the argument",
                  env.np.shape(q) == (2,))
    for i, x in enumerate((x1, x2)):
        one(env, t, x, f"element {i}: ", *[q[i] for q in r], rho)


def history(env, variant, what):
    """Asked, changed, asked again at the same places."""
    s = env.scal
    x, xb, rho = env.real("x"), env.real("xb"), env.real("rho")
    X = env.array([x, xb])
    if what == "solved before":
        t = thwaites(env, variant, "Custom", past=[x, X])
    else:
        t = thwaites(env, variant, "White" if what == "fit" else "Custom")
        ask_all(t.m, x)
        if what != "fit":
            ask_all(t.m, X)
    m = t.m
    if what == "fit":       # takes effect on the profile already there
        t.S, t.H = env.func("S1"), env.func("H1")
        m.set_data_fits((t.S, t.H, t.H.d(1)))
    elif what == "velocity":
        t.u = env.func("u1", lo=0)
        t.du = t.u.d(1)
        m.set_velocity(t.u, t.du, t.u.d(2))
    one(env, t, x, what + ": ", s(m.delta_d(x)), s(m.delta_m(x)),
        s(m.delta_k(x)), s(m.shape_d(x)), s(m.shape_k(x)), s(m.tau_w(x, rho)),
        rho)
    r = [m.delta_d(X), m.delta_m(X), m.delta_k(X), m.shape_d(X),
         m.shape_k(X), m.tau_w(X, rho)]
    for i, q in enumerate((x, xb)):
        one(env, t, q, f"{what}: element {i}: ", *[w[i] for w in r], rho)


def jobs(tier):
    j = []
    for f in FITS[::-1] + ("Custom",):
        for v in VARIANTS:
            j.append(("scalar", dict(variant=v, fit=f)))
            j.append(("array", dict(variant=v, fit=f)))
    return j + [("history", dict(variant=v, what=w)) for v in VARIANTS
                for w in ("solved before", "fit", "velocity")]
