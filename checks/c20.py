"""C20  Analytic integral parameters satisfy the integral equations."""
from .c19 import build, HOW, HOW_FS

BOUNDS = ("exact over reals: every beta in [-0.19884, 2) (Blasius: 0), every "
          "u_ref, nu, rho, x > 0; every profile and every value of the "
          "similarity integrals; objects fresh, with changed reference values "
          "and after each kind of reset")
ASSUME = ["solve_ivp returns a solution starting at the state it is given"]


def integral(env, kind, how):
    o = build(env, kind, how)
    s, n = o.s, env.scal
    x, rho = o.x, env.real("rho", 0)
    ue, dd, dm, dk = (n(s.u_e(x)), n(s.delta_d(x)), n(s.delta_m(x)),
                      n(s.delta_k(x)))
    env.assume(s.eta_m != 0)
    tau, D, v = n(s.tau_w(x, rho)), n(s.dissipation(x, rho)), n(s.v_e(x))
    for nm, q in (("tau_w", tau), ("dissipation", D), ("v_e", v),
                  ("delta_d", dd)):
        env.observe(nm, q)
    due = env.diff(lambda t: n(s.u_e(t)), x)
    env.eq("v_e = d(u_e*delta_d)/dx", v,
           env.diff(lambda t: n(s.u_e(t))*n(s.delta_d(t)), x), tol=1e-5,
           scale=lambda: abs(ue*dd/x))
    env.eq("momentum integral equation", tau/rho,
           env.diff(lambda t: n(s.u_e(t))**2*n(s.delta_m(t)), x)
           + ue*due*dd, tol=1e-5,
           scale=lambda: abs(ue*ue*dm/x) + abs(ue*due*dd))
    env.eq("kinetic energy integral equation", D/rho,
           env.diff(lambda t: n(s.u_e(t))**3*n(s.delta_k(t)), x)/2, tol=1e-5,
           scale=lambda: abs(ue**3*dk/x))
    env.eq("shape_d = delta_d/delta_m", n(s.shape_d(x)), dd/dm)
    env.eq("shape_k = delta_k/delta_m", n(s.shape_k(x)), dk/dm)
    r2 = env.real("rho2", 0)
    env.eq("tau_w proportional to density", n(s.tau_w(x, r2))*rho, tau*r2)
    env.eq("dissipation proportional to density",
           n(s.dissipation(x, r2))*rho, D*r2)
    # wall shear: du/dy is shear factor times f'' everywhere, f''(0) = fw_pp
    y = o.y
    e = n(s.eta(x, y))
    env.assume(e < o.inf)
    uy = env.diff(lambda t: n(s.u(x, t)), y)
    env.eq("tau_w = rho*nu*du/dy at the wall", tau*n(s.f_pp(e)),
           rho*o.nu*uy*n(s.f_pp(0.0)), tol=1e-5)
    env.eq("wall shear parameter", n(s.f_pp(0.0)), o.fw)
    # thicknesses in similarity variables
    for nm, t in (("eta_d", dd), ("eta_m", dm), ("eta_k", dk),
                  ("eta_s", n(s.delta_s(x)))):
        env.eq("thickness is " + nm + " in physical units",
               n(s.eta(x, t)), getattr(s, nm), scale=lambda: 1.0)


def places(env, kind, form):
    """The same relations when the stations are an array, whole numbers, or
    an array of whole numbers."""
    o = build(env, kind, "fresh")
    s, n = o.s, env.scal
    rho = env.real("rho", 0)
    env.assume(s.eta_m != 0)
    if form == "array":
        xs = [o.x, env.real("x2", 0)]
        X = env.array(xs)
    else:
        xs = [1.0, 2.0]
        X = env.np.array([1, 2]) if form == "whole numbers" else None
    one = (lambda f: [f(1), f(2)]) if X is None else \
        (lambda f: (lambda a: [a[0], a[1]])(f(X)))
    ue, ve = one(s.u_e), one(s.v_e)
    dd, dm, dk, ds = (one(f) for f in (s.delta_d, s.delta_m, s.delta_k,
                                       s.delta_s))
    hd, hk = one(s.shape_d), one(s.shape_k)
    tau = one(lambda x: s.tau_w(x, rho))
    dis = one(lambda x: s.dissipation(x, rho))
    m = o.m
    for i, x in enumerate(xs):
        u = o.u_ref*x**m if kind != "Blasius" else o.u_ref
        env.eq("edge velocity at every station", n(ue[i]), u)
        g = env.np.sqrt((m + 1)*u/(2*o.nu*x))    # eta = y*g
        for nm, d, t in (("displacement", dd, s.eta_d),
                         ("momentum", dm, s.eta_m),
                         ("kinetic energy", dk, s.eta_k),
                         ("boundary layer", ds, s.eta_s)):
            env.eq(nm + " thickness at every station", n(d[i])*g, t,
                   scale=lambda: 1.0)
        env.eq("shape_d at every station", n(hd[i])*n(dm[i]), n(dd[i]),
               scale=lambda: 1e-6)
        env.eq("shape_k at every station", n(hk[i])*n(dm[i]), n(dk[i]),
               scale=lambda: 1e-6)
        # thicknesses grow as x**((1-m)/2)
        env.eq("momentum integral equation at every station", n(tau[i])/rho,
               u**2*n(dm[i])*(2*m + (1 - m)/2)/x + m*u*u*n(dd[i])/x,
               scale=lambda: abs(u*u*n(dm[i])/x))
        env.eq("kinetic energy integral equation at every station",
               n(dis[i])/rho, u**3*n(dk[i])*(3*m + (1 - m)/2)/x/2,
               scale=lambda: abs(u**3*n(dk[i])/x))
        env.eq("v_e at every station", n(ve[i]),
               u*n(dd[i])*(m + (1 - m)/2)/x,
               scale=lambda: abs(u*n(dd[i])/x))


def jobs(tier):
    return [("integral", dict(kind=k, how=h))
            for k in ("Blasius", "FalknerSkan")
            for h in (HOW if k == "Blasius" else HOW_FS)] + [
                ("places", dict(kind=k, form=f))
                for k in ("Blasius", "FalknerSkan")
                for f in ("array", "whole numbers", "one whole number")]
