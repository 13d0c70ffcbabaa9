"""C15  Head rates satisfy the momentum integral and entrainment equations."""
BOUNDS = ("exact over reals: every viscosity, edge velocity >= 0.001, velocity "
          "gradient of either sign, momentum thickness > 0 and shape factor "
          "> 1.11 (either branch; the kink at 1.6 excluded for the slope "
          "only); viscosity and velocity given at construction or reassigned, "
          "also between two solves; wall shear at every station of the "
          "solution and every density")

LOW = (0.8234, 1.1, 1.287, 3.3)
HIGH = (1.5501, 0.6778, 3.064, 3.32254659218600974)


def branch(env, H):
    """Published entrainment shape factor and its slope."""
    a, b, c, d = LOW if H <= 1.6 else HIGH
    return d + a*(H - b)**(-c), -a*c*(H - b)**(-c - 1)


def c_f(re, H):
    return 0.246*re**(-0.268)*10**(-0.678*H)


def setup(env, how):
    h = env.mod("ibl.head_method")
    nu = env.real("nu", 0)
    u = env.func("u", lo=0.001, lo_open=False)
    vel = (u, u.d(1), u.d(2))
    if how == "constructor":
        m = h.HeadMethod(nu, *vel)
    else:
        v = env.func("v", lo=0.001, lo_open=False)
        m = h.HeadMethod(env.real("nu_old", 0), v, v.d(1), v.d(2))
        m.initial_delta_m = env.real("dm_old", 0)
        m.initial_shape_d = env.real("H_old", 1.1, 3)
    calls = env.ivp_family("Y", ranges=[(0, None), (1.11, 8)])
    if how == "after an earlier solve":
        m.solve(0.5, 1.0)
    if how != "constructor":
        m.nu = nu
        m.set_velocity(*vel)
    m.initial_delta_m = env.real("dm0", 0)
    m.initial_shape_d = env.real("H0", 1.11, 3)
    m.solve(0.5, 1.0)
    return m, nu, u, calls[-1]


def rates(env, how):
    m, nu, u, call = setup(env, how)
    x = env.real("x", 0)
    dm, H = env.real("dm", 0), env.real("H", 1.11)
    env.assume(H != 1.6)
    r = env.rate(call.fun, x, [dm, H])
    env.check("one rate per state", len(r) == 2)
    U, dU = env.scal(u(x)), env.scal(u.d(1)(x))
    cf = c_f(U*dm/nu, H)
    H1, dH1 = branch(env, H)
    E = 0.0306*(H1 - 3)**(-0.6169)
    env.observe("d(delta_m)/dx", r[0])
    env.observe("dH/dx", r[1])
    env.eq("momentum integral equation", r[0], cf/2 - (H + 2)*dm*dU/U,
           scale=lambda: cf + abs((H + 2)*dm*dU/U))
    env.eq("entrainment equation",
           dU*dm*H1 + U*r[0]*H1 + U*dm*dH1*r[1], U*E, tol=1e-6,
           scale=lambda: abs(dU*dm*H1) + U*abs(r[0])*H1 + U*E)


def shear(env, how):
    m, nu, u, call = setup(env, how)
    x, rho = env.real("x", 0.5, 1), env.real("rho", 0)
    s = call.sol(x)
    dm, H = s[0], s[1]
    U = env.scal(u(x))
    t = env.scal(m.tau_w(x, rho))
    env.observe("tau_w", t)
    env.eq("wall shear", t, rho*U*U*c_f(U*dm/nu, H)/2)
    r = env.rate(call.fun, x, [dm, H])
    dU = env.scal(u.d(1)(x))
    env.eq("wall shear balances the momentum rate",
           2*t/(rho*U*U), 2*(r[0] + (H + 2)*dm*dU/U),
           scale=lambda: abs(r[0]) + abs((H + 2)*dm*dU/U))


def jobs(tier):
    W = ("constructor", "reassigned", "after an earlier solve")
    return [(d, dict(how=w)) for d in ("rates", "shear") for w in W]
