"""C19  Analytic similarity solutions satisfy the boundary-layer equations."""
BOUNDS = ("exact over reals: every beta in [-0.19884, 2) (Blasius: 0), every "
          "u_ref, nu > 0, x > 0, y > 0 inside the solved range; the profile "
          "is an arbitrary solution of the rates handed to the integrator "
          "with the initial state handed to it; objects fresh, with changed "
          "reference values, and after reset by beta, by m or of the solution "
          "parameters")
ASSUME = ["solve_ivp returns a solution of the rates it is given, starting at "
          "the state it is given"]

BETA = (-0.19884, 2)


def is_zero(env, x):
    if env.np.ndim(x) > 0:
        return False
    if env.symbolic:
        try:
            n = getattr(env.scal(x), "n", None)
        except Exception:
            return False
        if n is not None:
            return n.op == "const" and n.data == 0
        return not hasattr(x, "__len__") and x == 0
    return env.np.ndim(x) == 0 and float(x) == 0.0


class Profile:
    """Dense output that honours the initial state."""

    def __init__(self, env, sol, y0):
        self.env, self.sol, self.y0 = env, sol, y0

    def __call__(self, t):
        if is_zero(self.env, t):
            return self.env.array(list(self.y0))
        return self.sol(t)


RANGES = [(-20, 30), (-3, 3), (-3, 3)]


def stubs(env, name="F"):
    """solve_ivp, quad and root_scalar that succeed; returns the records."""
    rec = env.result(ivp=env.ivp_family(name, ranges=RANGES), quad=[], root=[])
    base = env.handler("solve_ivp")

    def ivp(call):
        r = base(call)
        r.sol = call.sol = Profile(env, r.sol, call.y0)
        return r

    def quad(func, a, b):
        rec.quad.append((func, a, b))
        v = env.real(f"I{len(rec.quad)}", 0, 2)
        return v, 1e-10

    def root(f, bracket, kw):
        rec.root.append((f, bracket))
        v = env.real(f"R{len(rec.root)}", 0, 20)
        return env.result(converged=True, root=v, flag="converged")
    env.stub("solve_ivp", ivp)
    env.stub("quad", quad)
    env.stub("root_scalar", root)
    return rec


HOW = ("fresh", "reference values changed", "solution parameters set")
HOW_FS = HOW + ("reset by beta", "reset by m")


class Obj:
    pass


def ask(s, x, y):
    """Every query once, so that whatever is remembered is remembered."""
    for t in (y, 0.0):
        e = s.eta(x, t)
        for f in (s.f, s.f_p, s.f_pp):
            f(e)
        s.u(x, t), s.v(x, t)
    for nm in ("eta_d", "eta_m", "eta_k", "eta_s"):
        getattr(s, nm)
    for f in (s.u_e, s.v_e, s.delta_d, s.delta_m, s.delta_k, s.delta_s,
              s.shape_d, s.shape_k):
        f(x)
    for f in (s.tau_w, s.dissipation):
        f(x, 1)


def build(env, kind, how):
    o = Obj()
    o.rec = stubs(env)
    o.u_ref, o.nu = env.real("u_ref", 0), env.real("nu", 0)
    o.fw, o.inf = env.real("fw_pp", 0, 2), env.real("eta_inf", 0, 20)
    A = env.mod("ibl.analytic")
    u0, n0 = o.u_ref, o.nu
    if how == HOW[1]:
        u0, n0 = env.real("u_ref_old", 0), env.real("nu_old", 0)
    f0, e0 = o.fw, o.inf
    if how in ("solution parameters set", "reset by beta", "reset by m"):
        f0, e0 = env.real("fw_old", 0, 2), env.real("inf_old", 0, 20)
    if kind == "Blasius":
        o.beta = 0
        o.s = A.Blasius(u0, n0, f0, e0)
    else:
        o.beta = env.real("beta", *BETA, lo_open=False, hi_open=True)
        b0 = o.beta
        if how.startswith("reset"):
            b0 = env.real("beta_old", *BETA, lo_open=False, hi_open=True)
        o.s = A.FalknerSkan(b0, u0, n0, f0, e0)
    o.x, o.y = env.real("x", 0), env.real("y", 0)
    if how != HOW[0]:
        env.assume(env.scal(o.s.eta(o.x, o.y)) < e0)
        env.assume(o.s.eta_m != 0)
        ask(o.s, o.x, o.y)
    if how == HOW[1]:
        o.s.u_ref = o.u_ref
        o.s.nu_ref = o.nu
    elif how == "solution parameters set":
        o.s.set_solution_parameters(eta_inf=o.inf, fw_pp=o.fw)
    elif how == "reset by beta":
        o.s.reset_beta(o.beta, o.inf, o.fw)
    elif how == "reset by m":
        o.s.reset_m(o.beta/(2 - o.beta), o.inf, o.fw)
    o.m = o.beta/(2 - o.beta) if kind != "Blasius" else 0
    o.call = o.rec.ivp[-1]
    return o


def equations(env, kind, how):
    o = build(env, kind, how)
    s, n = o.s, env.scal
    x, y = o.x, o.y
    eta = n(s.eta(x, y))
    env.assume(eta < o.inf)
    u, v, ue = n(s.u(x, y)), n(s.v(x, y)), n(s.u_e(x))
    env.observe("u", u)
    env.observe("v", v)
    ux = env.diff(lambda t: n(s.u(t, y)), x)
    uy = env.diff(lambda t: n(s.u(x, t)), y)
    vy = env.diff(lambda t: n(s.v(x, t)), y)
    due = env.diff(lambda t: n(s.u_e(t)), x)
    env.eq("edge velocity is u_ref*x^m", ue,
           o.u_ref*x**o.m if kind != "Blasius" else o.u_ref)
    env.eq("continuity equation", ux + vy, 0, tol=1e-5,
           scale=lambda: abs(ux) + abs(vy) + ue/x)

    def shear(t):
        e = n(s.eta(x, t))
        return n(s.u_e(x))*(e/t)*n(s.f_pp(e))
    env.eq("du/dy", uy, shear(y), tol=1e-5, scale=lambda: ue*eta/y)
    uyy = env.diff(shear, y)
    env.eq("momentum equation", u*ux + v*uy, ue*due + o.nu*uyy, tol=1e-4,
           scale=lambda: abs(u*ux) + abs(v*uy) + abs(ue*due)
           + abs(o.nu*uyy) + ue*ue/x)


def wall(env, kind, how):
    o = build(env, kind, how)
    s, n = o.s, env.scal
    x = o.x
    env.eq("u = 0 at the wall", n(s.u(x, 0.0)), 0, scale=lambda: 1.0)
    env.eq("v = 0 at the wall", n(s.v(x, 0.0)), 0, scale=lambda: 1.0)
    env.eq("eta = 0 at the wall", n(s.eta(x, 0.0)), 0, scale=lambda: 1.0)


def jobs(tier):
    return [(d, dict(kind=k, how=h)) for k in ("Blasius", "FalknerSkan")
            for h in (HOW if k == "Blasius" else HOW_FS)
            for d in ("equations", "wall")]
