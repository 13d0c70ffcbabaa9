"""C21  Analytic solutions integrate the right similarity problem."""
from .c19 import Profile, BETA, RANGES
from .common import accurate

BOUNDS = ("exact over reals: every beta in [-0.19884, 2], every positive "
          "fw_pp / eta_inf given or left open, every state; up to N trial "
          "integrations of the shooting search (N = 3 quick, 5 thorough) with "
          "arbitrary end values, failing at any of them; integration, "
          "root-search failures; construction, reset by beta, m or "
          "parameters")
ASSUME = ["solve_ivp starts from the state it is given"]


def make(env, kind, beta, fw, inf):
    A = env.mod("ibl.analytic")
    if kind == "Blasius":
        return A.Blasius(1.0, 1.0, fw, inf)
    return A.FalknerSkan(beta, 1.0, 1.0, fw, inf)


def enter(env, kind, how, beta, fw, inf):
    """Object reaching the parameters through the requested route."""
    if how == "constructor":
        return make(env, kind, beta, fw, inf)
    o = make(env, kind, beta if how == "set_solution_parameters" else 0.5,
             0.9, 6.0)
    if how == "set_solution_parameters":
        o.set_solution_parameters(eta_inf=inf, fw_pp=fw)
    elif how == "reset_beta":
        o.reset_beta(beta, eta_inf=inf, fw_pp=fw)
    else:
        o.reset_m(beta/(2 - beta), eta_inf=inf, fw_pp=fw)
    return o


def beta_of(env, kind, how="constructor"):
    if kind == "Blasius":
        return 0.0
    return env.real("beta", *BETA, lo_open=False,
                    hi_open=how == "reset_m")


def given(env, kind, how):
    """Both parameters supplied: one integration, then the integrals."""
    beta = beta_of(env, kind, how)
    fw, inf = env.real("fw_pp", 0, 2), env.real("eta_inf", 0, 20)
    I, R = env.real("I", 0, 2), env.real("R", 0, 20)
    calls = env.ivp_family("F", ranges=RANGES)
    base = env.handler("solve_ivp")

    def ivp(call):
        r = base(call)
        r.sol = Profile(env, r.sol, call.y0)
        call.sol = r.sol
        return r
    env.stub("solve_ivp", ivp)
    quads, roots = [], []

    def quad(f, a, b):
        quads.append((f, a, b))
        return I, 1e-10

    def root(f, bracket, kw):
        roots.append((f, bracket))
        return env.result(converged=True, root=R, flag="converged")
    env.stub("quad", quad)
    env.stub("root_scalar", root)
    n = env.scal
    s = enter(env, kind, how, beta, fw, inf)
    c = calls[-1]
    env.check("one integration with given parameters",
              len(calls) == (1 if how == "constructor" else 2))
    env.eq("starts at the wall", c.t0, 0, scale=lambda: 1.0)
    env.eq("ends at eta_inf", c.t1, inf)
    env.check("three state values", len(c.y0) == 3)
    for i, v in enumerate((0, 0, fw)):
        env.eq(f"initial state {i}", c.y0[i], v, scale=lambda: 1e-3)
    st = [env.real(k, -5, 5) for k in ("f0", "f1", "f2")]
    r = env.rate(c.fun, env.real("t", 0, 20), st)
    env.eq("f' rate", r[0], st[1])
    env.eq("f'' rate", r[1], st[2])
    env.eq("Falkner-Skan equation", r[2] + st[0]*st[2]
           + beta*(1 - st[1]*st[1]), 0, scale=lambda: 10.0)
    env.eq("eta_inf reads the given value", s.eta_inf, inf)
    env.eq("fw_pp reads the given value", n(s.fw_pp), fw)
    e = env.real("e", 0, 20)
    w = c.sol(e)
    for i, q in enumerate(("f", "f_p", "f_pp")):
        env.eq(f"{q} is the integrated profile", n(getattr(s, q)(e)), w[i])
    end = c.sol(inf)
    ed = inf - end[0]
    env.observe("eta_d", s.eta_d)
    env.observe("eta_m", s.eta_m)
    env.eq("eta_d = eta_inf - f(eta_inf)", s.eta_d, ed, scale=lambda: inf)
    env.eq("eta_m from the momentum identity", s.eta_m*(1 + beta),
           fw - beta*ed, scale=lambda: fw + abs(beta)*inf)
    env.eq("eta_k is the integral", s.eta_k, I)
    env.eq("eta_s is the root", s.eta_s, R)
    f, a, b = quads[-1]
    env.eq("energy integral from the wall", a, 0, scale=lambda: 1.0)
    env.eq("energy integral to eta_inf", b, inf)
    env.eq("energy integrand", n(f(e)), 2*w[0]*w[1]*w[2],
           scale=lambda: 1e-3)
    accurate(env)
    f, br = roots[-1]
    env.eq("root bracket starts at the wall", br[0], 0, scale=lambda: 1.0)
    env.eq("root bracket ends at eta_inf", br[1], inf)
    g = n(f(e))
    env.check("root function vanishes where f' = 0.99 and only there",
              near(env, g, w[1] - 0.99) | near(env, g, 0.99 - w[1]))


def near(env, a, b):
    if env.symbolic:
        return a == b
    return abs(a - b) <= 1e-9


def shooting(env, kind, how, open_, limit):
    """Trial integrations with arbitrary end values."""
    beta = beta_of(env, kind, how)
    fw = None if "fw_pp" in open_ else env.real("fw_pp", 0, 2)
    inf = None if "eta_inf" in open_ else env.real("eta_inf", 0, 20)
    final = env.ivp_family("F", ranges=RANGES)
    base = env.handler("solve_ivp")
    trials, ends = [], []
    I, R = env.real("I", 0, 2), env.real("R", 0, 20)
    env.stub("quad", lambda f, a, b: (I, 0.0))
    env.stub("root_scalar", lambda f, br, kw: env.result(
        converged=True, root=R, flag="converged"))
    ready = [how == "constructor"]

    def ivp(call):
        if not ready[0] or call.kw.get("dense_output"):
            r = base(call)
            r.sol = call.sol = Profile(env, r.sol, call.y0)
            return r
        k = len(trials)
        env.assume(k < limit)
        a, b = env.real(f"A{k}", 0.5, 1.5), env.real(f"B{k}", -1, 1)
        done = env.choice("trial end", ["arbitrary", "f' = 1", "converged"])
        if done != "arbitrary":
            a = 1.0
        if done == "converged":
            b = 0.0
        for p, q in ends:
            if done == "arbitrary":
                env.assume((a != p) & (b != q))
            elif done == "f' = 1":
                env.assume(b != q)
        ends.append((a, b))
        trials.append(call)
        y = env.np.empty((3, 2), dtype=object) if env.symbolic else \
            env.np.zeros((3, 2))
        y[0, 0] = y[1, 0] = 0.0
        y[2, 0] = call.y0[2]
        y[0, 1], y[1, 1], y[2, 1] = 0.7, a, b
        return env.result(success=True, status=0, message="ok", sol=None,
                          y=y, t=env.array([call.t0, call.t1]))
    env.stub("solve_ivp", ivp)
    o = None
    if how != "constructor":
        o = make(env, kind, 0.5, 0.9, 6.0)
        ready[0] = True

    def go():
        if how == "constructor":
            got.append(make(env, kind, beta, fw, inf))
        elif how == "reset_beta":
            o.reset_beta(beta, eta_inf=inf, fw_pp=fw)
        elif how == "reset_m":
            o.reset_m(beta/(2 - beta), eta_inf=inf, fw_pp=fw)
        else:
            o.set_solution_parameters(eta_inf=inf, fw_pp=fw)
    got = []
    if env.raises(ValueError, go):
        # a search for eta_inf alone may find that there is none
        a, b = ends[-1] if ends else (0.0, 0.0)
        env.check("gives up only on a search that has not converged",
                  (list(open_) == ["eta_inf"]) & (len(trials) >= 2)
                  & (abs(b) > 1e-9))
        return
    s = got[0] if got else o
    if how != "constructor":
        if how == "set_solution_parameters" and kind != "Blasius":
            beta = 0.5
    n = env.scal
    st = [env.real(k, -5, 5) for k in ("f0", "f1", "f2")]
    t = env.real("t", 0, 1)
    L = None
    for k, c in enumerate(trials):
        r = env.rate(c.fun, t, st)
        unit = env.rate(c.fun, t, [0.0, 1.0, 0.0])
        scale = unit[0]
        L = scale*(c.t1 - c.t0)
        if inf is not None:
            env.eq("trial range is the given eta_inf", L, inf)
        env.eq("trial starts at the wall", c.y0[0], 0, scale=lambda: 1.0)
        env.eq("trial starts without slip", c.y0[1], 0, scale=lambda: 1.0)
        if fw is not None:
            env.eq("trial starts with the given f''(0)", c.y0[2], fw)
        env.eq("trial f' rate", r[0], scale*st[1], scale=lambda: 1.0)
        env.eq("trial f'' rate", r[1], scale*st[2], scale=lambda: 1.0)
        env.eq("trial integrates the Falkner-Skan equation",
               r[2] + scale*(st[0]*st[2] + beta*(1 - st[1]*st[1])), 0,
               scale=lambda: 10*abs(scale))
    c = final[-1]
    env.eq("final integration starts at the wall", c.t0, 0,
           scale=lambda: 1.0)
    env.eq("eta_inf reads the range", s.eta_inf, c.t1)
    env.eq("fw_pp reads the initial slope", n(s.fw_pp), c.y0[2])
    r = env.rate(c.fun, t, st)
    env.eq("final integration: Falkner-Skan equation",
           r[2] + st[0]*st[2] + beta*(1 - st[1]*st[1]), 0,
           scale=lambda: 10.0)
    env.eq("final integration: f' rate", r[0], st[1], scale=lambda: 1.0)
    if inf is not None:
        env.eq("given eta_inf is honoured", c.t1, inf)
    if fw is not None:
        env.eq("given fw_pp is honoured", c.y0[2], fw)
    accurate(env)
    env.check("searching needs trial integrations", len(trials) >= 1)
    env.eq("final range is that of the accepted trial", c.t1, L)
    env.eq("final f''(0) is that of the accepted trial", c.y0[2],
           trials[-1].y0[2])
    a, b = ends[-1]
    if fw is None:
        env.check("accepted trial reaches f' = 1", abs(a - 1) <= 1e-6)
    if inf is None:
        env.check("eta_inf found by the search is positive", s.eta_inf > 0)
        env.check("accepted trial has vanishing shear", abs(b) <= 1e-6)


def failures(env, kind, how):
    """A failing integration or root search raises ValueError."""
    beta = beta_of(env, kind, how)
    what = env.choice("failing", ["final", "trial", "later trial", "root"])
    fw, inf = env.real("fw_pp", 0, 2), env.real("eta_inf", 0, 20)
    if what in ("trial", "later trial"):
        k = env.choice("open", ["fw_pp", "eta_inf", "both"]
                       if kind != "Blasius" or how != "constructor" else
                       ["fw_pp", "eta_inf"])
        fw = None if k != "eta_inf" else fw
        inf = None if k != "fw_pp" else inf
    env.ivp_family("F", ranges=RANGES)
    base = env.handler("solve_ivp")
    A = [env.real(f"A{k}", 0.5, 0.9) for k in range(3)]
    B = [env.real(f"B{k}", 0.1, 0.9) for k in range(3)]
    env.assume((A[0] != A[1]) & (B[0] != B[1]))
    armed, count = [how == "constructor"], [0]

    def ivp(call):
        r = base(call)
        r.sol = Profile(env, r.sol, call.y0)
        if not armed[0]:
            return r
        k = count[0]
        count[0] += 1
        if what == "final" or what == "trial" and k == 0 or \
                what == "later trial" and k == 2:
            r.success = False
            r.status = -1
            r.message = "Required step size is too small."
            return r
        env.assume(k < 3)
        y = env.np.zeros((3, 2)) if not env.symbolic else \
            env.np.empty((3, 2), dtype=object)
        y[0, 0] = y[1, 0] = 0.0
        y[2, 0] = call.y0[2]
        y[0, 1], y[1, 1], y[2, 1] = 0.7, A[k], B[k]
        r.y = y
        return r
    env.stub("solve_ivp", ivp)
    env.stub("quad", lambda f, a, b: (0.5, 0.0))
    env.stub("root_scalar", lambda f, br, kw: env.result(
        converged=what != "root" or not armed[0], root=1.0, flag="no"))

    def go():
        if how == "constructor":
            make(env, kind, beta, fw, inf)
        elif how == "set_solution_parameters":
            o.set_solution_parameters(eta_inf=inf, fw_pp=fw)
        elif how == "reset_beta":
            o.reset_beta(beta, eta_inf=inf, fw_pp=fw)
        else:
            o.reset_m(beta/(2 - beta), eta_inf=inf, fw_pp=fw)
    if how != "constructor":
        o = make(env, kind, 0.5, 0.9, 6.0)
        armed[0] = True
    env.check(f"{what} failure raises ValueError", env.raises(ValueError, go))


def default(env):
    """Blasius with nothing given: its defaults are what is integrated."""
    calls = env.ivp_family("F", ranges=RANGES)
    base = env.handler("solve_ivp")

    def ivp(call):
        r = base(call)
        r.sol = Profile(env, r.sol, call.y0)
        return r
    env.stub("solve_ivp", ivp)
    env.stub("quad", lambda f, a, b: (0.5, 0.0))
    env.stub("root_scalar", lambda f, br, kw: env.result(
        converged=True, root=1.0, flag=""))
    s = env.mod("ibl.analytic").Blasius(env.real("u", 0), env.real("nu", 0))
    env.eq("default f''(0)", calls[-1].y0[2], 0.4695999888844369, tol=1e-7)
    env.eq("default eta_inf reads back", s.eta_inf, calls[-1].t1)
    env.check("default eta_inf covers the layer", bool(s.eta_inf > 6))


def jobs(tier):
    both = ("constructor", "set_solution_parameters")
    four = both + ("reset_beta", "reset_m")
    R = [("Blasius", h) for h in both] + [("FalknerSkan", h) for h in four]
    j = [("given", dict(kind=k, how=h)) for k, h in R]
    N = 3 if tier == "quick" else 5
    j += [("shooting", dict(kind=k, how=h, open_=o,
                            limit=N),
           dict(max_validate=40))
          for k, h in R for o in (("fw_pp",), ("eta_inf",),
                                  ("fw_pp", "eta_inf"))
          if (tier != "quick" or h in ("constructor", "reset_beta"))
          and (k, h, len(o)) != ("Blasius", "constructor", 2)]
    j += [("failures", dict(kind=k, how=h)) for k, h in R]
    return j + [("default", {})]
