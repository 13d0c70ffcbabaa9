"""C22  Falkner-Skan beta/m conversion, range checks and atomic resets."""
from .c19 import stubs, BETA

BOUNDS = ("exact over reals: every beta and m (inside and outside the range, "
          "the end points and m = infinity), every eta_inf and fw_pp of "
          "either sign; construction and every reset, on an object with "
          "arbitrary earlier parameters, up to two resets in a row; resets "
          "whose integration or root search fails")


def obj(env, tag=""):
    b = env.real("beta" + tag, *BETA, lo_open=False)
    s = env.mod("ibl.analytic").FalknerSkan(
        b, env.real("u_ref", 0), env.real("nu", 0), env.real("fw", 0, 2),
        env.real("inf", 0, 20))
    return s, b


def reads(env, s, beta, label):
    """beta, m and u_e of an object that should have the given beta."""
    n = env.scal
    env.eq(label + "beta", s.beta, beta, scale=lambda: 1e-3)
    x = env.real("x", 0)
    m = s.m
    if beta == 2:
        env.check(label + "m is infinite at beta = 2", m == env.np.inf)
    else:
        env.eq(label + "m = beta/(2-beta)", m, beta/(2 - beta),
               scale=lambda: 1e-3)
        env.eq(label + "u_e = u_ref*x^m", n(s.u_e(x)),
               s.u_ref*x**(beta/(2 - beta)))
    env.observe(label + "beta", s.beta)


def conversion(env, route):
    stubs(env)
    if route == "constructor":
        s, beta = obj(env)
    else:
        s, _ = obj(env, "0")
        for k in range(env.choice("resets", [1, 2])):
            tag = str(k + 1)
            if route == "reset_beta":
                beta = env.real("beta" + tag, *BETA, lo_open=False)
                s.reset_beta(beta, env.real("inf" + tag, 0, 20),
                             env.real("fw" + tag, 0, 2))
            else:
                if env.choice("m infinite", [False, True]):
                    m, beta = env.np.inf, 2
                else:
                    m = env.real("m" + tag, -0.0904, 50)
                    beta = 2*m/(1 + m)
                    env.assume(beta >= -0.19884)
                    env.assume(beta < 2)
                s.reset_m(m, env.real("inf" + tag, 0, 20),
                          env.real("fw" + tag, 0, 2))
                if m != env.np.inf:
                    env.eq("m reads back", s.m, m, scale=lambda: 1e-3)
    reads(env, s, beta, route + ": ")


def round_trip(env):
    stubs(env)
    s, beta = obj(env)
    m = s.m
    t, _ = obj(env, "0")
    t.reset_m(m, 6.0, 0.5)
    env.eq("resetting by m gives the beta back", t.beta, beta,
           scale=lambda: 1e-3)


SEES = ("beta", "m", "eta_inf", "eta_d", "eta_m", "eta_k", "eta_s", "fw_pp",
        "u_ref", "nu_ref")


def snapshot(env, s, x, y):
    n = env.scal
    r = {k: n(getattr(s, k)) for k in SEES}
    for q in ("f", "f_p", "f_pp"):
        r[q] = n(getattr(s, q)(y))
    for q in ("u_e", "delta_d", "delta_m", "delta_k", "delta_s", "v_e",
              "shape_d"):
        r[q] = n(getattr(s, q)(x))
    r["tau_w"] = n(s.tau_w(x, 1.0))
    r["u"], r["v"] = n(s.u(x, y)), n(s.v(x, y))
    return r


def rejected(env, route):
    """Anything outside is refused and leaves the object as it was."""
    rec = stubs(env)
    what = env.choice("invalid", ["beta", "eta_inf", "fw_pp"]
                      if route != "set_solution_parameters"
                      else ["eta_inf", "fw_pp"])
    beta = env.real("beta1", -5, 5)
    inf, fw = env.real("inf1", -20, 20), env.real("fw1", -2, 2)
    ok_b = (beta >= -0.19884) & (beta <= 2)
    if what == "beta":
        m = None
        if route == "reset_m":
            m = env.real("m1", -50, 50)
            env.assume(m < -0.0905)
        else:
            env.assume((beta < -0.19884) | (beta > 2))
        env.assume((inf > 0) & (fw > 0))
        if env.choice("rest", ["given", "left open"]) == "left open":
            inf = fw = None
    else:
        m = None
        if route == "reset_m":
            m = env.real("m1", -0.09, 50)
            env.assume(m > -0.09)
        else:
            env.assume(ok_b)
        bad, good = (inf, fw) if what == "eta_inf" else (fw, inf)
        env.assume((bad <= 0) & (good > 0))
        if env.choice("rest", ["given", "left open"]) == "left open":
            if what == "eta_inf":
                fw = None
            else:
                inf = None
    if env.choice("value", ["number", "nan"]) == "nan":
        nan = float("nan")
        if what == "beta":
            beta, m = nan, nan
        elif what == "eta_inf":
            inf = nan
        else:
            fw = nan
    if route == "constructor":
        env.check("construction is rejected", env.raises(
            ValueError, lambda: env.mod("ibl.analytic").FalknerSkan(
                beta, 1.0, 1.0, fw, inf)))
        return
    s, b0 = obj(env, "0")
    env.assume(b0 < 2)
    x, y = env.real("x", 0), env.real("y", 0)
    env.assume(s.eta_m != 0)
    before = snapshot(env, s, x, y)
    calls = len(rec.ivp)

    def go():
        if route == "reset_beta":
            s.reset_beta(beta, eta_inf=inf, fw_pp=fw)
        elif route == "reset_m":
            s.reset_m(m, eta_inf=inf, fw_pp=fw)
        else:
            s.set_solution_parameters(eta_inf=inf, fw_pp=fw)
    env.check(f"{route} with invalid {what} is rejected",
              env.raises(ValueError, go))
    env.check("nothing is integrated by a rejected reset",
              len(rec.ivp) == calls)
    after = snapshot(env, s, x, y)
    for k in before:
        env.eq(f"{k} unchanged by a rejected reset", after[k], before[k])


def unsolved(env, route):
    """A reset whose integration or root search fails leaves no mixture."""
    rec = stubs(env)
    what = env.choice("failing", ["integration", "root search",
                                  "root search raises"])
    s, b0 = obj(env, "0")
    env.assume(b0 < 2)
    x, y = env.real("x", 0), env.real("y", 0)
    env.assume(s.eta_m != 0)
    before = snapshot(env, s, x, y)
    ivp, root = env.handler("solve_ivp"), env.handler("root_scalar")

    def bad_ivp(call):
        r = ivp(call)
        if what == "integration":
            r.success, r.status = False, -1
        return r

    def bad_root(f, br, kw):
        if what == "root search raises":
            raise ValueError("f(a) and f(b) must have different signs")
        return env.result(converged=what == "integration", root=1.0,
                          flag="no")
    env.stub("solve_ivp", bad_ivp)
    env.stub("root_scalar", bad_root)
    beta = env.real("beta1", *BETA, lo_open=False)
    env.assume(beta < 2)
    inf, fw = env.real("inf1", 0, 20), env.real("fw1", 0, 2)

    def go():
        if route == "reset_beta":
            s.reset_beta(beta, eta_inf=inf, fw_pp=fw)
        elif route == "reset_m":
            s.reset_m(beta/(2 - beta), eta_inf=inf, fw_pp=fw)
        else:
            s.set_solution_parameters(eta_inf=inf, fw_pp=fw)
    env.check(f"{route}: failing {what} is reported",
              env.raises(ValueError, go))
    after = snapshot(env, s, x, y)
    for k in before:
        env.eq(f"{k} unchanged by a reset that found no solution", after[k],
               before[k])


def blasius(env):
    stubs(env)
    B = env.mod("ibl.analytic").Blasius
    inf, fw = env.real("inf1", -20, 20), env.real("fw1", -2, 2)
    env.assume((inf <= 0) | (fw <= 0))
    env.check("Blasius rejects invalid parameters", env.raises(
        ValueError, lambda: B(1.0, 1.0, fw, inf)))
    s = B(env.real("u_ref", 0), env.real("nu", 0), env.real("fw", 0, 2),
          env.real("inf", 0, 20))
    x, y = env.real("x", 0), env.real("y", 0)
    env.assume(s.eta_m != 0)
    q = [k for k in SEES if k not in ("beta", "m")]
    before = [env.scal(getattr(s, k)) for k in q] + [env.scal(s.f(y))]
    env.check("Blasius reset rejects invalid parameters", env.raises(
        ValueError, lambda: s.set_solution_parameters(eta_inf=inf,
                                                      fw_pp=fw)))
    after = [env.scal(getattr(s, k)) for k in q] + [env.scal(s.f(y))]
    for k, a, b in zip(q + ["f"], after, before):
        env.eq(f"Blasius: {k} unchanged", a, b)


def jobs(tier):
    return [("conversion", dict(route=r)) for r in
            ("constructor", "reset_beta", "reset_m")] + \
        [("round_trip", {})] + \
        [("rejected", dict(route=r)) for r in
         ("constructor", "reset_beta", "reset_m",
          "set_solution_parameters")] + \
        [("unsolved", dict(route=r)) for r in
         ("reset_beta", "reset_m", "set_solution_parameters")] + \
        [("blasius", {})]
