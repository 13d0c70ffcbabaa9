"""C11  Configured initial conditions are what the integration starts from."""
import itertools

from .common import VARIANTS

BOUNDS = ("every order of the setters viscosity / velocity / initial "
          "condition / initial values (3 or 4 operations, all permutations), "
          "followed by one solve or by two with further reassignments in "
          "between; all nu>0, delta_m>0, H>1, u_e'(x0)>0 (stagnation "
          "condition), any u_e' (manual condition); exact over reals")
KNOWN = "H: shape factor assigned before momentum thickness"


def build(env, kind):
    u = env.func("u0", lo=0.001)
    a = (env.real("nu_ctor", 0), u, u.d(1), u.d(2))
    if kind == "Head":
        return env.mod("ibl.head_method").HeadMethod(*a)
    t = env.mod("ibl.thwaites_method")
    S, H = env.func("S"), env.func("H")
    return getattr(t, "ThwaitesMethod" + kind)(*a, (S, H, H.d(1)))


def start(env, m, kind, x0, x1, calls, dm, H, nu, label=""):
    env.eq(label + "delta_m reads back", m.initial_delta_m, dm)
    if kind == "Head" and H is not None:
        env.eq(label + "H reads back", m.initial_shape_d, H)
    res = m.solve(x0, x1)
    c = calls[-1]
    env.eq(label + "start location", c.t0, x0)
    env.observe(label + "y0", c.y0[0])
    if kind == "Head":
        env.check(label + "two state values", len(c.y0) == 2)
        env.eq(label + "starts from delta_m", c.y0[0], dm)
        if H is not None:
            env.eq(label + "starts from H", c.y0[1], H)
    else:
        env.check(label + "one state value", len(c.y0) == 1)
        env.eq(label + "starts from delta_m^2/nu", c.y0[0], dm*dm/nu)
    return res, c


def ranges(kind):
    return [(0, None), (1.2, 3)] if kind == "Head" else [(0, None)]


def manual(env, kind, cond):
    """Initial values assigned, in every order, before and between solves."""
    ic = env.mod("ibl.initial_condition")
    m = build(env, kind)
    calls = env.ivp_family("Y", ranges=ranges(kind))
    x0, x1 = env.real("x0"), env.real("x1")
    env.assume(x0 < x1)
    nu = env.real("nu", 0)
    u = env.func("u1", lo=0.001)
    dm = env.real("delta_m0", 0)
    H = env.real("H0", 1) if kind == "Head" else None
    dd, dm1 = env.real("delta_d1", 0), env.real("delta_m1", 0)
    ops = ["nu", "velocity", "delta_m"]
    if cond:
        ops.append("condition")
    perm = env.choice("order", list(itertools.permutations(ops)))
    cur_dm, cur_H = None, None
    for op in perm:
        if op == "nu":
            m.nu = nu
        elif op == "velocity":
            m.set_velocity(u, u.d(1), u.d(2))
        elif op == "condition":
            m.set_initial_condition(ic.ManualCondition(dd, dm1, 0.0))
            cur_dm, cur_H = dm1, dd/dm1
        else:
            m.initial_delta_m = dm
            cur_dm = dm
            if kind == "Head":
                m.initial_shape_d = H
                cur_H = H
    env.eq("nu reads back", m.nu, nu)
    start(env, m, kind, x0, x1, calls, cur_dm, cur_H, nu)
    if env.choice("second solve", [False, True]):
        nu2, dm2 = env.real("nu2", 0), env.real("delta_m2", 0)
        x2 = env.real("x2")
        env.assume(x2 < x1)
        what = env.choice("change", ["nu", "delta_m", "both"])
        if what != "delta_m":
            m.nu = nu2
            nu = nu2
        if what != "nu":
            m.initial_delta_m = dm2
            cur_dm = dm2
            if kind == "Head":
                cur_H = env.real("H2", 1)
                m.initial_shape_d = cur_H
        start(env, m, kind, x2, x1, calls, cur_dm, cur_H, nu, "again: ")


def head_history(env):
    """Shape factor assigned first, then the momentum thickness."""
    m = build(env, "Head")
    calls = env.ivp_family("Y", ranges=ranges("Head"))
    x0, x1 = env.real("x0"), env.real("x1")
    env.assume(x0 < x1)
    d1, d2 = env.real("delta_m1", 0), env.real("delta_m2", 0)
    H = env.real("H0", 1)
    env.assume(d1 != d2)
    first = env.choice("delta_m assigned before as well", [True, False])
    if first:
        m.initial_delta_m = d1
    m.initial_shape_d = H
    m.initial_delta_m = d2
    m.solve(x0, x1)
    y = calls[-1].y0
    env.eq("starts from the last delta_m", y[0], d2)
    env.eq("initial_delta_m reads back", m.initial_delta_m, d2)
    env.eq(KNOWN, y[1], H)
    # the defect recorded for this history is exactly: delta_d is retained
    h = m.initial_shape_d
    env.eq("start and initial_shape_d agree", y[1], h)
    rec = H*d1/d2 if first else env.np.inf
    env.check("H kept, or the recorded deviation delta_d kept",
              _near(env, y[1], H) | _near(env, y[1], rec))


def _near(env, a, b):
    if env.symbolic or b == env.np.inf:
        return a == b
    return abs(a-b) <= 1e-9*(abs(a) + abs(b))


def stagnation(env, kind):
    ic = env.mod("ibl.initial_condition")
    m = build(env, kind)
    calls = env.ivp_family("Y", ranges=ranges(kind))
    x1 = env.real("x1")
    nu = env.real("nu", 0)
    u = env.func("u1", lo=0.001)
    perm = env.choice("order", list(itertools.permutations(
        ["nu", "velocity", "condition"])))
    for op in perm:
        if op == "nu":
            m.nu = nu
        elif op == "velocity":
            m.set_velocity(u, u.d(1), u.d(2))
        else:
            m.set_initial_condition(ic.FalknerSkanStagCondition(
                env.real("du_c", 0), env.real("nu_c", 0)))

    def go(label, x0, u, nu):
        env.assume(x0 < x1)
        du = env.scal(u.d(1)(x0))
        env.assume(du > 0)
        m.solve(x0, x1)
        c = calls[-1]
        y = c.y0
        ref = ic.FalknerSkanStagCondition(du, nu)
        dm = ref.delta_m()
        env.observe(label + "y0", y[0])
        if kind == "Head":
            env.eq(label + "starts from the stagnation delta_m", y[0], dm)
            env.eq(label + "starts from the stagnation H", y[1],
                   ref.shape_d())
            lam = y[0]*y[0]*du/nu
            env.check(label + "H of the stagnation solution",
                      abs(y[1] - 2.2162) <= 1e-4)
        else:
            env.eq(label + "starts from the stagnation state", y[0],
                   dm*dm/nu)
            lam = y[0]*du
        env.le(label + "lambda at stagnation >= 0.0855-0.1%", 0.0855*0.999,
               lam)
        env.le(label + "lambda at stagnation <= 0.0855+0.1%", lam,
               0.0855*1.001)
        env.eq(label + "initial_delta_m reads the condition",
               m.initial_delta_m, dm)
    go("", env.real("x0"), u, nu)
    if env.choice("second solve", [False, True]):
        what = env.choice("change", ["nothing", "nu", "velocity"])
        if what == "nu":
            nu = env.real("nu2", 0)
            m.nu = nu
        elif what == "velocity":
            u = env.func("u2", lo=0.001)
            m.set_velocity(u, u.d(1), u.d(2))
        go("again: ", env.real("x0b"), u, nu)


def jobs(tier):
    K = VARIANTS + ("Head",)
    return [("manual", dict(kind=k, cond=c), dict(max_validate=30))
            for k in K for c in (False, True)] + \
        [("stagnation", dict(kind=k)) for k in K] + [("head_history", {})]
