"""C10  A solve is independent of earlier solves; caller data untouched."""
from .common import VARIANTS, accurate
from .c09 import method, make_event

BOUNDS = ("all sequences of three solves (thorough: four) with any mixture "
          "of no event, a single event, lists of 0-2 events, arbitrary "
          "spans; Head, linear and nonlinear Thwaites; arbitrary ending of "
          "each solve; reconfiguration (viscosity, velocity, data fits or "
          "critical shape factor, initial values, all of them) of a solved and queried object: rates, "
          "initial state, criterion and eleven queries at any location equal "
          "those of a new object, for arbitrary smooth velocity and fits")


def same(env, p, q):
    try:
        return p is q or bool(env.np.all(p == q))
    except Exception:
        return False


def sequence(env, kind, n):
    ibl = env.mod("ibl.ibl_method")
    TR = ibl.TermReason
    m, rng = method(env, kind)
    calls = env.ivp_family("Y", ranges=rng)
    base = env.handler("solve_ivp")
    plan = {}

    def handler(call):
        r = base(call)
        k = plan["fired"]
        if k is not None and len(call.events) > k:
            r.status = 1
            r.t = env.array([call.t0, plan["xe"]])
            r.t_events = [env.array([plan["xe"]]) if i == k
                          else env.array([])
                          for i in range(len(call.events))]
        r.y = r.sol(r.t)
        return r
    env.stub("solve_ivp", handler)
    seen = []
    builtin = None
    for i in range(n):
        a, b = env.real(f"a{i}"), env.real(f"b{i}")
        how = env.choice(f"events {i}", ["none", "single", "list1", "list2",
                                         "list0"][:4 if i else 5])
        evs = [make_event(env, k, TR.UNKNOWN, f"s{i}e{k}")
               for k in range({"none": 0, "single": 1, "list1": 1,
                               "list2": 2, "list0": 0}[how])]
        arg = None if how == "none" else (evs[0] if how == "single"
                                          else list(evs))
        keep = list(arg) if isinstance(arg, list) else None
        plan["fired"] = len(evs) if evs else None
        plan["xe"] = env.real(f"xe{i}")
        res = m.solve(a, b, arg)
        call = calls[-1]
        if keep is not None:
            env.check("caller's event list unmodified",
                      len(arg) == len(keep) and
                      all(p is q for p, q in zip(arg, keep)))
        got = call.events
        env.check("events monitored: built-in plus those passed to this call",
                  len(got) == 1 + len(evs) and
                  all(p is q for p, q in zip(got[1:], evs)))
        if builtin is None:
            builtin = got[0]
        env.check("same built-in criterion in every solve",
                  got[0] is builtin and
                  got[0].event_info()[0] == TR.SEPARATED)
        env.eq("start of this solve", call.t0, a)
        env.eq("end of this solve", call.t1, b)
        for k in range(len(rng)):
            env.eq("same initial state", call.y0[k], calls[0].y0[k])
        if evs:
            env.check("status of this solve's own event",
                      res.status == TR.UNKNOWN and
                      f"s{i}e{len(evs)-1}" in res.message)
        else:
            env.check("completed", res.status == TR.REACHED_END)
        seen.append((res, res.x_end, res.f_end[0], res.status, res.message))
    accurate(env, n)
    opts = [kw for name, kw in env.numerics() if name == "solve_ivp"]
    for kw in opts:
        env.check("same integrator settings in every solve",
                  set(kw) == set(opts[0]) and
                  all(same(env, kw[q], opts[0][q]) for q in kw))
    for r, x, f, st, ms in seen:
        env.eq("earlier results keep x_end", r.x_end, x)
        env.eq("earlier results keep f_end", r.f_end[0], f)
        env.check("earlier results keep status", r.status == st and
                  r.message == ms)


QUERIES = ("u_e", "du_e", "d2u_e", "v_e", "delta_d", "delta_m", "delta_k",
           "shape_d", "shape_k")


def ask(m, x):
    r = {q: getattr(m, q)(x) for q in QUERIES}
    r["tau_w"], r["dissipation"] = m.tau_w(x, 1.0), m.dissipation(x, 1.0)
    return r


def reconfigured(env, kind, what):
    """Solved, asked, configured differently and solved again: everything is
    as in an object that was configured that way from the start."""
    n = env.scal

    def fresh(nu, u, fit, dm, H):
        a = (nu, u, u.d(1), u.d(2))
        if kind == "Head":
            m = env.mod("ibl.head_method").HeadMethod(*a)
            m.set_shape_d_critical(fit)
        else:
            t = env.mod("ibl.thwaites_method")
            m = getattr(t, "ThwaitesMethod" + kind)(*a, fit)
        m.initial_delta_m = dm
        if kind == "Head":
            m.initial_shape_d = H
        return m

    def values(t):
        if kind == "Head":
            fit = env.real("crit" + t, 2, 3)
        else:
            S, H = env.func("S" + t), env.func("H" + t)
            fit = (S, H, H.d(1))
        return [env.real("nu" + t, 0), env.func("u" + t, lo=0.001),
                fit, env.real("dm" + t, 0),
                env.real("H" + t, 1.1, 3)]
    old, new = values("0"), values("1")
    final = [q if what in (w, "everything") else p
             for p, q, w in zip(old, new, ("nu", "velocity", "fit",
                                           "initial values",
                                           "initial values"))]
    rng = [(0, None), (1.2, 3)] if kind == "Head" else [(0, None)]
    calls = env.ivp_family("Y", ranges=rng)
    base = env.handler("solve_ivp")
    x0, x1, x = env.real("x0"), env.real("x1"), env.real("x")
    xa, xb = env.real("xa"), env.real("xb")
    m = fresh(*old)
    m.solve(xa, xb)
    ask(m, x)
    c = calls[-1]
    y = [n(v) for v in c.sol(x)]
    env.rate(c.fun, x, y)
    c.events[0](x, env.array(y))
    nu, u, fit, dm, H = final
    if what in ("nu", "everything"):
        m.nu = nu
    if what in ("velocity", "everything"):
        m.set_velocity(u, u.d(1), u.d(2))
    if what in ("fit", "everything"):
        (m.set_shape_d_critical if kind == "Head" else m.set_data_fits)(fit)
    if what in ("initial values", "everything"):
        m.initial_delta_m = dm
    if kind == "Head":
        m.initial_shape_d = H
    m.solve(x0, x1)
    mine = calls[-1]
    g = fresh(*final)

    def same_profile(call):
        r = base(call)
        r.sol = call.sol = mine.sol
        return r
    env.stub("solve_ivp", same_profile)
    g.solve(x0, x1)
    other = calls[-1]
    lab = "reconfigured object: "
    env.eq(lab + "start", mine.t0, other.t0)
    env.eq(lab + "end", mine.t1, other.t1)
    env.check(lab + "state size", len(mine.y0) == len(other.y0))
    for k in range(len(rng)):
        env.eq(lab + "initial state", mine.y0[k], other.y0[k])
    y = [n(v) for v in mine.sol(x)]
    for p, q in zip(env.rate(mine.fun, x, y), env.rate(other.fun, x, y)):
        env.eq(lab + "rate", p, q)
    env.eq(lab + "separation criterion", mine.events[0](x, env.array(y)),
           other.events[0](x, env.array(y)))
    got, want = ask(m, x), ask(g, x)
    for q in got:
        env.eq(lab + q, n(got[q]), n(want[q]))
    env.observe("v_e", n(got["v_e"]))


def jobs(tier):
    K = VARIANTS + ("Head",)
    n = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
    return [("sequence", dict(kind=k, n=i), dict(max_validate=60))
            for k in K for i in n] + \
        [("reconfigured", dict(kind=k, what=w)) for k in K
         for w in ("nu", "velocity", "fit", "initial values", "everything")]
