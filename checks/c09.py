"""C09  solve() reports faithfully how the integration ended."""
from .common import VARIANTS

BOUNDS = ("all integrator outcomes: success/failure, status -1/0/1, the "
          "built-in or any of 0, 1, 2 or 6 user events fired (a terminal event "
          "stops the integration, so one fires), arbitrary locations and "
          "states, any event status and message; after a success, a failure "
          "or no earlier solve; solves that raise in the integrator, the "
          "rates, the velocity or the initial condition; user events with "
          "terminal switched off; Head, linear and nonlinear Thwaites")
ASSUME = ["the integrator returns fields consistent with scipy's solve_ivp "
          "contract (t, y, sol, t_events, status, success, message)"]


def method(env, kind):
    u = env.func("u", lo=0.001)
    a = (env.real("nu", 0), u, u.d(1), u.d(2))
    if kind == "Head":
        m = env.mod("ibl.head_method").HeadMethod(*a)
        m.initial_delta_m = env.real("delta_m0", 0)
        m.initial_shape_d = env.real("shape_d0", 1.1, 3)
        rng = [(0, None), (1.2, 3)]
    else:
        t = env.mod("ibl.thwaites_method")
        S, H = env.func("S"), env.func("H")
        m = getattr(t, "ThwaitesMethod" + kind)(*a, (S, H, H.d(1)))
        m.initial_delta_m = env.real("delta_m0", 0)
        rng = [(0, None)]
    return m, rng


def make_event(env, k, reason, msg):
    ibl = env.mod("ibl.ibl_method")

    class Ev(ibl.TermEvent):
        def event_info(self):
            return reason, msg

        def _call_impl(self, x, f):
            return 1.0
    return Ev()


QUERIES = ("v_e", "delta_d", "delta_m", "shape_d", "tau_w")


def query(m, q, x):
    return m.tau_w(x, 1.0) if q == "tau_w" else getattr(m, q)(x)


def outcome(env, kind):
    ibl = env.mod("ibl.ibl_method")
    TR = ibl.TermReason
    m, rng = method(env, kind)
    x0, x1 = env.real("x0"), env.real("x1")
    env.assume(x0 < x1)
    prior = env.choice("earlier solve", ["none", "success"])
    if prior == "success":
        env.ivp_family("P", ranges=rng)
        m.solve(x0, x1)
    nuser = env.choice("user events", [0, 1, 2, 6])
    reason = env.choice("reason", [TR.TRANSITIONED, TR.UNKNOWN,
                                   TR.SEPARATED]) if nuser else None
    evs = []
    for k in range(nuser):
        evs.append(make_event(env, k, reason if k == nuser - 1 else
                              TR.UNKNOWN, f"user event {k}"))
    arg = None
    if nuser == 1:
        arg = evs[0] if env.choice("how", ["single", "list"]) == "single" \
            else [evs[0]]
    elif nuser >= 2:
        arg = list(evs)
    end = env.choice("integrator", ["end", "event", "failure"])
    fired = env.choice("fired", list(range(nuser + 1))) \
        if end == "event" else None
    xe = env.real("xe")
    env.assume((x0 < xe) & (xe < x1))
    calls = env.ivp_family("Y", ranges=rng)
    base = env.handler("solve_ivp")

    def handler(call):
        r = base(call)
        stop = {"end": call.t1, "event": xe, "failure": xe}[end]
        r.t = env.array([call.t0, stop])
        r.status = {"end": 0, "event": 1, "failure": -1}[end]
        r.success = end != "failure"
        r.message = {"end": "The solver successfully reached the end of the "
                     "integration interval.",
                     "event": "A termination event occurred.",
                     "failure": "Required step size is less than spacing "
                     "between numbers."}[end]
        r.y = r.sol(r.t)
        r.t_events = [env.array([xe]) if i == fired else env.array([])
                      for i in range(len(call.events))]
        return r
    env.stub("solve_ivp", handler)
    res = m.solve(x0, x1, arg)
    call = calls[-1]
    env.check("number of events", len(call.events) == 1 + nuser)
    for k, e in enumerate(evs):
        env.check("user events follow the built-in one",
                  call.events[1 + k] is e)
    # solve_ivp evaluates all criteria of a call in one go, so each has to be
    # a plain number or the built-in one cannot be combined with user events
    env.check("built-in criterion is a single number", env.np.ndim(
        call.events[0](call.t0, env.array([call.y0[i]
                                           for i in range(len(rng))]))) == 0)
    env.eq("integration starts at x0", call.t0, x0)
    env.eq("integration ends at x_end", call.t1, x1)
    env.check("success flag", bool(res.success) == (end != "failure"))
    f_end = res.f_end
    if end == "failure":
        env.check("failure: unknown status", res.status == TR.UNKNOWN)
        env.eq("failure: x_end is the start", res.x_end, x0)
        for i in range(len(rng)):
            env.eq("failure: f_end is the initial state", f_end[i],
                   call.y0[i])
        env.check("failure: integrator message reported",
                  "Required step size" in res.message)
    else:
        at = x1 if end == "end" else xe
        env.eq("x_end is where it stopped", res.x_end, at)
        st = call.sol(at)
        for i in range(len(rng)):
            env.eq("f_end is the state there", f_end[i], st[i])
        if end == "end":
            env.check("reached end", res.status == TR.REACHED_END)
            env.check("message of a completed solve",
                      res.message == "Completed")
        elif fired == 0:
            env.check("built-in event: separated",
                      res.status == TR.SEPARATED)
            env.check("message of a separated solve",
                      res.message.startswith("Separated"))
        else:
            want = reason if fired == nuser else TR.UNKNOWN
            env.check("user event: its status", res.status == want)
            env.check("user event: its message",
                      res.message == f"{want}: user event {fired-1}")
    env.observe("x_end", res.x_end)
    x = env.real("x")
    for q in QUERIES:
        if end == "failure":
            env.check(f"{q} raises ValueError after a failed solve",
                      env.raises(ValueError, lambda: query(m, q, x)))
        elif q != "v_e":
            env.check(f"{q} available after a solve",
                      not env.raises(ValueError, lambda: query(m, q, x)))
    if end != "failure":
        s = call.sol(x)
        dm = env.scal(m.delta_m(x))
        if kind == "Head":
            env.eq("queries use this solve", dm, s[0])
            env.eq("queries use this solve (H)", env.scal(m.shape_d(x)), s[1])
        else:
            env.eq("queries use this solve", dm*dm, m.nu*s[0])


class Stop(Exception):
    """Raised by a function of the caller during a solve."""


def interrupted(env, kind, where):
    """A solve that raises is not a successful one: nothing of an earlier
    solve is reported afterwards."""
    m, rng = method(env, kind)
    x0, x1 = env.real("x0"), env.real("x1")
    env.assume(x0 < x1)
    env.ivp_family("P", ranges=rng)
    m.solve(x0, x1)
    x = env.real("x")
    env.check("available after a solve",
              not env.raises(ValueError, lambda: m.delta_m(x)))

    def stop(*_a):
        raise Stop("caller")
    if where == "integrator":
        env.stub("solve_ivp", stop)
    elif where == "initial condition":
        ic = env.mod("ibl.initial_condition")

        class Bad(ic.FalknerSkanStagCondition):
            delta_m = stop
            shape_d = stop
        m.set_initial_condition(Bad(1.0, 1.0))
    else:
        v = env.func("v", lo=0.001)
        m.set_velocity(v, stop, v.d(2))
        if where == "rates":
            calls = []

            def handler(call):
                calls.append(call)
                call.fun(call.t0, call.y0)
                raise AssertionError("the rates do not use the velocity")
            u = env.func("u")
            m.set_velocity(lambda x: stop() if calls else v(x),
                           lambda x: stop() if calls else u(x),
                           lambda x: stop() if calls else u(x))
            env.stub("solve_ivp", handler)
    env.check("the solve raises", env.raises(Stop, lambda: m.solve(x0, x1)))
    for q in QUERIES:
        env.check(f"{q} raises after a solve that raised", env.raises(
            (ValueError, Stop), lambda: query(m, q, x)))
    for q in ("delta_m", "shape_d"):
        # one of these needs no velocity
        if kind == "Head" or q == "delta_m":
            env.check(f"{q} raises ValueError after a solve that raised",
                      env.raises(ValueError, lambda: query(m, q, x)))


def observer(env, kind):
    """A user event that only observes (terminal is False) does not stop the
    integration and is not the reason it stopped."""
    ibl = env.mod("ibl.ibl_method")
    TR = ibl.TermReason
    m, rng = method(env, kind)
    x0, x1 = env.real("x0"), env.real("x1")
    xo, xe = env.real("xo"), env.real("xe")
    env.assume((x0 < xo) & (xo < xe) & (xe < x1))
    kinds = env.choice("events", ["watch,stop", "stop,watch", "watch"])
    evs = []
    for w in kinds.split(","):
        e = make_event(env, 0, TR.TRANSITIONED, w)
        if w == "watch":
            e.terminal = False
        evs.append(e)
    names = ["built-in"] + kinds.split(",")
    fired = env.choice("stopped by", ["end"] + [n for n in names
                                               if n != "watch"])
    seen = env.choice("watched", [0, 1, 2])
    calls = env.ivp_family("Y", ranges=rng)
    base = env.handler("solve_ivp")

    def handler(call):
        r = base(call)
        stop = call.t1 if fired == "end" else xe
        r.t = env.array([call.t0, stop])
        r.status, r.success, r.message = int(fired != "end"), True, "stopped"
        r.y = r.sol(r.t)
        r.t_events = [env.array([xe] if n == fired else
                                [xo, (xo+xe)/2][:seen] if n == "watch" else
                                []) for n in names]
        return r
    env.stub("solve_ivp", handler)
    res = m.solve(x0, x1, evs)
    at = x1 if fired == "end" else xe
    env.eq("x_end is where it stopped", res.x_end, at)
    st = calls[-1].sol(at)
    for i in range(len(rng)):
        env.eq("f_end is the state there", res.f_end[i], st[i])
    env.check("status of what stopped it", res.status == {
        "end": TR.REACHED_END, "built-in": TR.SEPARATED,
        "stop": TR.TRANSITIONED}[fired])
    env.check("message of what stopped it", res.message.endswith(
        {"end": "Completed", "built-in": "Separated",
         "stop": "stop"}[fired]))
    env.check("watching events still watch",
              [e.terminal for e in evs] == [w != "watch" for w in names[1:]])


def before(env, kind):
    m, rng = method(env, kind)
    x = env.real("x")
    for q in QUERIES:
        env.check(f"{q} raises ValueError before any solve",
                  env.raises(ValueError, lambda: query(m, q, x)))


def unset(env, kind):
    """Edge velocity not set: queries and solve raise ValueError."""
    if kind == "Head":
        m = env.mod("ibl.head_method").HeadMethod(env.real("nu", 0))
    else:
        m = getattr(env.mod("ibl.thwaites_method"),
                    "ThwaitesMethod" + kind)(env.real("nu", 0))
    x = env.real("x")
    for q in ("u_e", "du_e", "d2u_e"):
        env.check(f"{q} raises ValueError when no velocity is set",
                  env.raises(ValueError, lambda: getattr(m, q)(x)))


def jobs(tier):
    K = VARIANTS + ("Head",)
    return [("outcome", dict(kind=k), dict(max_validate=60)) for k in K] + \
        [("interrupted", dict(kind=k, where=w)) for k in K
         for w in ("integrator", "initial condition", "velocity", "rates")] + \
        [("observer", dict(kind=k), dict(max_validate=20)) for k in K] + \
        [("before", dict(kind=k)) for k in K] + \
        [("unset", dict(kind=k)) for k in K]
