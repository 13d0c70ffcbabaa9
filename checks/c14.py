"""C14  Invalid velocity or data-fit specifications have no effect."""
from .c13 import Obj, Poly, plain, spec, FORMS

BOUNDS = ("every combination of specification kinds listed in the driver for "
          "(u_e, u_e', u_e''): absent, callable, callable with derivative "
          "method, number, good points, 12 kinds of malformed points, "
          "strings, None, other objects; with arbitrary numbers inside; on "
          "fresh objects, on objects configured in any of 6 forms, through "
          "the constructor and set_velocity; every data-fit kind")

BAD = ["unequal lengths", "one point", "empty", "first 2-D", "second 2-D",
       "both 2-D", "three vectors", "one vector", "numbers", "decreasing",
       "duplicate abscissa", "second longer"]


def bad_points(env, k):
    y = [env.real(f"bad{i}", -10, 10) for i in range(4)]
    return {"unequal lengths": ([0.0, 1.0, 2.0], y[:2]),
            "second longer": ([0.0, 1.0], y[:3]),
            "one point": ([0.0], y[:1]),
            "empty": ([], []),
            "first 2-D": ([[0.0, 1.0], [2.0, 3.0]], y[:2]),
            "second 2-D": ([0.0, 1.0], [y[:2], y[2:]]),
            "both 2-D": ([[0.0, 1.0], [2.0, 3.0]], [y[:2], y[2:]]),
            "three vectors": ([0.0, 1.0], y[:2], y[:2]),
            "one vector": ([0.0, 1.0],),
            "numbers": (0.0, y[0]),
            "decreasing": ([1.0, 0.0], y[:2]),
            "duplicate abscissa": ([0.0, 1.0, 1.0], y[:3])}[k]


def bad_spec(env, kind):
    """-> arguments of a rejected set_velocity call"""
    f, g, h = (env.func("bf"), env.func("bg"), env.func("bh"))
    num = env.real("num", -10, 10)
    y = [env.real(f"by{i}", -10, 10) for i in range(2)]
    good = ([0.0, 1.0], y)
    other = {"number": num, "zero": 0.0, "string": "abc", "points": good,
             "object": object()}
    if kind == "second without first":
        u = env.choice("u", [plain(f), Obj(f)])
        d = env.choice("d2", ["callable"] + list(other))
        return u, None, plain(h) if d == "callable" else other[d]
    if kind == "first not callable":
        u = env.choice("u", [plain(f), Obj(f)])
        d = env.choice("d2", [None, "callable", "number"])
        d2 = {None: None, "callable": plain(h), "number": num}[d]
        return u, other[env.choice("first", list(other))], d2
    if kind == "second not callable":
        u = env.choice("u", [plain(f), Obj(f)])
        g2 = env.choice("du", [plain(g), Obj(g)])
        return u, g2, other[env.choice("second", list(other))]
    if kind == "malformed points":
        k = env.choice("points", BAD)
        p = bad_points(env, k)
        if env.choice("as list", [False, True]):
            p = list(p)
        return (p,)
    if kind == "scalar, malformed points":
        k = env.choice("points", BAD)
        u = env.choice("start", [num, 3, 0.0])
        return u, bad_points(env, k)
    if kind == "scalar without points":
        u = env.choice("start", [num, 3, 0.0])
        k = env.choice("du", ["absent", "none", "callable", "number",
                              "string", "short string", "object"])
        if k == "absent":
            return (u,)
        return u, {"none": None, "callable": plain(g), "number": num,
                   "string": "abc", "short string": "ab",
                   "object": object()}[k]
    u = env.choice("u", ["None", "abc", "ab", "object", "empty", "0-d",
                         "dict"])
    return ({"None": None, "abc": "abc", "ab": "ab", "object": object(),
             "empty": (), "0-d": env.np.array(1.0), "dict": {}}[u],)


KINDS = ["second without first", "first not callable", "second not callable",
         "malformed points", "scalar, malformed points",
         "scalar without points", "unknown"]


def create(env, cls, *a):
    if cls == "Head":
        return env.mod("ibl.head_method").HeadMethod(1.0, *a)
    return getattr(env.mod("ibl.thwaites_method"),
                   "ThwaitesMethod" + cls)(1.0, *a)


def raised(fn):
    """Kind of exception fn raises (None when it returns)."""
    try:
        fn()
    except ValueError:
        return "ValueError"
    except (TypeError, IndexError, KeyError, AttributeError) as e:
        return type(e).__name__
    return None


def look(env, m, x):
    return [env.scal(getattr(m, q)(x)) for q in ("u_e", "du_e", "d2u_e")]


def velocity(env, cls, kind):
    how = env.choice("given to", ["fresh object", "configured object"])
    args = bad_spec(env, kind)
    x = env.real("x", 0, 1)
    if how == "fresh object":
        m = create(env, cls)
    else:
        form = env.choice("configured as", FORMS)
        sa, _ = spec(env, form, "a")
        m = create(env, cls, *sa)
        before = look(env, m, x)
    r = raised(lambda: m.set_velocity(*args))
    env.check("unusable velocity raises ValueError", r == "ValueError")
    if how == "fresh object":
        for q in ("u_e", "du_e", "d2u_e"):
            env.check(f"{q} still unset after a rejection",
                      env.raises(ValueError, lambda: getattr(m, q)(x)))
        return
    after = look(env, m, x)
    env.observe("u_e", after[0])
    for q, a, b in zip(("u_e", "du_e", "d2u_e"), before, after):
        env.eq(f"{q} unchanged by a rejected call", b, a)


def constructor(env, cls, kind):
    args = bad_spec(env, kind)
    if kind == "unknown" and args[0] is None:
        g = env.func("bg")
        k = env.choice("absent u_e with", ["first", "second", "both"])
        args = {"first": (None, plain(g)), "second": (None, None, plain(g)),
                "both": (None, plain(g), plain(g))}[k]
    x = env.real("x", 0, 1)
    env.observe("x", x)
    env.check("constructor rejects with ValueError",
              raised(lambda: create(env, cls, *args)) == "ValueError")


def accepted(env, cls):
    """The valid combinations are not rejected."""
    form = env.choice("form", FORMS + ["numpy points", "int start"])
    x = env.real("x", 0, 1)
    if form == "numpy points":
        y = [env.real(f"y{i}", -10, 10) for i in range(2)]
        sa = (env.np.array([env.np.array([0.0, 1.0]), env.array(y)]),)
    elif form == "int start":
        y = [env.real(f"y{i}", -10, 10) for i in range(2)]
        sa = (2, ([0.0, 1.0], y))
    else:
        sa, _ = spec(env, form, "a")
    m = create(env, cls)
    r = raised(lambda: m.set_velocity(*sa))
    env.check("usable velocity is accepted", r is None)
    env.check("usable velocity is accepted by the constructor",
              raised(lambda: create(env, cls, *sa)) is None)
    if r is None:
        env.observe("u_e", look(env, m, x)[0])


def after_solve(env, cls):
    """A rejected velocity after a solve: solution and events as before."""
    u = env.func("u", lo=0.001)
    m = create(env, cls, u, u.d(1), u.d(2))
    rng = [(0, None), (1.2, 3)] if cls == "Head" else [(0, None)]
    calls = env.ivp_family("Y", ranges=rng)
    m.initial_delta_m = env.real("dm", 0)
    if cls == "Head":
        m.initial_shape_d = env.real("H0", 1.2, 2)
    m.solve(0.25, 1.0)
    x = env.real("x", 0.25, 1)
    d0 = env.scal(m.delta_m(x))
    c0 = calls[-1]
    bad = env.choice("bad", [("abc",), (u, 1.0), (u, u, 1.0), (u, None, u),
                             (([0.0], [1.0]),), (1.0, None)])
    env.check("rejected", raised(lambda: m.set_velocity(*bad))
              == "ValueError")
    d1 = env.scal(m.delta_m(x))
    env.observe("delta_m", d1)
    env.eq("solution unchanged by a rejected call", d1, d0)
    m.solve(0.25, 1.0)
    c1 = calls[-1]
    y = [env.real("s0", 0), env.real("s1", 1.2, 3)][:len(rng)]
    r0, r1 = env.rate(c0.fun, x, y), env.rate(c1.fun, x, y)
    for a, b in zip(r0, r1):
        env.eq("rates unchanged by a rejected call", b, a)
    env.check("events unchanged", len(c0.events) == len(c1.events) and
              all(a is b for a, b in zip(c0.events, c1.events)))


def fits(env, cls):
    S, H = env.func("S"), env.func("H")
    S2, H2 = env.func("S2"), env.func("H2")
    num = env.real("num")
    u = env.func("u", lo=0.001)
    bad = env.choice("fit", ["unknown name", "empty name", "lower case",
                             "None", "number", "1-tuple", "4-tuple",
                             "2-tuple: first", "2-tuple: second",
                             "3-tuple: first", "3-tuple: second",
                             "3-tuple: third", "3-tuple: third None",
                             "empty"])
    arg = {"unknown name": "Thwaites", "empty name": "", "lower case":
           "white", "None": None, "number": num, "1-tuple": (S2,),
           "4-tuple": (S2, H2, H2.d(1), H2.d(2)),
           "2-tuple: first": (num, H2), "2-tuple: second": (S2, num),
           "3-tuple: first": (num, H2, H2), "3-tuple: second": (S2, 1.0, H2),
           "3-tuple: third": (S2, H2, num),
           "3-tuple: third None": (S2, H2, None), "empty": ()}[bad]
    t = getattr(env.mod("ibl.thwaites_method"), "ThwaitesMethod" + cls)
    if env.choice("given to", ["set_data_fits", "constructor"]) == \
            "constructor":
        env.observe("num", num)
        env.check("constructor rejects the fit with ValueError",
                  raised(lambda: t(1.0, u, u.d(1), u.d(2), arg))
                  == "ValueError")
        return
    m = t(1.0, u, u.d(1), u.d(2), (S, H, H.d(1)))
    m.initial_delta_m = env.real("dm", 0)
    calls = env.ivp_family("Y", ranges=[(0, None)])
    solved = env.choice("solved before", [False, True])
    if solved:
        m.solve(0.25, 1.0)
    env.check("unusable fit raises ValueError",
              raised(lambda: m.set_data_fits(arg)) == "ValueError")
    if not solved or env.choice("solve again", [False, True]):
        m.solve(0.25, 1.0)
    c = calls[-1]
    x = env.real("x")
    y = env.real("y", 0)
    env.check("one event after a rejected fit", len(c.events) == 1)
    sol = env.scal(c.sol(x)[0])
    lam = sol*env.scal(u.d(1)(x))
    h = env.scal(m.shape_d(x))
    env.observe("shape_d", h)
    env.eq("shape_d of the previous fit", h, env.scal(H(lam)))
    env.eq("event of the previous fit",
           env.scal(c.events[0](x, env.array([y]))),
           env.scal(S(y*env.scal(u.d(1)(x)))))
    if cls == "Nonlinear":
        lam = y*env.scal(u.d(1)(x))
        f = env.rate(c.fun, x, [y])[0]*(env.scal(u(x)))
        g = 2*(env.scal(S(lam)) - lam*(env.scal(H(lam)) + 2))
        env.le("rate of the previous fit (upper)", (f-g)*g, 0)
        env.le("rate of the previous fit (size)",
               g*g*env.scal(u(x)), f*g*(env.scal(u(x)) + 0.0011))


def jobs(tier):
    return [("velocity", dict(cls=c, kind=k), dict(max_validate=60))
            for c in ("Head", "Linear") for k in KINDS] + \
        [("constructor", dict(cls=c, kind=k)) for c in ("Head", "Nonlinear")
         for k in KINDS] + \
        [("accepted", dict(cls=c)) for c in ("Head", "Linear")] + \
        [("after_solve", dict(cls=c)) for c in ("Head", "Linear")] + \
        [("fits", dict(cls=c), dict(max_validate=60))
         for c in ("Linear", "Nonlinear")]
