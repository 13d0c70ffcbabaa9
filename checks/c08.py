"""C08  Head separation triggers exactly at the critical shape factor."""
BOUNDS = ("exact over reals: all critical values > 1, all states; every "
          "sequence of up to three changes (thorough: four) of the critical "
          "value with or without a solve in between; with or "
          "without another state asked about before")


def crit(env, changes):
    h = env.mod("ibl.head_method")
    ibl = env.mod("ibl.ibl_method")
    u = env.func("u", lo=0.001)
    args = (1.0, u, u.d(1), u.d(2))
    cur = None
    if env.choice("constructor", ["default", "given"]) == "given":
        cur = env.real("c0", 1)
        m = h.HeadMethod(*args, cur)
    else:
        m = h.HeadMethod(*args)
        cur = 2.4
    m.initial_delta_m = env.real("delta_m0", 0)
    m.initial_shape_d = env.real("shape_d0", 1.1, 3)
    calls = env.ivp_family("Y", ranges=[(0, None), (1, 10)])
    for k in range(changes):
        if env.choice("solve", [False, True]):
            m.solve(0.5, 1.0)
        cur = env.real(f"c{k+1}", 1)
        m.set_shape_d_critical(cur)
    m.solve(0.5, 1.0)
    ev = calls[-1].events
    env.check("exactly one built-in event", len(ev) == 1)
    e = ev[0]
    env.check("event is terminal", bool(e.terminal))
    env.check("event sees the falling direction",
              getattr(e, "direction", 0) <= 0)
    st, _ = e.event_info()
    env.check("event reports separation", st == ibl.TermReason.SEPARATED)
    x, dm = env.real("x"), env.real("dm", 0)
    H = env.real("H", 0)
    before = env.choice("asked before", ["no", "here", "elsewhere"])
    if before != "no":
        e(x if before == "here" else env.real("xp"),
          env.array([env.real("dmp", 0), env.real("Hp", 0)]))
    c = env.scal(e(x, env.array([dm, H])))
    env.observe("criterion", c)
    if H < cur:
        env.check("positive below the critical value", c > 0)
    elif H > cur:
        env.check("negative above the critical value", c < 0)
    else:
        env.eq("zero at the critical value", c, 0, scale=lambda: 1.0)


def jobs(tier):
    return [("crit", dict(changes=n))
            for n in range(4 if tier == "quick" else 5)]
