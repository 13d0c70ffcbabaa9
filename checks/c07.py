"""C07  A Thwaites solve separates exactly where separation is reached."""
from .common import FITS, VARIANTS, RANGE, thwaites

BOUNDS = ("exact over reals: every state delta_m^2/nu>0, every u_e' of "
          "either sign, every lambda (inside, below and above the range), "
          "both variants, built-in fits and an arbitrary custom fit, fit set "
          "by constructor or changed later; with or without another state "
          "asked about before, at the same place or elsewhere")


def crit(env, variant, fit, before=None):
    t = thwaites(env, variant, fit)
    m = t.m
    ev = t.call.events
    env.check("exactly one built-in event", len(ev) == 1)
    e = ev[0]
    env.check("event is terminal", bool(e.terminal))
    env.check("event watches both crossing directions or the falling one",
              getattr(e, "direction", 0) <= 0)
    x = env.real("x")
    y = env.real("y", 0)
    if before:      # any other state the integrator asked about before
        xp = x if before == "here" else env.real("xp")
        e(xp, env.array([env.real("yp", 0)]))
    lam = y*env.scal(t.du(x))
    c = env.scal(e(x, env.array([y])))
    env.observe("criterion", c)
    st, msg = e.event_info()
    ibl = env.mod("ibl.ibl_method")
    env.check("event reports separation", st == ibl.TermReason.SEPARATED)
    if fit == "Custom":
        S = env.scal(t.S(lam))
        lo = None
    else:
        S = env.scal(m._model.shear(lam))
        lo = RANGE[fit][0]
    if lo is not None and lam < lo:
        env.check("negative below the fit range", c < 0)
    elif S < 0:
        env.check("negative once the shear is negative", c < 0)
    elif lo is None or lam > lo:
        if S > 0:
            env.check("positive while attached", c > 0)
        else:
            env.eq("zero where the shear vanishes", c, 0,
                   scale=lambda: 1e-3)
    else:
        env.check("not positive at the end of the range without shear",
                  (c <= 0) | (S > 0))


def switch(env, variant):
    """After set_data_fits the criterion belongs to the fit in force."""
    ibl = env.mod("ibl.ibl_method")
    tm = env.mod("ibl.thwaites_method")
    u = env.func("u", lo=0)
    m = getattr(tm, "ThwaitesMethod" + variant)(1.0, u, u.d(1), u.d(2),
                                                "White")
    m.initial_delta_m = 0.1
    calls = env.ivp_family("Y", ranges=[(0, None)])
    if env.choice("solve before", [False, True]):
        m.solve(0.5, 1.0)
    S1, S2 = env.func("S1"), env.func("S2")
    H = env.func("H")
    m.set_data_fits((S1, H, H.d(1)))
    if env.choice("solve between", [False, True]):
        m.solve(0.5, 1.0)
    m.set_data_fits((S2, H, H.d(1)))
    m.solve(0.5, 1.0)
    ev = calls[-1].events
    env.check("one event after switching fits", len(ev) == 1)
    x, y = env.real("x"), env.real("y", 0)
    lam = y*env.scal(u.d(1)(x))
    c = env.scal(ev[0](x, env.array([y])))
    s2 = env.scal(S2(lam))
    if s2 > 0:
        env.check("switched: positive while attached", c > 0)
    elif s2 < 0:
        env.check("switched: negative when separated", c < 0)
    else:
        env.eq("switched: zero at separation", c, 0, scale=lambda: 1e-3)


def jobs(tier):
    return [("crit", dict(variant=v, fit=f)) for v in VARIANTS
            for f in FITS[::-1] + ("Custom",)] + \
        [("crit", dict(variant=v, fit=f, before=b)) for v in VARIANTS
         for f in ("White", "Custom") for b in ("here", "elsewhere")] + \
        [("crit", dict(variant="Linear", fit="Cebeci-Bradshaw",
                       before="elsewhere"))] + \
        [("switch", dict(variant=v)) for v in VARIANTS]
