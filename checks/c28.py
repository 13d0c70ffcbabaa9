"""C28  Public numeric setters accept exactly the documented values."""
from . import c19, c26

BOUNDS = ("exact over reals: every value of the assigned number, a first "
          "accepted assignment followed by an arbitrary one, by zero and by "
          "nan, every validated "
          "numeric property of every public class; every other property of "
          "the object must keep its value; profile arrays of 2 entries")
ASSUME = ["constructors do not validate their arguments; the property is "
          "about assignments"]
POS, NONNEG, ANY = "positive", "non-negative", "any"

AIRFOIL = dict(s=NONNEG, x=ANY, y=ANY, u_e_rel=ANY, delta_d=NONNEG,
               delta_m=NONNEG, c_f=NONNEG, shape_d=POS, shape_k=POS,
               mass_defect=ANY, mom_defect=ANY, ke_defect=ANY)
WAKE = {k: AIRFOIL[k] for k in ("s", "x", "y", "u_e_rel", "delta_d",
                                "delta_m", "shape_d")}
READER = dict(alpha=ANY, u_ref=POS, c=POS, reynolds=NONNEG, n_trans=POS,
              x_trans_upper=ANY, x_trans_lower=ANY)
STATION = dict(x=ANY, u_e=POS, du_e=ANY, delta_d=POS, delta_m=POS,
               delta_k=POS, delta_c=POS, shape_d=POS, shape_k=POS,
               shape_eq=POS, c_f=ANY, c_f_lt=ANY, c_f_exp=ANY, beta_eq=ANY,
               u_star=POS, nu=POS, re_delta_d=POS, re_delta_m=POS)
ARRAYS = ("y", "y_plus", "y_c", "u", "u_plus", "u_defect")


def airfoil(env):
    return env.mod("ibl.reference").XFoilAirfoilData("")


def wake(env):
    return env.mod("ibl.reference").XFoilWakeData("")


def reader(env):
    return env.mod("ibl.reference").XFoilReader()


def stanford(env):
    S = env.mod("ibl.reference").StanfordOlympics1968StationData
    return S(**c26.make(env, S, "a", True, "profile", 2)[3])


def velocity(env):
    u = env.func("u")
    return u, u.d(1), u.d(2)


def head(env):
    m = env.mod("ibl.head_method").HeadMethod(env.real("nu0", 0),
                                              *velocity(env))
    m.initial_delta_m = env.real("dm0", 0)
    m.initial_shape_d = env.real("H0", 0)
    return m


def thwaites(env, kind):
    t = env.mod("ibl.thwaites_method")
    m = getattr(t, "ThwaitesMethod" + kind)(env.real("nu0", 0),
                                            *velocity(env))
    m.initial_delta_m = env.real("dm0", 0)
    return m


def linear(env):
    return thwaites(env, "Linear")


def nonlinear(env):
    return thwaites(env, "Nonlinear")


def manual(env):
    return env.mod("ibl.initial_condition").ManualCondition(
        env.real("d", 0), env.real("m", 0), env.real("k", 0))


def stagnation(env):
    return env.mod("ibl.initial_condition").FalknerSkanStagCondition(
        env.real("du", 0), env.real("nu0", 0))


def blasius(env):
    return c19.build(env, "Blasius", "fresh").s


def falkner_skan(env):
    return c19.build(env, "FalknerSkan", "fresh").s


# object -> validated properties, other properties that must not move
SOL = ("fw_pp", "eta_inf", "eta_d", "eta_m", "eta_k", "eta_s")
TABLE = {
    "airfoil": (airfoil, AIRFOIL, ()),
    "wake": (wake, WAKE, ()),
    "reader": (reader, READER, ("name", "filename")),
    "stanford": (stanford, STATION, ()),
    "head": (head, dict(nu=POS, initial_delta_m=POS, initial_shape_d=POS),
             ()),
    "linear": (linear, dict(nu=POS, initial_delta_m=POS), ()),
    "nonlinear": (nonlinear, dict(nu=POS, initial_delta_m=POS), ()),
    "manual": (manual, dict(du_e=ANY, nu=POS), ("del_d", "del_m", "del_k")),
    "stagnation": (stagnation, dict(du_e=ANY, nu=POS), ()),
    "blasius": (blasius, dict(u_ref=POS, nu_ref=POS), SOL),
    "falkner_skan": (falkner_skan, dict(u_ref=POS, nu_ref=POS),
                     SOL + ("beta", "m")),
}
# assigning a momentum thickness rescales the shape factor (see C11)
LINKED = {("head", "initial_delta_m"): ("initial_shape_d",)}


def same(env, lab, a, b):
    if isinstance(a, str) or a in (float("inf"), -float("inf")):
        env.check(lab, a == b)
    else:
        env.eq(lab, a, b, scale=lambda: 1e-3)


def setter(env, what, attr):
    make, props, rest = TABLE[what]
    o = make(env)
    kind = props[attr]
    lo = dict(positive=0, any=-1e9).get(kind, 0)
    v = env.real("v", lo, 1e9, lo_open=kind == POS)
    w = env.real("w", -1e9, 1e9, lo_open=False)
    watch = [p for p in list(props) + list(rest)
             if p != attr and p not in LINKED.get((what, attr), ())]
    before = {p: getattr(o, p) for p in watch}
    nm = f"{what}.{attr}"
    ok = not env.raises(ValueError, lambda: setattr(o, attr, v))
    env.check(f"{nm} accepts every {kind} value", ok)
    if not ok:
        return
    same(env, f"{nm} reads back", getattr(o, attr), v)
    bad = env.raises(ValueError, lambda: setattr(o, attr, w))
    if kind == POS:
        env.check(f"{nm} accepts exactly the positive values",
                  (w <= 0) if bad else (w > 0))
    elif kind == NONNEG:
        env.check(f"{nm} accepts exactly the non-negative values",
                  (w < 0) if bad else (w >= 0))
    else:
        env.check(f"{nm} accepts every value", not bad)
    if bad:
        same(env, f"{nm} keeps its value when an assignment is rejected",
             getattr(o, attr), v)
    else:
        same(env, f"{nm} reads back the second value", getattr(o, attr), w)
    for p in watch:
        same(env, f"{nm} leaves {p} alone", getattr(o, p), before[p])
    if kind != ANY:
        # zero itself, as a float and as an int
        z = env.choice("zero", [0, 0.0])
        now = getattr(o, attr)
        r = env.raises(ValueError, lambda: setattr(o, attr, z))
        env.check(f"{nm} at zero", r == (kind == POS))
        same(env, f"{nm} after zero", getattr(o, attr), now if r else 0.0)
        # not a number: neither positive nor zero
        now = getattr(o, attr)
        env.check(f"{nm} at nan", env.raises(
            ValueError, lambda: setattr(o, attr, float("nan"))))
        same(env, f"{nm} after nan", getattr(o, attr), now)


def arrays(env, attr):
    o = stanford(env)
    watch = {p: getattr(o, p) for p in ARRAYS if p != attr}
    v = env.array([env.real(f"v{k}", 0, 1e6, lo_open=False)
                   for k in range(2)])
    w = env.array([env.real(f"w{k}", -1e6, 1e6) for k in range(2)])
    nm = f"stanford.{attr}"
    ok = not env.raises(ValueError, lambda: setattr(o, attr, v))
    env.check(f"{nm} accepts non-negative arrays", ok)
    if not ok:
        return
    bad = env.raises(ValueError, lambda: setattr(o, attr, w))
    env.check(f"{nm} accepts exactly non-negative arrays",
              ((w[0] < 0) | (w[1] < 0)) if bad
              else ((w[0] >= 0) & (w[1] >= 0)))
    a = getattr(o, attr)
    for k in range(2):
        same(env, f"{nm} holds the last accepted array", a[k],
             v[k] if bad else w[k])
    for p, b in watch.items():
        c = getattr(o, p)
        env.check(f"{nm} leaves the size of {p} alone",
                  env.np.shape(c) == (2,))
        for k in range(2):
            same(env, f"{nm} leaves {p} alone", c[k], b[k])


def parameters(env, kind):
    """Maximum similarity coordinate and initial value of f''."""
    s = c19.build(env, kind, "fresh").s
    keep = {p: getattr(s, p) for p in SOL}
    e = env.real("e", -30, 30, lo_open=False)
    f = env.real("f", -3, 3, lo_open=False)
    how = env.choice("given", ["both", "call"])
    if how == "both":
        def act():
            s.set_solution_parameters(eta_inf=e, fw_pp=f)
    elif kind == "Blasius":
        return
    else:
        def act():
            s.reset_beta(s.beta, e, f)
    bad = env.raises(ValueError, act)
    lab = kind + " similarity parameters"
    env.check(f"{lab}: accepts exactly positive values",
              ((e <= 0) | (f <= 0)) if bad else ((e > 0) & (f > 0)))
    if bad:
        for p in SOL:
            same(env, f"{lab}: {p} kept when rejected", getattr(s, p),
                 keep[p])
    else:
        env.eq(f"{lab}: eta_inf reads back", s.eta_inf, e)
        env.eq(f"{lab}: fw_pp reads back", s.fw_pp, f)


def one_parameter(env, kind):
    """The other parameter is left to the solver (not run here)."""
    s = c19.build(env, kind, "fresh").s
    keep = {p: getattr(s, p) for p in SOL}
    v = env.real("v", -30, 0, lo_open=False)
    if env.choice("value", ["number", "nan"]) == "nan":
        v = float("nan")
    which = env.choice("given", ["eta_inf", "fw_pp"])
    env.check(f"{kind} {which} alone: non-positive values are rejected",
              env.raises(ValueError,
                         lambda: s.set_solution_parameters(**{which: v})))
    for p in SOL:
        same(env, f"{kind} {which} alone: {p} kept when rejected",
             getattr(s, p), keep[p])


def jobs(tier):
    r = [("setter", dict(what=w, attr=a)) for w, t in TABLE.items()
         for a in t[1]]
    r += [("arrays", dict(attr=a)) for a in ARRAYS]
    for k in ("Blasius", "FalknerSkan"):
        r += [("parameters", dict(kind=k)), ("one_parameter", dict(kind=k))]
    return r
