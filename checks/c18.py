"""C18  Skin-friction correlations: published formulas, sign and trend."""
BOUNDS = ("exact over reals: every Re in (1e-3, 1e12) (White: from 1.5), every shape factor in "
          "[1, 8] (Felsch: attached and beyond separation), scalars and "
          "arrays of two elements on either side of separation, whole numbers")
SEP = 2.9986313485
NAMES = ("ludwieg_tillman", "felsch", "white")


def formula(env, name, Re, H):
    np = env.np
    if name == "ludwieg_tillman":
        return 0.246*Re**(-0.268)*10**(-0.678*H)
    if name == "white":
        return 0.3*np.exp(-1.33*H)*np.log10(Re)**(-(1.74 + 0.31*H))
    return 0.058*Re**(-0.268)*(0.93 - 1.95*np.log10(H))**1.705


def inputs(env, name, tag=""):
    Re = env.real("Re" + tag, 1.5 if name == "white" else 1e-3, 1e12)
    H = env.real("H" + tag, 1, 8, lo_open=False)
    return Re, H


def published(env, name):
    f = getattr(env.mod("ibl.skin_friction"), name)
    Re, H = inputs(env, name)
    if name == "felsch":
        if H >= SEP:
            c = env.scal(f(Re, H))
            env.le("zero at and beyond separation (upper)", c, 1e-12)
            env.le("zero at and beyond separation (lower)", 0, c)
            return
    c = env.scal(f(Re, H))
    env.observe("c_f", c)
    env.eq("published formula", c, env.scal(formula(env, name, Re, H)),
           scale=lambda: 1e-5)
    env.check("positive", c > 0)
    env.check("decreases with Re",
              env.diff(lambda r: env.scal(f(r, H)), Re) < 0)
    env.check("decreases with H",
              env.diff(lambda h: env.scal(f(Re, h)), H) < 0)


def array(env, name):
    """Array elements are the scalar values, whatever the other element is."""
    f = getattr(env.mod("ibl.skin_friction"), name)
    R1, H1 = inputs(env, name, "1")
    R2, H2 = inputs(env, name, "2")
    form = env.choice("form", ["both arrays", "array H", "array Re"])
    R = env.array([R1, R2]) if form != "array H" else R1
    H = env.array([H1, H2]) if form != "array Re" else H1
    r = f(R, H)
    env.check("shape of the result", env.np.shape(r) == (2,))
    pairs = {"both arrays": [(R1, H1), (R2, H2)],
             "array H": [(R1, H1), (R1, H2)],
             "array Re": [(R1, H1), (R2, H1)]}[form]
    for k in range(2):
        env.eq("array element is the scalar value", r[k],
               env.scal(f(*pairs[k])), scale=lambda: 1e-5)


def whole(env, name):
    """Whole-number shape factors or Reynolds numbers are numbers as any."""
    f = getattr(env.mod("ibl.skin_friction"), name)
    what = env.choice("whole", ["H", "H array", "Re", "Re array", "both"])
    hs, rs = [1, 2, 3], [100, 40000, 2000000]
    if what[0] == "H":
        h, r = hs, inputs(env, name)[0]
        got = f(r, env.np.array(h)) if what != "H" else [f(r, k) for k in h]
        want = [f(r, float(k)) for k in h]
    elif what[0] == "R":
        r, h = rs, inputs(env, name)[1]
        got = f(env.np.array(r), h) if what != "Re" else [f(k, h) for k in r]
        want = [f(float(k), h) for k in r]
    else:
        got = f(env.np.array(rs), env.np.array(hs))
        want = [f(float(k), float(j)) for k, j in zip(rs, hs)]
    for a, b in zip(got, want):
        env.eq("a whole number counts as the number it is", env.scal(a),
               env.scal(b), scale=lambda: 1e-5)


def across(env):
    """Felsch stays above its separated value and is zero from there on."""
    f = env.mod("ibl.skin_friction").felsch
    Re = env.real("Re", 1e-3, 1e12)
    a = env.real("a", 1, 2.998, lo_open=False, hi_open=True)
    b = env.real("b", SEP, 50, lo_open=False)
    ca, cb = env.scal(f(Re, a)), env.scal(f(Re, b))
    env.observe("attached", ca)
    env.check("attached above separated", ca > cb)
    env.check("never negative", cb >= 0)
    env.le("zero beyond separation", cb, 1e-12)


def jobs(tier):
    return [(d, dict(name=n)) for d in ("published", "array", "whole")
            for n in NAMES] + [("across", {})]
