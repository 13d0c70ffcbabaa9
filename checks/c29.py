"""C29  Queries are pure and act element by element."""
from . import c19
from .common import FITS, VARIANTS

BOUNDS = ("exact over reals along an arbitrary solution: arrays of 1 and 2 "
          "stations, whole-number arrays of 3 stations in no order, arrays of 80 stations made of two "
          "values, every query first, then every other query, then the "
          "first again; results and station arrays written to by the caller "
          "between two queries; velocity callables that return fresh arrays, the "
          "same array on every call, their argument, or Python floats/ints; "
          "rates at every state (Head: shape factor down to 0.5, so that "
          "the clamp acts), all positive viscosities and densities")
ASSUME = ["the dense output of the integrator returns fresh arrays, as "
          "scipy's does",
          "array-valued velocity callables act element by element"]

QUERIES = ("u_e", "du_e", "d2u_e", "v_e", "delta_d", "delta_m", "delta_k",
           "shape_d", "shape_k", "tau_w", "dissipation")
ANALYTIC = ("u_e", "v_e", "delta_d", "delta_m", "delta_k", "delta_s",
            "shape_d", "shape_k", "tau_w", "dissipation")
PLANE = ("eta", "u", "v")
SIMILAR = ("f", "f_p", "f_pp")


class Held:
    """A velocity function that keeps the arrays it returns."""

    def __init__(self, env, fn, mode):
        self.env, self.fn, self.mode = env, fn, mode
        self.kept = []          # (argument, returned array, its values)

    def __call__(self, x):
        if self.env.np.ndim(x) == 0:
            return self.fn(x)
        for a, r, _ in self.kept:
            if a is x and self.mode == "kept":
                return r
        r = self.fn(x)
        self.kept.append((x, r, [r[i] for i in range(len(r))]))
        return r

    def check(self, lab):
        for _, r, v in self.kept:
            for i, w in enumerate(v):
                self.env.eq(lab, r[i], w, scale=lambda: 1.0)


def velocities(env, mode):
    u = env.func("u", lo=0.0005)
    if mode == "argument":
        one = env.real("slope", 0.1, 2)
        return (lambda x: x, lambda x: one*env.np.ones_like(x),
                lambda x: env.np.zeros_like(x)), []
    if mode == "float":
        c = env.real("U", 0)
        return (lambda x: c, lambda x: 0.0, lambda x: 0.0), []
    if mode == "int":
        return (lambda x: 2, lambda x: 0, lambda x: 0), []
    fs = [Held(env, f, mode) for f in (u, u.d(1), u.d(2))]
    return fs, fs


def build(env, kind, mode):
    vel, held = velocities(env, mode)
    nu = env.real("nu", 0)
    if kind == "Head":
        m = env.mod("ibl.head_method").HeadMethod(nu, *vel)
        m.initial_delta_m = env.real("dm0", 0)
        m.initial_shape_d = env.real("H0", 1.11, 3)
        calls = env.ivp_family("Y", ranges=[(0, None), (1.0, 8)])
    else:
        var, fit = kind.split("/")
        t = env.mod("ibl.thwaites_method")
        m = getattr(t, "ThwaitesMethod" + var)(nu, *vel, fit)
        m.initial_delta_m = env.real("dm0", 0)
        calls = env.ivp_family("Y", ranges=[(0, None)])
    m.solve(0.5, 1.0)
    return m, nu, held, calls[-1]


def ask(m, q, x, rho):
    return getattr(m, q)(x, rho) if q in ("tau_w", "dissipation") \
        else getattr(m, q)(x)


def values(env, a, n):
    if env.np.ndim(a) == 0:
        return [env.scal(a)]*n
    return [a[i] for i in range(n)]


def sc(env):
    return lambda: 1e-3


LONG = 80
REGIONS = ("clamped", "low", "high")     # H < 1.11 <= H <= 1.6 < H


def queries(env, kind, mode, first, n, regions=None):
    m, nu, held, call = build(env, kind, mode)
    rho = env.real("rho", 0)
    xs = [env.real(f"x{i}", 0.5, 1) for i in range(n)]
    # the same property, split over the branches of the entrainment relation
    for x, g in zip(xs, regions or ()):
        h = env.scal(call.sol(x)[1])
        low = h < 1.11
        env.assume(low if g == "clamped" else
                   (not low and (h <= 1.6) == (g == "low")))
    X = env.array(xs)
    a = ask(m, first, X, rho)
    va = values(env, a, n)
    free = mode in ("float", "int") and first in ("u_e", "du_e", "d2u_e")
    if not free:
        env.check(f"{first}: one value per station",
                  env.np.shape(a) == (n,))
    got = {}
    for q in QUERIES:
        if q != first:
            got[q] = values(env, ask(m, q, X, rho), n)
    b = values(env, ask(m, first, X, rho), n)
    for i in range(n):
        env.eq(f"{first}: repeating the query gives the same value", b[i],
               va[i], scale=sc(env))
        if mode != "argument":
            env.eq(f"{first}: earlier result keeps its values",
                   values(env, a, n)[i], va[i], scale=sc(env))
        env.eq("the station array is not changed", X[i], xs[i])
        env.eq(f"{first}: element is the scalar query", va[i],
               env.scal(ask(m, first, xs[i], rho)), scale=sc(env))
    for q, v in got.items():
        w = values(env, ask(m, q, env.array(xs), rho), n)
        for i in range(n):
            env.eq(f"{q}: asked in another order gives the same value",
                   w[i], v[i], scale=sc(env))
    for h in held:
        h.check("arrays of the velocity functions are not changed")
    env.eq("viscosity is not changed", m.nu, nu)


def rates(env, kind, mode):
    """The rates given to the integrator leave its state and the arrays of
    the caller alone."""
    m, nu, held, call = build(env, kind, mode)
    x = env.real("x", 0.5, 1)
    y = [env.real("y0", 0)]
    if kind == "Head":
        y.append(env.real("y1", 0.5, 3))
    Y = env.array(y)
    r = [env.scal(v) for v in call.fun(x, Y)]
    for i, v in enumerate(y):
        env.eq("the state is not changed", Y[i], v)
    r2 = [env.scal(v) for v in call.fun(x, Y)]
    for p, q in zip(r, r2):
        env.eq("the rates repeat", p, q, scale=sc(env))
    env.eq("the start state is not changed", m.initial_delta_m,
           call_dm(env, kind, nu, call))
    for h in held:
        h.check("arrays of the velocity functions are not changed")


def seen(env, done, v, k):
    """The very same expression has been compared for this station."""
    if not env.symbolic:
        return False
    n = getattr(env.scal(v), "n", v)
    if any(n is w for w in done.setdefault(k, [])):
        return True
    done[k].append(n)
    return False


def shaped(env, kind, first, how):
    """Whole-number stations, and long arrays."""
    m, nu, held, call = build(env, kind, "fresh")
    m.solve(0, 5)
    rho = env.real("rho", 0)
    if how == "integers":
        n = 3                   # not in order
        X = env.np.array([3, 1, 2])
        xs = [3.0, 1.0, 2.0]
        keep = [3, 1, 2]
    else:
        two = [env.real(f"x{i}", 0.5, 5) for i in range(2)]
        if (kind, first) == ("Head", "v_e"):
            two[1] = two[0]             # one region of the state at a time
        n = LONG
        xs = keep = [two[(i*i) % 2] for i in range(n)]
        X = env.array(xs)
    a = ask(m, first, X, rho)
    env.check(f"{first}: one value per station", env.np.shape(a) == (n,))
    one, done = {}, {}
    for i in range(n):
        k = i if how == "integers" else i % 2
        if k not in one:
            one[k] = env.scal(ask(m, first, xs[i], rho))
        if not seen(env, done, a[i], k):
            env.eq(f"{first}: element is the scalar query ({how})", a[i],
                   one[k], scale=sc(env))
        if not seen(env, done, X[i], ("x", k)):
            env.eq("the station array is not changed", X[i], keep[i])


def shaped_analytic(env, kind, first, how):
    s = c19.build(env, kind, "fresh").s
    env.assume((s.eta_d > 0) & (s.eta_m > 0) & (s.eta_k > 0))
    rho = env.real("rho", 0)
    if how == "integers":
        n, xs, ys = 3, [3.0, 1.0, 2.0], [2.0, 1.0, 3.0]
        X, Y = env.np.array([3, 1, 2]), env.np.array([2, 1, 3])
    else:
        n = LONG
        x2 = [env.real(f"x{i}", 0) for i in range(2)]
        y2 = [env.real(f"y{i}", 0) for i in range(2)]
        xs, ys = [x2[i % 2] for i in range(n)], [y2[i % 2] for i in range(n)]
        X, Y = env.array(xs), env.array(ys)

    def get(q, x, y):
        if q in PLANE:
            return getattr(s, q)(x, y)
        if q in SIMILAR:
            return getattr(s, q)(y)
        return ask(s, q, x, rho)
    a = get(first, X, Y)
    env.check(f"{first}: one value per station", env.np.shape(a) == (n,))
    one, done = {}, {}
    for i in range(n):
        k = i if how == "integers" else i % 2
        if k not in one:
            one[k] = env.scal(get(first, xs[i], ys[i]))
        if not seen(env, done, a[i], k):
            env.eq(f"{first}: element is the scalar query ({how})", a[i],
                   one[k], scale=sc(env))


OWN = 7.0


def owner(env, kind, first):
    """Results belong to the caller, who may write into them; stations
    written into an array between two queries count."""
    if kind in ("Blasius", "FalknerSkan"):
        s = c19.build(env, kind, "fresh").s
        env.assume((s.eta_d > 0) & (s.eta_m > 0) & (s.eta_k > 0))
        lo, hi = 0, 5
    else:
        s = build(env, kind, "fresh")[0]
        lo, hi = 0.5, 1
    rho = env.real("rho", 0)
    x0, x1 = env.real("x0", lo, hi), env.real("x1", lo, hi)
    X = env.array([x0])
    y0, y1 = (env.real("y0", 0), env.real("y1", 0)) \
        if kind in ("Blasius", "FalknerSkan") else (1.0, 1.0)
    Y = env.array([y0])

    def get(x, y):
        if first in PLANE:
            return getattr(s, first)(x, y)
        if first in SIMILAR:
            return getattr(s, first)(y)
        return ask(s, first, x, rho)
    one, two = env.scal(get(x0, y0)), env.scal(get(x1, y1))
    a = get(X, Y)
    env.eq(f"{first}: element is the scalar query", a[0], one, scale=sc(env))
    a[0] = OWN
    env.eq(f"{first}: the result of a query belongs to the caller",
           get(X, Y)[0], one, scale=sc(env))
    env.eq(f"{first}: scalar query after the result was written to",
           env.scal(get(x0, y0)), one, scale=sc(env))
    get(X, Y)
    X[0], Y[0] = x1, y1
    env.eq(f"{first}: stations written into the array count",
           get(X, Y)[0], two, scale=sc(env))


def call_dm(env, kind, nu, call):
    return call.y0[0] if kind == "Head" else env.np.sqrt(call.y0[0]*nu)


def analytic(env, kind, first):
    o = c19.build(env, kind, "fresh")
    s = o.s
    env.assume((s.eta_d > 0) & (s.eta_m > 0) & (s.eta_k > 0))
    rho = env.real("rho", 0)
    xs = [env.real(f"x{i}", 0) for i in range(2)]
    ys = [env.real(f"y{i}", 0) for i in range(2)]
    X, Y = env.array(xs), env.array(ys)
    consts = ("u_ref", "nu_ref", "fw_pp", "eta_inf", "eta_d", "eta_m",
              "eta_k", "eta_s")
    keep = {c: getattr(s, c) for c in consts}

    def get(q, i=None):
        x, y = (X, Y) if i is None else (xs[i], ys[i])
        if q in PLANE:
            return getattr(s, q)(x, y)
        if q in SIMILAR:
            return getattr(s, q)(y)
        return ask(s, q, x, rho)
    a = get(first)
    env.check(f"{first}: one value per station", env.np.shape(a) == (2,))
    va = values(env, a, 2)
    for q in ANALYTIC + PLANE + SIMILAR:
        if q != first:
            get(q)
    b = values(env, get(first), 2)
    for i in range(2):
        env.eq(f"{first}: repeating the query gives the same value", b[i],
               va[i], scale=sc(env))
        env.eq(f"{first}: earlier result keeps its values",
               values(env, a, 2)[i], va[i], scale=sc(env))
        env.eq(f"{first}: element is the scalar query", va[i],
               env.scal(get(first, i)), scale=sc(env))
        env.eq("the x array is not changed", X[i], xs[i])
        env.eq("the y array is not changed", Y[i], ys[i])
    for c, v in keep.items():
        env.eq(f"{c} is not changed", getattr(s, c), v, scale=sc(env))


def friction(env, name):
    f = getattr(env.mod("ibl.skin_friction"), name)
    r = [env.real(f"re{i}", 20, 1e7) for i in range(2)]
    h = [env.real(f"H{i}", 1.01, 5) for i in range(2)]
    R, H = env.array(r), env.array(h)
    a = f(R, H)
    env.check("one value per element", env.np.shape(a) == (2,))
    v = values(env, a, 2)
    b = f(R, H)
    for i in range(2):
        env.eq("Reynolds numbers are not changed", R[i], r[i])
        env.eq("shape factors are not changed", H[i], h[i])
        env.eq("repeats", b[i], v[i], scale=lambda: 1e-6)
        env.eq("element is the scalar value", v[i], env.scal(f(r[i], h[i])),
               scale=lambda: 1e-6)
        env.eq("scalar Reynolds number with an array of shape factors",
               f(r[0], H)[i], env.scal(f(r[0], h[i])), scale=lambda: 1e-6)
        env.eq("array of Reynolds numbers with a scalar shape factor",
               f(R, h[0])[i], env.scal(f(r[i], h[0])), scale=lambda: 1e-6)


def jobs(tier):
    kinds = ["Head"] + [f"{v}/{f}" for v in VARIANTS for f in FITS]
    big = tier != "quick"
    r = []
    for k in kinds:
        for mode in ("fresh", "kept", "argument", "float", "int"):
            r.append(("rates", dict(kind=k, mode=mode)))
            for q in QUERIES:
                lead = mode == "kept" or big or q in ("v_e", "tau_w")
                if k.endswith("Spline") and not big:
                    # many paths: one for every interval of the tables
                    lead = (mode, q) in (("kept", "v_e"), ("kept", "shape_d"),
                                         ("float", "v_e"))
                if lead:
                    two = (mode == "kept" and q in ("v_e", "tau_w")
                           and not k.endswith("Spline"))
                    n = 2 if two or big else 1
                    d = dict(kind=k, mode=mode, first=q, n=n)
                    if n == 2 and k == "Head" and q == "v_e":
                        r += [("queries", dict(d, regions=(a, b)),
                               dict(max_validate=4))
                              for a in REGIONS for b in REGIONS]
                    else:
                        r.append(("queries", d, dict(max_validate=4)))
    some = ("Head", "Linear/White", "Nonlinear/Cebeci-Bradshaw",
            "Nonlinear/Drela")
    for k in some if not big else kinds:
        r += [("shaped", dict(kind=k, first=q, how=h), dict(max_validate=1))
              for q in QUERIES for h in ("integers", "long")
              if big or h == "integers" or q in ("v_e", "tau_w", "shape_d",
                                                 "d2u_e")]
    for k in ("Blasius", "FalknerSkan"):
        r += [("shaped_analytic", dict(kind=k, first=q, how=h),
               dict(max_validate=1))
              for q in ANALYTIC + PLANE + SIMILAR
              for h in ("integers", "long")]
        r += [("analytic", dict(kind=k, first=q))
              for q in ANALYTIC + PLANE + SIMILAR]
    r += [("owner", dict(kind=k, first=q), dict(max_validate=2))
          for k in ("Blasius", "FalknerSkan")
          for q in ANALYTIC + PLANE + SIMILAR]
    r += [("owner", dict(kind=k, first=q), dict(max_validate=2))
          for k in (some[:2] if not big else some)
          for q in QUERIES]
    return r + [("friction", dict(name=n)) for n in ("ludwieg_tillman",
                                                     "felsch", "white")]
