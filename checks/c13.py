"""C13  Edge velocity, first and second derivative are mutually consistent."""
import numpy

BOUNDS = ("exact over reals; callables: every polynomial of degree <= 4 (all "
          "coefficients and locations) for the finite-difference fallbacks "
          "(degrees 5-8: to 1e-3 and 1e-1 of values up to 2560), "
          "arbitrary functions where derivatives are supplied or come from a "
          "derivative method; point data: every set of 2-4 increasing points, rising "
          "data of 15 and 80 points "
          "with arbitrary values (quick: up to 3), every location inside; "
          "one re-specification of any form; scalar and array arguments")
ASSUME = ["scipy's PchipInterpolator is modelled by its published slope "
          "formula (symx/stubs.py), cross-checked against scipy at the "
          "replayed witnesses"]


def make(env, cls, *spec):
    how = env.choice("given to", ["constructor", "set_velocity"])
    nu = 1.0
    C = env.mod("ibl.head_method").HeadMethod if cls == "Head" else \
        getattr(env.mod("ibl.thwaites_method"), "ThwaitesMethod" + cls)
    if how == "constructor":
        return C(nu, *spec)
    m = C(nu)
    m.set_velocity(*spec)
    return m


class Poly:
    """Polynomial with coefficients c[k] of x**k."""

    def __init__(self, c):
        self.c = list(c)

    def __call__(self, x):
        r = self.c[-1]
        for c in self.c[-2::-1]:
            r = r*x + c
        return r + 0*x

    def d(self, n=1):
        c = self.c
        for _ in range(n):
            c = [k*c[k] for k in range(1, len(c))] or [0.0]
        return Poly(c)

    def size(self, x):
        return sum(abs(c)*abs(x)**k for k, c in enumerate(self.c))


def plain(f):
    return lambda x: f(x)


class Obj:
    """Callable with a derivative method, like the scipy interpolants."""

    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        return self.f(x)

    def derivative(self, n=1):
        return Obj(self.f.d(n))


class NotReally(Obj):
    derivative = 3


def same(env, tag, m, x, u, du, d2u, tol1=1e-6, tol2=1e-6, scale=None):
    s = env.scal
    a, b, c = s(m.u_e(x)), s(m.du_e(x)), s(m.d2u_e(x))
    env.observe(tag + "u_e", a)
    env.observe(tag + "du_e", b)
    env.eq(tag + "u_e is the given velocity", a, s(u(x)))
    env.eq(tag + "du_e is the derivative of u_e", b, s(du(x)), tol=tol1,
           scale=scale)
    env.eq(tag + "d2u_e is the derivative of du_e", c, s(d2u(x)), tol=tol2,
           scale=scale)


def coefs(env, name, n=5):
    return [env.real(f"{name}{k}", -10, 10) for k in range(n)]


def fallback(env, cls, form):
    """Finite differences of an arbitrary polynomial of degree 4."""
    p = Poly(coefs(env, "a"))
    x = env.real("x", -10, 10)
    size = lambda: 1e3*(1 + p.size(x))
    if form == "u only":
        m = make(env, cls, plain(p))
        same(env, "", m, x, p, p.d(), p.d(2), scale=size)
    elif form == "u with unusable derivative attribute":
        m = make(env, cls, NotReally(p))
        same(env, "", m, x, p, p.d(), p.d(2), scale=size)
    else:
        q = Poly(coefs(env, "b"))
        u = Obj(p) if env.choice("u has a derivative method",
                                 [False, True]) else plain(p)
        m = make(env, cls, u, plain(q))
        size2 = lambda: 1e3*(1 + q.size(x))
        same(env, "", m, x, p, q, q.d(), scale=size2)


def monomial(env, cls):
    """The same per monomial near the origin, where a lower order of the
    stencil is visible in floating point as well."""
    k = env.choice("degree", [0, 1, 2, 3, 4])
    a = env.real("a", 0.5, 2)
    x = env.real("x", 0.002, 0.05)
    p = Poly([0.0]*k + [a])
    which = env.choice("derivatives given", ["none", "first"])
    s = env.scal
    if which == "none":
        m = make(env, cls, plain(p))
        env.eq("d(monomial)", s(m.du_e(x)), s(p.d()(x)),
               scale=lambda: 1e-3*a*x**(k-1) if k else 1e-3*a)
        env.eq("d2(monomial)", s(m.d2u_e(x)), s(p.d(2)(x)),
               scale=lambda: 1e-2*a*x**(k-2) if k > 1 else a)
    else:
        m = make(env, cls, plain(env.func("u")), plain(p))
        env.eq("d(monomial gradient)", s(m.d2u_e(x)), s(p.d()(x)),
               scale=lambda: 1e-3*a*x**(k-1) if k else 1e-3*a)


def high(env, cls):
    """Degrees above the exactness of the stencil: the step is small enough
    for the derivatives of any smooth velocity."""
    k = env.choice("degree", [5, 6, 7, 8])
    a = env.real("a", -10, 10)
    x = env.real("x", -2, 2)
    p = Poly([0.0]*k + [a])
    s = env.scal
    if env.choice("derivatives given", ["none", "first"]) == "none":
        m = make(env, cls, plain(p))
        e1 = s(m.du_e(x)) - s(p.d()(x))
        e2 = s(m.d2u_e(x)) - s(p.d(2)(x))
        env.check("smooth velocity: du_e", (e1 <= 1e-3) & (e1 >= -1e-3))
        env.check("smooth velocity: d2u_e", (e2 <= 1e-1) & (e2 >= -1e-1))
    else:
        m = make(env, cls, plain(env.func("u")), plain(p))
        e1 = s(m.d2u_e(x)) - s(p.d()(x))
        env.check("smooth gradient: d2u_e", (e1 <= 1e-3) & (e1 >= -1e-3))


def supplied(env, cls):
    """Derivatives supplied or available from a derivative method."""
    form = env.choice("form", ["u' and u'' given", "u has derivative",
                               "u' has derivative", "both have derivative",
                               "all have derivative"])
    f, g, h = env.func("f"), env.func("g"), env.func("h")
    x = env.real("x")
    if form == "u' and u'' given":
        spec, want = (plain(f), plain(g), plain(h)), (f, g, h)
    elif form == "u has derivative":
        spec, want = (Obj(f),), (f, f.d(1), f.d(2))
    elif form == "u' has derivative":
        spec, want = (plain(f), Obj(g)), (f, g, g.d(1))
    elif form == "both have derivative":
        spec, want = (Obj(f), Obj(g)), (f, g, g.d(1))
    else:
        spec, want = (Obj(f), Obj(g), Obj(h)), (f, g, h)
    m = make(env, cls, *spec)
    same(env, "", m, x, *want)
    X = env.array([x, env.real("x2")])
    for q, w in zip(("u_e", "du_e", "d2u_e"), want):
        r = getattr(m, q)(X)
        env.check("array result has the shape of the argument",
                  env.np.shape(r) == (2,))
        for i in range(2):
            env.eq("array element is the scalar value", r[i],
                   env.scal(w(X[i])))


def points(env, n, tag=""):
    xs, x = [], env.real(tag + "x_0", -10, 10)
    xs.append(x)
    for i in range(1, n):
        x = x + env.real(f"{tag}h_{i}", 0.01, 10)
        xs.append(x)
    ys = [env.real(f"{tag}y_{i}", -10, 10) for i in range(n)]
    return xs, ys


def container(env, xs, ys):
    k = env.choice("container", ["tuple of lists", "list of arrays",
                                 "tuple of tuples"])
    if k == "tuple of lists":
        return (list(xs), list(ys))
    if k == "list of arrays":
        return [env.array(xs), env.array(ys)]
    return (tuple(xs), tuple(ys))


def left_limit(env, f, x, b, deg):
    """Limit of the piecewise polynomial f at b from the piece holding x."""
    if not env.symbolic:
        return env.scal(f(b - 1e-9*(abs(b) + 1)))
    r, w, g = 0, 1, f
    for k in range(deg + 1):
        r = r + env.scal(g(x))*w
        w = w*(b - x)/(k + 1)
        g = (lambda h: lambda t: env.diff(h, t))(g)
    return r


def spline(env, n, form):
    xs, ys = points(env, n)
    if form == "values":
        m = make(env, "Head", container(env, xs, ys))
    else:
        u0 = env.real("u0", -10, 10)
        m = make(env, "Linear", u0, container(env, xs, ys))
    s = env.scal
    f = m.u_e if form == "values" else m.du_e
    big = lambda: 10.0
    for i in range(n):
        v = s(f(xs[i]))
        env.observe(f"at point {i}", v)
        env.eq("given value at every point", v, ys[i], scale=big)
    if form != "values":
        env.eq("u_e at the first point is the start value", s(m.u_e(xs[0])),
               u0, scale=big)


def spline_deriv(env, n, form):
    xs, ys = points(env, n)
    x = env.real("x", -10, 50)
    k = env.choice("interval", list(range(n-1)))
    env.assume((x > xs[k]) & (x < xs[k+1]))
    if form == "values":
        m = make(env, "Linear", (xs, ys))
    else:
        m = make(env, "Head", env.real("u0", -10, 10), (xs, ys))
    s = env.scal
    du, d2u = s(m.du_e(x)), s(m.d2u_e(x))
    env.observe("u_e", s(m.u_e(x)))
    env.observe("du_e", du)
    env.observe("d2u_e", d2u)
    big = lambda: 10.0
    env.eq("points: du_e is the derivative of u_e", du,
           env.diff(lambda t: s(m.u_e(t)), x), scale=big)
    env.eq("points: d2u_e is the derivative of du_e", d2u,
           env.diff(lambda t: s(m.du_e(t)), x), scale=big, tol=1e-5)
    if k < n-2:
        deg = 3 if form == "values" else 4
        b = xs[k+1]
        env.eq("points: u_e is continuous", left_limit(env, m.u_e, x, b, deg),
               s(m.u_e(b)), scale=big, tol=1e-5)
        env.eq("points: du_e is continuous",
               left_limit(env, m.du_e, x, b, deg-1), s(m.du_e(b)), scale=big,
               tol=1e-5)


def many(env, n, form):
    """Many points (rising values): nothing depends on how many there are."""
    xs = [0.3*i + 0.01*i*i for i in range(n)]
    ys = [env.real("y0", -10, 10)]
    free = {1, 2, 3, n//2 - 1, n//2, n//2 + 1, n//2 + 2, n-3, n-2, n-1}
    for i in range(1, n):
        ys.append(ys[-1] + (env.real(f"d{i}", 0.1, 1) if i in free
                            else 0.1 + (i*37 % 10)/12))
    u0 = env.real("u0", -10, 10)
    a = ((xs, ys),) if form == "values" else (u0, (xs, ys))
    m = make(env, "Head", *a)
    s = env.scal
    f = m.u_e if form == "values" else m.du_e
    big = lambda: 10.0
    for i in range(n):
        env.eq("given value at every point", s(f(xs[i])), ys[i], scale=big)
    if form != "values":
        env.eq("u_e at the first point is the start value", s(m.u_e(xs[0])),
               u0, scale=big)
    k = n//2
    x = env.real("x", xs[k] + 0.1, xs[k+1] - 0.1)
    env.eq("points: du_e is the derivative of u_e", s(m.du_e(x)),
           env.diff(lambda t: s(m.u_e(t)), x), scale=big)
    env.eq("points: d2u_e is the derivative of du_e", s(m.d2u_e(x)),
           env.diff(lambda t: s(m.du_e(t)), x), scale=big, tol=1e-5)


FORMS = ["u", "u,u'", "all", "object", "points", "gradient points"]


def whole(env, form, which, wrap):
    """Whole numbers in the point data are numbers like any others."""
    np = env.np
    wrap = np.array if wrap == "array" else list
    xi, yi = [0, 1, 3], [2, 5, 4]
    ys = [float(v) for v in yi] if which != "abscissas" else \
        [env.real(f"y{i}", -10, 10) for i in range(3)]
    X = wrap(xi) if which != "values" else [float(v) for v in xi]
    Y = wrap(yi) if which != "abscissas" else env.array(ys)
    xf, Z = [float(v) for v in xi], env.array(ys)
    if form == "values":
        m, r = make(env, "Head", (X, Y)), make(env, "Head", (xf, Z))
    else:
        k, t = env.choice("start value", [(2, "int"), (0, "float32"),
                                          (-1, "int64")])
        m = make(env, "Linear", k if t == "int" else
                 getattr(numpy, t)(k), (X, Y))
        r = make(env, "Linear", float(k), (xf, Z))
    x = env.real("x", 0, 3)
    env.assume((x != 1) & (x < 3))
    s = env.scal
    big = lambda: 10.0
    for q in ("u_e", "du_e", "d2u_e"):
        env.eq(f"{q} for whole-number point data", s(getattr(m, q)(x)),
               s(getattr(r, q)(x)), scale=big)
    f = m.u_e if form == "values" else m.du_e
    for i, v in enumerate(xi):
        env.eq("given value at every point (whole numbers)", s(f(v)), ys[i],
               scale=big)
    if form != "values":
        env.eq("u_e at the first point is the start value (whole numbers)",
               s(m.u_e(0)), k, scale=big)


def spec(env, form, tag):
    """-> arguments for set_velocity, expected (u, u', u'') at x"""
    p = Poly([env.real(f"{tag}{k}", -10, 10) for k in range(3)])
    g = Poly([env.real(f"{tag}g{k}", -10, 10) for k in range(3)])
    h = Poly([env.real(f"{tag}h{k}", -10, 10) for k in range(3)])
    if form == "u":
        return (plain(p),), (p, p.d(), p.d(2))
    if form == "u,u'":
        return (plain(p), plain(g)), (p, g, g.d())
    if form == "all":
        return (plain(p), plain(g), plain(h)), (p, g, h)
    if form == "object":
        return (Obj(p),), (p, p.d(), p.d(2))
    y0, y1 = env.real(tag + "y0", -10, 10), env.real(tag + "y1", -10, 10)
    line = Poly([y0, y1 - y0])
    if form == "points":
        return (([0.0, 1.0], [y0, y1]),), (line, line.d(), line.d(2))
    u0 = env.real(tag + "u0", -10, 10)
    return (u0, ([0.0, 1.0], [y0, y1])), \
        (Poly([u0, y0, (y1 - y0)/2]), line, line.d())


def again(env):
    """A new specification replaces all three relations."""
    a = env.choice("first", FORMS)
    b = env.choice("second", FORMS)
    sa, _ = spec(env, a, "a")
    sb, want = spec(env, b, "b")
    x = env.real("x", 0, 1)
    m = make(env, "Head", *sa)
    if env.choice("queried in between", [False, True]):
        m.u_e(x), m.du_e(x), m.d2u_e(x)
    m.set_velocity(*sb)
    same(env, "after re-specification: ", m, x, *want, scale=lambda: 1e5)


def jobs(tier):
    top = 3 if tier == "quick" else 4
    j = [("fallback", dict(cls=c, form=f)) for c in ("Head", "Linear")
         for f in ("u only", "u with unusable derivative attribute",
                   "u and u'")]
    j += [("monomial", dict(cls="Head")), ("high", dict(cls="Head")),
          ("supplied", dict(cls="Head")),
          ("supplied", dict(cls="Nonlinear")), ("again", {})]
    j += [(d, dict(n=n, form=f), dict(max_validate=60))
          for n in range(2, top + 1)
          for f in ("values", "gradients") for d in ("spline", "spline_deriv")]
    j += [("many", dict(n=n, form=f), dict(max_validate=1))
          for f in ("values", "gradients") for n in (15, 80)]
    return j + [("whole", dict(form=f, which=w, wrap=c))
                for f in ("values", "gradients") for c in ("list", "array")
                for w in ("abscissas", "values", "both")]
