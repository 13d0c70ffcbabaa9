"""C17  Head shape-entrainment relations: inverse, monotone, continuous."""
from .c15 import branch, setup

BOUNDS = ("exact over reals: every shape factor in [1.11, 8] (points within "
          "1e-6 of the branch value 1.6, other than 1.6 itself, are covered "
          "by the continuity obligations instead), pairs of shape factors on "
          "the same and on different branches, every entrainment shape "
          "factor that one of them has (> 3.3225); scalars and arrays mixing "
          "the branches; whole-number shape factors 2 to 8")


def helpers(env):
    C = env.mod("ibl.head_method").HeadMethod
    return C._shape_entrainment, C._shape_d, C._entrainment_velocity


def shape(env, name="H"):
    H = env.real(name, 1.11, 8, lo_open=False)
    env.assume((H < 1.6 - 1e-6) | (H > 1.6 + 1e-6) | (H == 1.6))
    return H


def inverse(env, as_array):
    H1, inv, _ = helpers(env)
    H = shape(env)
    if as_array:
        K = shape(env, "K")
        h = H1(env.array([H, K]))
        e = h[0]
        b = inv(env.array([h[0], h[1]]))
        env.eq("array: converting back returns H", b[0], H)
        env.eq("array: converting back returns K", b[1], K)
        env.eq("array element is the scalar value", h[1], env.scal(H1(K)))
    else:
        e = env.scal(H1(H))
        env.eq("converting back returns H", env.scal(inv(e)), H)
    env.observe("H1", e)
    env.eq("published relation", e, branch(env, H)[0])


def monotone(env):
    H1, _, _ = helpers(env)
    H = shape(env)
    env.assume(H != 1.6)
    d = env.diff(lambda t: env.scal(H1(t)), H)
    env.check("strictly decreases", d < 0)


def across(env):
    """Different branches; c is the branch value as a symbolic point."""
    H1, _, _ = helpers(env)
    c = env.real("c", 1.6, 1.6, lo_open=False)
    hc = env.scal(H1(c))
    env.eq("value at the branch point", hc, 5.309261520316297)
    a = env.real("a", 1.11, 1.6, lo_open=False, hi_open=True)
    b = env.real("b", 1.6, 8)
    env.check("below the branch point is larger", env.scal(H1(a)) > hc)
    env.lt("above the branch point is smaller", env.scal(H1(b)), hc,
           slack=1e-12)
    e = env.real("e", 1.6, 1.6 + 1e-6)
    env.le("branches meet at 1.6 (lower side of the jump)",
           hc - 1e-5, env.scal(H1(e)))


def pairs(env):
    H1, _, _ = helpers(env)
    low = env.choice("branch", [True, False])
    r = (1.11, 1.6) if low else (1.6 + 1e-9, 8)
    a = env.real("a", *r, lo_open=False)
    b = env.real("b", *r, lo_open=False)
    env.assume(a < b - 1e-6)
    va, vb = env.scal(H1(a)), env.scal(H1(b))
    env.observe("H1(a)", va)
    env.check("two points of one branch are ordered", va > vb)


def slope(env):
    """The slope the rates are built with is the derivative of the relation:
    u*delta_m*H1'*dH/dx is what the entrainment equation leaves for it."""
    H1, _, E = helpers(env)
    m, nu, u, call = setup(env, "constructor")
    x = env.real("x", 0)
    dm = env.real("dm", 0)
    H = shape(env)
    env.assume((H != 1.6) & (H > 1.11))
    r = env.rate(call.fun, x, [dm, H])
    s = env.scal
    U, dU = s(u(x)), s(u.d(1)(x))
    h = s(H1(H))
    d = env.diff(lambda t: s(H1(t)), H)
    env.eq("slope in the rates is the derivative of the relation",
           U*dm*d*r[1], U*s(E(h)) - dU*dm*h - U*r[0]*h, tol=1e-4,
           scale=lambda: abs(dU*dm*h) + U*abs(r[0])*h + U*abs(s(E(h))))


def velocity(env):
    _, _, E = helpers(env)
    a = env.real("a", 3.32254659218600974, 1e3)
    b = env.real("b", 3.32254659218600974, 1e3)
    va, vb = env.scal(E(a)), env.scal(E(b))
    env.observe("E", va)
    env.eq("Head's entrainment relation", va, 0.0306*(a - 3)**(-0.6169),
           scale=lambda: 1e-4)
    env.check("entrainment velocity is positive", va > 0)
    env.check("entrainment velocity strictly decreases",
              env.diff(lambda t: env.scal(E(t)), a) < 0)
    r = E(env.array([a, b]))
    env.eq("array element is the scalar value", r[0], va)
    env.eq("array element is the scalar value (2)", r[1], vb)


def whole(env):
    """Whole-number shape factors give the relation, not its integer part."""
    H1, inv, E = helpers(env)
    hs = list(range(2, 9))
    es = [4, 5, 6, 30]

    def near(label, a, b):
        a, b = env.scal(a), env.scal(b)
        env.check(label, (a - b < 1e-9) & (b - a < 1e-9))
    for form in ("numbers", "array"):
        if form == "numbers":
            v = [H1(k) for k in hs]
            w, c = [inv(k) for k in es], [E(k) for k in es]
        else:
            v, a = H1(env.np.array(hs)), env.np.array(es)
            w, c = inv(a), E(a)
        for i, k in enumerate(hs):
            near(f"published relation at whole numbers ({form})", v[i],
                 branch(env, float(k))[0])
        for i, k in enumerate(es):
            near(f"inverse at whole numbers ({form})", w[i], inv(float(k)))
            near(f"entrainment velocity at whole numbers ({form})", c[i],
                 0.0306*(k - 3.0)**(-0.6169))


def jobs(tier):
    return [("inverse", dict(as_array=False)), ("inverse", dict(as_array=True)),
            ("monotone", {}), ("across", {}), ("pairs", {}), ("slope", {}),
            ("velocity", {}), ("whole", {})]
