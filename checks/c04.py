"""C04  The shape-slope of every data fit is the derivative of its shape."""
from .common import FITS, fit_object, in_range

BOUNDS = ("exact over reals: every lambda strictly inside the fit range "
          "(every spline interval); custom 2-tuple: every polynomial shape "
          "function of degree <= 4 with arbitrary real coefficients and any "
          "lambda, monomials of degree 5-8 to 1e-6 of their size; custom 3-tuple: arbitrary functions; both variants")


def builtin(env, fit):
    f = fit_object(env, fit)
    lam = env.real("lam")
    in_range(env, fit, lam)
    p = env.scal(f.shape_p(lam))
    env.observe("shape_p", p)
    d = env.diff(lambda t: env.scal(f.shape(t)), lam)
    env.eq("shape_p = d shape/d lambda", p, d,
           scale=lambda: max(abs(p), 1e-3))


def method(env, variant, fit):
    """Same through the method object that users configure."""
    tmod = env.mod("ibl.thwaites_method")
    m = getattr(tmod, "ThwaitesMethod" + variant)(nu=1.0, data_fits=fit)
    lam = env.real("lam")
    in_range(env, fit, lam)
    p = env.scal(m._model.shape_p(lam))
    d = env.diff(lambda t: env.scal(m._model.shape(t)), lam)
    env.eq("method: shape_p = d shape/d lambda", p, d,
           scale=lambda: max(abs(p), 1e-3))


def custom2(env, variant):
    tmod = env.mod("ibl.thwaites_method")
    a = [env.real(f"a{k}", -5, 5) for k in range(5)]
    lam = env.real("lam", -2, 2)
    S = env.func("S")

    def H(t):
        return a[0] + t*(a[1] + t*(a[2] + t*(a[3] + t*a[4])))
    m = getattr(tmod, "ThwaitesMethod" + variant)(nu=1.0, data_fits=(S, H))
    how = env.choice("set by", ["constructor", "set_data_fits"])
    if how == "set_data_fits":
        m.set_data_fits("White")
        m.set_data_fits((S, H))
    env.eq("custom shape", env.scal(m._model.shape(lam)), H(lam))
    env.eq("custom shear", env.scal(m._model.shear(lam)), env.scal(S(lam)))
    p = env.scal(m._model.shape_p(lam))
    env.observe("shape_p", p)
    d = a[1] + lam*(2*a[2] + lam*(3*a[3] + lam*4*a[4]))
    env.eq("custom 2-tuple: slope exact for degree <= 4", p, d,
           scale=lambda: 1 + sum(abs(c) for c in a))


def smooth2(env, variant):
    """Degrees above the exactness of the stencil: the step is small enough
    for the slope of any smooth shape function."""
    tmod = env.mod("ibl.thwaites_method")
    k = env.choice("degree", [5, 6, 7, 8])
    a = env.real("a", -100, 100)
    lam = env.real("lam", -0.5, 1)
    m = getattr(tmod, "ThwaitesMethod" + variant)(
        nu=1.0, data_fits=(env.func("S"), lambda t: a*t**k))
    p = env.scal(m._model.shape_p(lam))
    env.observe("shape_p", p)
    e = p - k*a*lam**(k-1)
    env.check("custom 2-tuple: slope of a smooth shape function",
              (e <= 1e-4) & (e >= -1e-4))


def custom3(env, variant):
    tmod = env.mod("ibl.thwaites_method")
    S, H, P = env.func("S"), env.func("H"), env.func("P")
    lam = env.real("lam")
    m = getattr(tmod, "ThwaitesMethod" + variant)(nu=1.0,
                                                  data_fits=(S, H, P))
    env.eq("custom 3-tuple: shear", env.scal(m._model.shear(lam)),
           env.scal(S(lam)))
    env.eq("custom 3-tuple: shape", env.scal(m._model.shape(lam)),
           env.scal(H(lam)))
    env.eq("custom 3-tuple: slope", env.scal(m._model.shape_p(lam)),
           env.scal(P(lam)))


def jobs(tier):
    return [("builtin", dict(fit=f)) for f in FITS[::-1]] + \
        [("method", dict(variant=v, fit=f)) for f in FITS[::-1]
         for v in ("Linear", "Nonlinear")] + \
        [(d, dict(variant=v)) for v in ("Linear", "Nonlinear")
         for d in ("custom2", "smooth2")] + \
        [("custom3", dict(variant=v)) for v in ("Linear", "Nonlinear")]
