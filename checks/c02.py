"""C02  Thwaites growth law is the momentum integral equation."""
from .common import FITS, VARIANTS, thwaites

BOUNDS = ("exact over reals: one station, u_e>0, u_e' of any sign, nu>0, "
          "state>0, every lambda (inside and outside the fit range), both "
          "variants, built-in fits and an arbitrary custom fit; object fresh, "
          "or used before with other settings and asked for another state at "
          "the same place just before")


def rate(env, variant, fit, past=False):
    x = env.real("x")
    t = thwaites(env, variant, fit, past=[x] if past else None)
    m = t.m
    if past:    # another state at the same place just before
        env.rate(t.call.fun, x, [env.real("other state", 0)])
    y = env.scal(t.sol(x)[0])
    u = env.scal(t.u(x))
    lam = y*env.scal(t.du(x))
    r = env.rate(t.call.fun, x, [y])[0]
    env.observe("rate", r)
    env.eq("delta_m^2/nu is the integrated quantity",
           env.scal(m.delta_m(x))**2/t.nu, y)
    if variant == "Linear":
        f = 0.45 - 6*lam
        mag = env.soft(lambda: 0.45 + abs(6*lam))
    else:
        S = env.scal(m._model.shear(lam))
        H = env.scal(m._model.shape(lam))
        f = 2*(S - lam*(H + 2))
        mag = env.soft(lambda: 2*(abs(S) + abs(lam*(H + 2))))
    env.observe("F", f)
    # some velocity within 1e-3 of u_e satisfies  velocity*rate = F
    # (velocities widened by 1e-9 relative, F by 1e-12 of its terms, for the
    # rounding of constants)
    e = 1e-12*(1 + lam*lam)
    lo, hi = r*(u*(1 - 1e-9) - 1e-3), r*(u*(1 + 1e-9) + 1e-3)
    env.check("(u_e +- 1e-3)*rate = F(lambda)",
              ((lo <= f + e) & (f - e <= hi)) | ((hi <= f + e) & (f - e <= lo))
              if env.symbolic else
              (lo - f)*(hi - f) <= 1e-9*mag*mag)


def jobs(tier):
    return [("rate", dict(variant=v, fit=f)) for v in VARIANTS
            for f in FITS[::-1] + ("Custom",)] + \
        [("rate", dict(variant=v, fit=f, past=True)) for v in VARIANTS
         for f in ("White", "Custom")]
