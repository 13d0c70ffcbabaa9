"""C24  XFoil stagnation point and arclengths are interpolated."""
from .c23 import dump, row, line, ask, HEADER

BOUNDS = ("exact over reals: every value of every column (increasing "
          "arclength, x >= 0), 1-3 rows per surface, 0-2 wake rows (also 25 of each), with and "
          "without a zero-velocity row, fresh and reloaded readers; "
          "stagnation between two rows on either side of the leading edge or "
          "on the same side")
KNOWN = "same side of the leading edge: stagnation x between the two rows"
INTERP = ("y", "delta_d", "delta_m", "shape_d", "shape_k")


def stagnation(env, top, long=0):
    X = env.mod("ibl.reference").XFoilReader
    nu = long or env.choice("upper rows", list(range(1, top + 1)))
    nl = long or env.choice("lower rows", list(range(1, top + 1)))
    nw = long or env.choice("wake rows", [0, 1, 2])
    zero = env.choice("zero row", [False, True])
    d = dump(env, "a", nu, nl, nw, True, zero)
    if env.choice("reader", ["fresh", "reused"]) == "fresh":
        x = X(d.path)
    else:
        x = X(dump(env, "z", 2, 2, 2, False, False).path)
        ask(x)
        x.filename = d.path
    su, sl = x.s_upper(), x.s_lower()
    up, lo = d.upper[-1], d.lower[0]
    if zero:
        s0 = up["s"]
        rows = d.upper[:-1][::-1]
    else:
        rows = d.upper[::-1]
        f = up["u_e_rel"]/(up["u_e_rel"] - lo["u_e_rel"])
        s0 = up["s"] + f*(lo["s"] - up["s"])
        for side, p in (("upper", x.upper(0)), ("lower", x.lower(0))):
            env.eq(f"{side} stagnation velocity is zero", p.u_e_rel, 0,
                   scale=lambda: 1.0)
            for c in INTERP:
                env.eq(f"{side} stagnation {c} is interpolated",
                       getattr(p, c), up[c] + f*(lo[c] - up[c]),
                       scale=lambda: 1e-2)
            env.check(f"{side} stagnation x is not negative", p.x >= 0)
            env.check(f"{side} stagnation x is not beyond both rows",
                      (p.x <= up["x"] + 1e-9) | (p.x <= lo["x"] + 1e-9))
            env.observe(side + " stagnation y", p.y)
    for side, s, R, g in (("upper", su, rows, -1), ("lower", sl, d.lower, 1)):
        env.check(f"{side} arclength column length", len(s) == len(R) + 1)
        env.eq(f"{side} arclength starts at zero", s[0], 0,
               scale=lambda: 1.0)
        for k, r in enumerate(R):
            env.eq(f"{side} arclength is the distance from stagnation",
                   s[k + 1], g*(r["s"] - s0), scale=lambda: 1.0)
    sw = x.s_wake()
    env.check("wake arclength column length", len(sw) == nw)
    for k in range(nw):
        env.eq("wake arclength starts at zero", sw[k],
               d.wake[k]["s"] - d.wake[0]["s"], scale=lambda: 1.0)


def same_side(env):
    """Both rows beyond the leading edge, on the lower or the upper side."""
    X = env.mod("ibl.reference").XFoilReader
    low = env.choice("side", ["lower", "upper"]) == "lower"
    s = [env.real("s0", 0, 1, lo_open=False)]
    for k in range(2):
        s.append(s[-1] + env.real(f"ds{k}", 0.01, 1))
    kinds = ("upper", "upper", "lower") if low else ("upper", "lower",
                                                     "lower")
    R = [row(env, f"r{k}", kd, s[k]) for k, kd in enumerate(kinds)]
    # leading edge at the row outside the pair: x falls towards it
    le, i, j = (0, 1, 2) if low else (2, 0, 1)
    near, far = (i, j) if low else (j, i)
    env.assume((R[le]["x"] < R[near]["x"]) & (R[near]["x"] < R[far]["x"]))
    sg = -1 if low else 1
    env.assume((sg*R[i]["y"] > 0) & (sg*R[j]["y"] > 0))
    p = env.file("q.txt", [HEADER] + [line(env, r) for r in R])
    x = X(p).upper(0).x
    a, b = R[i], R[j]
    f = a["u_e_rel"]/(a["u_e_rel"] - b["u_e_rel"])
    env.observe("x", x)
    env.check(KNOWN, (x >= R[near]["x"] - 1e-9) & (x <= R[far]["x"] + 1e-9))
    # anything else than the interpolation or the recorded deviation is new
    good = a["x"] + f*(b["x"] - a["x"])
    bad = abs((1 - f)*a["x"] - f*b["x"])
    env.check("stagnation x interpolated, or the recorded deviation",
              near_(env, x, good) | near_(env, x, bad))


def near_(env, a, b):
    if env.symbolic:
        return a == b
    return abs(a - b) <= 1e-9


def jobs(tier):
    return [("stagnation", dict(top=2 if tier == "quick" else 3),
             dict(max_validate=40)), ("same_side", {}),
            ("stagnation", dict(top=1, long=25), dict(max_validate=2))]
