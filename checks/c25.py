"""C25  XFoil accessors return the right column for the right row."""
from .c23 import dump, row, ask, ACC, WACC, COLS, WAKE, FLIP

BOUNDS = ("exact over reals: every value of every column, 1-2 rows per "
          "surface (thorough: 3), 0-2 wake rows, one file of 15+18 airfoil and "
          "13 wake rows, u_ref > 0 set before or "
          "after reading, with and without a zero-velocity row; single-row "
          "objects fresh and reset, 1 to 14 columns; readers "
          "fresh or asked everything while they held another file; "
          "empty and rejected rows after an arbitrary row")

def value(r, q, u_ref, sign):
    if q == "delta_k":
        return r["shape_k"]*r["delta_m"]
    c = "u_e_rel" if q == "u_e" else q
    v = r[c]
    if sign < 0 and c in FLIP:
        v = -v
    return u_ref*v if q == "u_e" else v


def columns(env, top):
    X = env.mod("ibl.reference").XFoilReader
    d = dump(env, "a", env.choice("upper rows", list(range(1, top + 1))),
             env.choice("lower rows", list(range(1, top + 1))),
             env.choice("wake rows", [0, 1, 2]), True,
             env.choice("zero row", [False, True]))
    u_ref = 1.0
    how = env.choice("reader", ["fresh", "u_ref set", "asked, u_ref set",
                                "held another file"])
    if how == "held another file":
        x = X(dump(env, "z", 2, 1, 1, True, False).path)
        ask(x)
        x.filename = d.path
    else:
        x = X(d.path)
    if how == "asked, u_ref set":
        ask(x)
    if how in ("u_ref set", "asked, u_ref set"):
        u_ref = env.real("u_ref", 0)
        x.u_ref = u_ref
    compare(env, x, d, u_ref)


def long(env, n):
    """Many rows: nothing depends on how many there are."""
    X = env.mod("ibl.reference").XFoilReader
    d = dump(env, "a", n, n + 3, n - 2, True, False)
    x = X(d.path)
    x.u_ref = env.real("u_ref", 0)
    compare(env, x, d, x.u_ref)


def compare(env, x, d, u_ref):
    rows = {"upper": d.upper[::-1], "lower": d.lower, "wake": d.wake}
    if d.zero:
        rows["upper"] = rows["upper"][1:]
    for side, acc in (("upper", ACC), ("lower", ACC), ("wake", WACC)):
        off = 0 if side == "wake" else 1
        get = getattr(x, side)
        for q in acc:
            col = getattr(x, f"{q}_{side}")()
            n = len(rows[side]) + off
            env.check(f"{q}_{side} has one entry per point",
                      env.np.shape(col) == (n,))
            for k in range(n):
                p = get(k)
                if q == "delta_k":
                    w = p.shape_k*p.delta_m
                elif q == "u_e":
                    w = u_ref*p.u_e_rel
                else:
                    w = getattr(p, q)
                env.eq(f"{q}_{side} is the value of the row", col[k], w,
                       scale=lambda: 1e-3)
                if k >= off and q != "s":
                    env.eq(f"{q}_{side} is the file column", col[k],
                           value(rows[side][k - off], q, u_ref,
                                 -1 if side == "lower" else 1),
                           scale=lambda: 1e-3)
    env.observe("u_e", x.u_e_lower()[-1])


def again(env):
    """A reference velocity set later applies to every following query and
    queries return fresh arrays."""
    X = env.mod("ibl.reference").XFoilReader
    d = dump(env, "a", 1, 1, 1, False, False)
    x = X(d.path)
    r1, r2 = env.real("u1", 0), env.real("u2", 0)
    x.u_ref = r1
    a = x.u_e_upper()
    keep = a[1]
    x.u_ref = r2
    env.eq("earlier result keeps its value", a[1], keep)
    for side in ("upper", "lower", "wake"):
        k = 0 if side == "wake" else 1
        env.eq(f"u_e_{side} uses the velocity in force",
               getattr(x, "u_e_" + side)()[k],
               r2*getattr(x, side)(k).u_e_rel, scale=lambda: 1e-3)


def single(env, wake):
    ref = env.mod("ibl.reference")
    C = ref.XFoilWakeData if wake else ref.XFoilAirfoilData
    cols = WAKE if wake else COLS
    s = env.real("s", 0, 5, lo_open=False)
    r = row(env, "r", "any", s, cols)
    if wake:
        r[None] = env.real("ignored", -1, 1)
    text = " ".join(env.token(r[c]) for c in cols)
    if env.choice("row", ["fresh", "reset"]) == "fresh":
        o = C(text)
    else:
        o = C("")
        q = row(env, "q", "any", env.real("s1", 0, 5, lo_open=False), cols)
        o.reset(" ".join(env.token(q[c]) for c in cols))
        o.reset(text)
    for c in cols:
        if c is not None:
            env.eq(f"column {c}", getattr(o, c), r[c], scale=lambda: 1e-3)


def wrong(env, wake):
    ref = env.mod("ibl.reference")
    C = ref.XFoilWakeData if wake else ref.XFoilAirfoilData
    n = 8 if wake else 12
    k = env.choice("columns", [c for c in range(1, 15) if c != n])
    text = " ".join(env.token(env.real(f"v{i}", 0.5, 2)) for i in range(k))
    env.check("wrong number of columns is rejected",
              env.raises(ValueError, lambda: C(text)))
    o = C("")
    env.check("wrong number of columns is rejected by reset",
              env.raises(ValueError, lambda: o.reset(text)))


def emptied(env, wake):
    """An empty row unsets every value; a rejected row keeps none."""
    ref = env.mod("ibl.reference")
    C = ref.XFoilWakeData if wake else ref.XFoilAirfoilData
    cols = WAKE if wake else COLS
    o = C("")
    for c in cols:
        if c is not None:
            env.check(f"{c} of a new object is unset",
                      getattr(o, c) == float("inf"))
    q = row(env, "q", "any", env.real("s1", 0, 5, lo_open=False), cols)
    q[None] = env.real("ignored", -1, 1)
    o.reset(" ".join(env.token(q[c]) for c in cols))
    n = len(cols)
    how = env.choice("row", ["empty", "short", "long", "text", "negative"])
    r = row(env, "r", "any", env.real("s2", 0, 5, lo_open=False), cols)
    r[None] = 1.0
    for c in cols:
        if c is not None:
            env.assume((r[c] < q[c]) | (r[c] > q[c]))
    t = [env.token(r[c]) for c in cols]
    t = dict(empty=[], short=t[:-1], long=t + ["1.0"], text=t[:-1] + ["x"],
             negative=t[:-1] + ["-1.0"] if wake else
             ["-1.0"] + t[1:])[how]
    if how == "empty":
        o.reset("")
    else:
        env.check(f"a row that is {how} is rejected",
                  env.raises(ValueError, lambda: o.reset(" ".join(t))))
    for c in cols:
        if c is None:
            continue
        v = getattr(o, c)
        ok = v == float("inf")
        if how == "negative":
            ok = ok | (v == r[c])
        env.check(f"{c} is not left over after a row that is {how}", ok)


def jobs(tier):
    t = 2 if tier == "quick" else 3
    return [("columns", dict(top=t), dict(max_validate=40)), ("again", {}),
            ("long", dict(n=15 if tier == "quick" else 40),
             dict(max_validate=1)),
            ("single", dict(wake=False)), ("single", dict(wake=True)),
            ("emptied", dict(wake=False)), ("emptied", dict(wake=True)),
            ("wrong", dict(wake=False)), ("wrong", dict(wake=True))]
