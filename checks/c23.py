"""C23  XFoil dump rows are partitioned and ordered correctly."""
BOUNDS = ("every value of every column (increasing arclength, non-negative "
          "thicknesses and skin friction, positive shape factors, one change "
          "of sign of the edge velocity), 1-3 upper and 1-3 lower rows "
          "(thorough: up to 4), 0-2 wake rows, one file of 25+28 airfoil and "
          "23 wake rows, one of 240+243 and 238 (12 of them arbitrary), with and without header line, "
          "with and without newline at the end of the file, "
          "with and without a row of zero edge velocity, one load after "
          "another, files that cannot be read after another file")
ASSUME = ["airfoil rows are at least 80 characters long and wake rows "
          "shorter, as XFoil writes them; the header line has any length"]

COLS = ("s", "x", "y", "u_e_rel", "delta_d", "delta_m", "c_f", "shape_d",
        "shape_k", "mom_defect", "mass_defect", "ke_defect")
WAKE = ("s", "x", "y", "u_e_rel", "delta_d", "delta_m", None, "shape_d")
FLIP = ("u_e_rel", "mass_defect", "ke_defect")
HEADER = "#    s        x        y     Ue/Vinf    Dstar     Theta      Cf" \
    "       H       H*        P         m          K          tau  Di\n"


def number(env, col, name, digits=None):
    rng = {"x": (0, 9), "y": (-9, 9), "u_e_rel": (-9, 9), "delta_d": (0, 9),
           "delta_m": (0, 9), "c_f": (0, 9), "shape_d": (0.1, 90),
           "shape_k": (0.1, 9)}.get(col, (-90, 90))
    return env.real(name, *rng, lo_open=False, digits=digits)


def row(env, tag, kind, s, cols=COLS, digits=None):
    r = {}
    for c in cols:
        nm = f"{tag}.{c}"
        if c == "s":
            r[c] = s
        elif c == "u_e_rel" and kind in ("upper", "lower"):
            u = env.real(nm, 1e-9, 20)
            r[c] = u if kind == "upper" else -u
        elif c == "u_e_rel" and kind == "zero":
            r[c] = 0.0
        elif c is None:
            r[c] = 0.0
        else:
            r[c] = number(env, c, nm, digits)
    return r


def line(env, r, cols=COLS):
    if cols is COLS:
        return "".join("  " + env.token(r[c]) for c in cols).ljust(110) + "\n"
    return " ".join(env.token(r[c]) for c in cols) + "\n"


SHORT = "# s x y Ue/Vinf Dstar Theta Cf H H* P m K\n"


class Dump:
    pass


class Fixed:
    """Numbers that do not matter, spread over their range."""
    symbolic = True

    def real(self, name, lo, hi, lo_open=True, digits=None, **kw):
        k = sum((i + 3)*ord(c) for i, c in enumerate(name)) % 97 + 1
        return round(lo + (hi - lo)*k/99, 3 if lo >= 0.01 or lo == 0 else 5)


def dump(env, name, nu, nl, nw, header, zero, free=None, newline=True,
         file=None):
    """A dump file with arbitrary numbers; rows in file order.  With `free`
    only those rows (and their neighbours' distance) are arbitrary."""
    d = Dump()
    given, fixed = env, Fixed()

    def pick(k, n):
        if free is None or k in free or n - 1 - k in free:
            return given
        return fixed
    s = env.real(name + ".s0", 0, 1, lo_open=False)
    d.upper, d.lower, d.wake = [], [], []
    for k in range(nu):
        env = pick(k, nu)
        kind = "zero" if zero and k == nu - 1 else "upper"
        d.upper.append(row(env, f"{name}.u{k}", kind, s))
        s = s + env.real(f"{name}.ds{k}", 0.01, 1)
    for k in range(nl):
        env = pick(k, nl)
        d.lower.append(row(env, f"{name}.l{k}", "lower", s))
        s = s + env.real(f"{name}.dt{k}", 0.01, 1)
    w = 0
    for k in range(nw):
        env = pick(k, nw)
        w = w + env.real(f"{name}.w{k}.ds", 0.01, 1, digits=3)
        if not env.symbolic:
            w = round(w, 3)
        d.wake.append(row(env, f"{name}.w{k}", "wake", w, WAKE, digits=3))
    env = given
    lines = [SHORT if header == "short" else HEADER] if header else []
    lines += [line(env, r) for r in d.upper + d.lower]
    lines += [line(env, r, WAKE) for r in d.wake]
    if not newline:
        lines[-1] = lines[-1].rstrip(" \n") if nw else lines[-1].rstrip("\n")
    d.zero = zero
    d.path = env.file(file or name + ".txt", lines)
    return d


def shape(env, top):
    return (env.choice("upper rows", list(range(1, top + 1))),
            env.choice("lower rows", list(range(1, top + 1))),
            env.choice("wake rows", [0, 1, 2]),
            env.choice("header", [True, False, "short"]),
            env.choice("zero row", [False, True]))


def same_row(env, label, got, want, sign=1, skip=("s",)):
    for c in COLS:
        if c in skip:
            continue
        w = want[c]
        if sign < 0 and c in FLIP:
            w = -w
        env.eq(f"{label} {c}", getattr(got, c), w, scale=lambda: 1e-3)


def matches(env, x, d):
    """The reader shows exactly the rows of the dump."""
    up, lo = d.upper[::-1], d.lower
    if d.zero:
        stag, up = up[0], up[1:]
    nu, nl = len(up) + 1, len(lo) + 1
    env.check("number of upper points", x.upper_count() == nu)
    env.check("number of lower points", x.lower_count() == nl)
    env.check("number of wake points", x.wake_count() == len(d.wake))
    env.check("filename reads back", x.filename == d.path)
    for k, r in enumerate(up):
        same_row(env, "upper row", x.upper(k + 1), r)
    for k, r in enumerate(lo):
        same_row(env, "lower row", x.lower(k + 1), r, -1)
    for k, r in enumerate(d.wake):
        for c in WAKE:
            if c not in (None, "s"):
                env.eq(f"wake row {c}", getattr(x.wake(k), c), r[c],
                       scale=lambda: 1e-3)
    for k in range(1, nu):
        env.check("velocity not negative on the upper surface",
                  x.upper(k).u_e_rel >= 0)
    for k in range(1, nl):
        env.check("velocity positive on the lower surface",
                  x.lower(k).u_e_rel > 0)
    a, b = x.upper(0), x.lower(0)
    if d.zero:
        same_row(env, "upper stagnation row", a, stag)
        same_row(env, "lower stagnation row", b, stag)
    objs = [x.upper(k) for k in range(nu)] + [x.lower(k) for k in range(nl)]
    env.check("all rows are separate objects",
              len({id(o) for o in objs}) == nu + nl)
    y0 = b.y
    a.y = y0 + 1.0
    env.eq("stagnation rows are independent", b.y, y0, scale=lambda: 1e-3)
    a.y = y0


def fresh(env, top):
    X = env.mod("ibl.reference").XFoilReader
    d = dump(env, "a", *shape(env, top))
    if env.choice("given to", ["constructor", "filename"]) == "constructor":
        x = X(d.path)
    else:
        x = X()
        x.filename = d.path
    matches(env, x, d)
    env.observe("y of the first upper row", x.upper(1 if x.upper_count() > 1
                                                    else 0).y)


ACC = ("x", "y", "u_e", "delta_d", "delta_m", "delta_k", "shape_d",
       "shape_k", "c_f", "mass_defect", "mom_defect", "ke_defect", "s")
WACC = ("x", "y", "u_e", "delta_d", "delta_m", "shape_d", "s")


def ask(x):
    """Every query once, so that whatever is remembered is remembered."""
    for side, acc in (("upper", ACC), ("lower", ACC), ("wake", WACC)):
        for k in range(getattr(x, side + "_count")()):
            getattr(x, side)(k)
        for q in acc:
            getattr(x, f"{q}_{side}")()


def long(env, n, free=None):
    """Many rows: nothing depends on how many there are."""
    X = env.mod("ibl.reference").XFoilReader
    d = dump(env, "a", n, n + 3, n - 2, bool(free is None or env.choice(
        "header", [True, False])), False, free)
    matches(env, X(d.path), d)


def ending(env):
    """The last line of the file need not end with a newline."""
    X = env.mod("ibl.reference").XFoilReader
    n = env.choice("rows", [(1, 1, 0), (2, 1, 0), (1, 2, 1), (1, 1, 2)])
    d = dump(env, "a", *n, env.choice("header", [True, False]),
             env.choice("zero row", [False, True]), newline=False)
    matches(env, X(d.path), d)


META = (("alpha", 3.0), ("u_ref", 2.5), ("c", 1.5), ("reynolds", 1e6),
        ("n_trans", 9.0), ("x_trans_upper", 0.3), ("x_trans_lower", 0.4),
        ("name", "foil"))


def again(env):
    """A second file, or an empty name, replaces everything."""
    X = env.mod("ibl.reference").XFoilReader
    kinds = [(2, 1, 1, True, False), (1, 2, 0, True, True),
             (2, 2, 2, False, False), (1, 1, 0, False, False),
             (2, 1, 2, True, True)]
    one = env.choice("first", kinds)
    x = X(dump(env, "a", *one).path)
    for k, v in META:
        setattr(x, k, v)
    ask(x)
    two = env.choice("second", kinds + [None])
    if two is not None:
        same = env.choice("path", [None, "a.txt"])  # the file was rewritten
        d = dump(env, "b", *two, file=same)
        x.filename = d.path
        matches(env, x, d)
    else:
        x.filename = ""
        env.check("clearing empties the surfaces",
                  (x.upper_count(), x.lower_count(), x.wake_count())
                  == (0, 0, 0))
        for side, acc in (("upper", ACC), ("lower", ACC), ("wake", WACC)):
            for q in acc:
                env.check("clearing empties the columns",
                          len(getattr(x, f"{q}_{side}")()) == 0)
        env.check("cleared file name", x.filename == "")
    forgotten(env, x)


def forgotten(env, x):
    new = env.mod("ibl.reference").XFoilReader()
    for k, _ in META:
        env.check(f"{k} of the previous file is discarded",
                  getattr(x, k) == getattr(new, k))


def rejected(env):
    """A file that cannot be read leaves nothing of the previous one."""
    X = env.mod("ibl.reference").XFoilReader
    old = dump(env, "a", 2, 1, 1, True, False)
    x = X(old.path)
    for k, v in META:
        setattr(x, k, v)
    ask(x)
    spoil = env.choice("spoiled", ["no file", "first upper", "last upper",
                                   "first lower", "last lower", "wake"])
    new = dump(env, "b", 2, 2, 2, False, False)
    lines = [line(env, r) for r in new.upper + new.lower] \
        + [line(env, r, WAKE) for r in new.wake]
    k = {"first upper": 0, "last upper": 1, "first lower": 2, "last lower": 3,
         "wake": 5}.get(spoil)
    if k is None:
        path = new.path + ".missing"
    else:
        c = lines[k].split()[:-1]
        lines[k] = " ".join(c).ljust(110 if k < 4 else 0) + "\n"
        path = env.file("c.txt", lines)
    env.check("a file that cannot be read is rejected", env.raises(
        Exception, lambda: setattr(x, "filename", path)))
    env.check("rejected file: no file name", x.filename == "")
    forgotten(env, x)
    # the rows of the two files can be told apart by their y
    for r in old.upper + old.lower + old.wake:
        env.assume(r["y"] > 0.5)
    for r in new.upper + new.lower + new.wake:
        env.assume(r["y"] < 0.4)
    for side in ("upper", "lower", "wake"):
        n = getattr(x, side + "_count")()
        env.check(f"rejected file: number of {side} rows", n <= 3)
        for k in range(n):
            y = getattr(x, side)(k).y
            env.check(f"rejected file: no {side} row is left over",
                      (y <= 0.45) | (y == float("inf")))
    env.observe("n", x.upper_count())


def jobs(tier):
    return [("fresh", dict(top=3 if tier == "quick" else 4),
             dict(max_validate=40)), ("again", {}, dict(max_validate=40)),
            ("long", dict(n=25 if tier == "quick" else 60)),
            ("long", dict(n=240, free=[0, 100])),
            ("rejected", {}), ("ending", {})]
