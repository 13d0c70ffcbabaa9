"""C27  Inconsistent Stanford 1968 station data are rejected."""
from . import c26
from .c26 import (summary, stat_summary, profile, text, expected, case_file,
                  path, make, SUMM, STAT, PROF, FIELDS)

BOUNDS = ("exact over reals: every value of every field within physical "
          "ranges, one field at a time off by any amount up to ten times its "
          "tolerance in either direction (a band of 1e-6 of the tolerance "
          "around it is left open), both unit systems, 1-3 and 9 profile rows "
          "(any of them off), 0-15 "
          "columns per row, each way of spoiling a case file; rejected loads "
          "into an object that holds another station or case")
TOL = dict(x=2e-3, u_e=6e-2, delta_m=2e-3, shape_d=2e-3, shape_k=2e-3,
           shape_eq=2e-3, delta_d=5e-3, delta_k=5e-3, re_delta_d=5.0,
           re_delta_m=5.0, u_star=5e-3)
PTOL = dict(y_plus=1.0, y_c=0.5, u_plus=0.5, u_defect=0.5)
PHRASE = dict(x="position", u_e="edge velocity", delta_m="momentum thickness",
              shape_d="displacement shape factor",
              shape_k="kinetic energy shape factor",
              shape_eq="equilibrium shape factor",
              delta_d="displacement thickness",
              delta_k="kinetic energy thickness",
              re_delta_d="displacement thickness Reynolds number",
              re_delta_m="momentum thickness Reynolds number",
              u_star="wall shear velocity", y_plus="y+",
              y_c="Clauser distance", u_plus="u+", u_defect="velocity defect")


def offset(env, tol):
    """A difference of any size; None is returned for the open band."""
    e = env.real("e", -10*tol, 10*tol)
    far = env.choice("difference", ["within", "beyond"])
    if far == "within":
        env.assume((e < (1 - 1e-6)*tol) & (e > -(1 - 1e-6)*tol))
    else:
        env.assume((e > (1 + 1e-6)*tol) | (e < -(1 + 1e-6)*tol))
    return e, far == "beyond"


def summaries(env, field):
    S = env.mod("ibl.reference").StanfordOlympics1968StationData
    si = env.choice("units", ["si", "english"]) == "si"
    s = summary(env, "a")
    e, bad = offset(env, TOL[field])
    r = stat_summary(env, "a", s, {field: e})
    kw = dict(si_unit=si, summ_data=text(env, si, SUMM, s),
              stat_summ=text(env, si, STAT, r), stat_data=[])
    if env.choice("object", ["fresh", "reset"]) == "fresh":
        def act():
            S(**kw)
    else:
        sd = S(si_unit=si, summ_data=kw["summ_data"], stat_summ="",
               stat_data=[])

        def act():
            sd.reset(**kw)
    nm = PHRASE[field]
    if bad:
        env.check(f"summaries that differ in {nm} are rejected",
                  env.raises(ValueError, act))
    else:
        env.check(f"summaries that agree in {nm} are accepted",
                  not env.raises(ValueError, act))


def profiles(env, field):
    S = env.mod("ibl.reference").StanfordOlympics1968StationData
    si = env.choice("units", ["si", "english"]) == "si"
    n = env.choice("rows", [1, 2, 3, 9])
    s = summary(env, "a")
    r = stat_summary(env, "a", s)
    e, bad = offset(env, PTOL[field])
    rows = profile(env, "a", r, n, {field: e})
    k = env.choice("where", list(range(n)) if n < 9 else [4])
    rows.insert(k, rows.pop())
    kw = dict(si_unit=si, summ_data=text(env, si, SUMM, s),
              stat_summ=text(env, si, STAT, r),
              stat_data=[text(env, si, PROF, q) for q in rows])
    nm = PHRASE[field]
    if bad:
        env.check(f"a profile sample off in {nm} is rejected",
                  env.raises(ValueError, lambda: S(**kw)))
    else:
        env.check(f"a profile sample that agrees in {nm} is accepted",
                  not env.raises(ValueError, lambda: S(**kw)))


def columns(env):
    R = env.mod("ibl.reference")
    S, V = R.StanfordOlympics1968StationData, R.StanfordOlympics1968SmoothVel
    si = env.choice("units", ["si", "english"]) == "si"
    what = env.choice("row", ["summary", "station summary", "profile",
                              "smoothed velocity"])
    n = env.choice("columns", list(range(0, 16)))
    right = {"summary": 11, "station summary": 13, "profile": 6,
             "smoothed velocity": 3}[what]
    if what == "station summary" and n == 0:
        return
    s, r, rows, kw = make(env, S, "a", si, "profile", 2)

    def resize(t):
        c = t.split()
        return "  ".join((c + ["1.0"]*16)[:n])

    if what == "smoothed velocity":
        d = [text(env, si, ("x", "u_e", "du_e"), s)]*2
        k = env.choice("where", [0, 1])
        d[k] = resize(d[k])

        def act():
            V(si_unit=si, data=d)
    else:
        if what == "summary":
            kw["summ_data"] = resize(kw["summ_data"])
        elif what == "station summary":
            kw["stat_summ"] = resize(kw["stat_summ"])
        else:
            k = env.choice("where", [0, 1])
            kw["stat_data"][k] = resize(kw["stat_data"][k])

        def act():
            S(**kw)
    if n == right:
        env.check(f"a {what} row with the right number of columns is "
                  "accepted", not env.raises(ValueError, act))
    else:
        env.check(f"a {what} row with a wrong number of columns is rejected",
                  env.raises(ValueError, act))


def same(env, v, w):
    if isinstance(w, float) and w == float("inf"):
        return v == w
    if env.symbolic:
        return v == w
    return abs(v - w) <= 1e-9*(1 + abs(w))


def not_mixed(env, lab, get, new):
    """Every value is unset or one of the new data."""
    for f in FIELDS:
        v = get(f)
        if v is None:
            continue
        ok = v == float("inf")
        for w in new:
            ok = ok | same(env, v, w[f])
        env.check(f"{lab}: {f} is not left over", ok)


def rejected_station(env):
    """A rejected reset leaves nothing of the previous station."""
    S = env.mod("ibl.reference").StanfordOlympics1968StationData
    si = env.choice("units", ["si", "english"]) == "si"
    sd = S(**make(env, S, "z", True, "profile", 2)[3])
    s, r, rows, kw = make(env, S, "a", si, "profile", 1)
    why = env.choice("spoiled", ["summary columns", "summary value",
                                 "station columns", "station value",
                                 "profile columns", "profile value"])
    part = {"summary": "summ_data", "station": "stat_summ",
            "profile": "stat_data"}[why.split()[0]]
    t = kw[part][0] if part == "stat_data" else kw[part]
    c = t.split()
    if why.endswith("columns"):
        c = c[:-1]
    elif part == "summ_data":
        c[1] = "-1.0"                   # edge velocity
    elif part == "stat_summ":
        c[0] = "1000.0"                 # position
    else:
        c[0] = "1000000.0"              # y+
    t = " ".join(c)
    kw[part] = [t] if part == "stat_data" else t
    if why == "profile value":
        env.assume(rows[0]["y_plus"] < 999990)
    env.check("a spoiled station is rejected",
              env.raises(ValueError, lambda: sd.reset(**kw)))
    new = [expected(env, s, None), expected(env, s, r)]
    not_mixed(env, "rejected station", lambda f: getattr(sd, f), new)
    for n in ("y", "y_plus", "y_c", "u", "u_plus", "u_defect"):
        a = getattr(sd, n)
        if part != "stat_data":
            env.check(f"rejected station: no profile is left over ({n})",
                      env.np.shape(a) == (0,))
        else:
            env.check(f"rejected station: no profile is left over ({n})",
                      env.np.shape(a)[0] <= 1)


SPOIL = ("ident word", "ident number", "viscosity", "smooth", "summary",
         "station", "profile", "station value", "profile value", "nothing",
         "lower case", "no file")


def rejected_case(env, spoil):
    """A rejected case file leaves nothing of the previous case."""
    C = env.mod("ibl.reference").StanfordOlympics1968
    name = env.choice("case", ["1999", "2999"])
    nu, data, q, lines = case_file(env, name, name[0] == "1", "profile", 2, 1)
    lines = list(lines)
    i = {"ident word": 1, "ident number": 1, "viscosity": 2}.get(spoil)
    if spoil == "ident word":
        lines[1] = f"INDENT = {name}\n"
    elif spoil == "ident number":
        lines[1] = "IDENT = " + env.choice("identifier", [
            "1998", name + "0", name[:3], "0" + name, name + " 1"]) + "\n"
    elif spoil == "viscosity":
        lines[2] = "X" + lines[2]
    elif spoil == "lower case":
        lines[1] = lines[1].replace("IDENT", "ident")
        lines[2] = lines[2].replace("V", "v")
    elif spoil in ("station value", "profile value"):
        k = env.choice("at", [0, 1])
        s, r, rows, _ = data[k]
        off = env.real("off", 1, 10)
        if spoil == "station value":
            bad = dict(r, shape_d=s["shape_d"] + off)
            t = text(env, name[0] == "1", STAT, bad)
            i = [j for j, ln in enumerate(lines)
                 if ln.startswith("# Stations")][0] + 2 + k
        else:
            bad = dict(rows[0], y_plus=rows[0]["y"]*r["u_star"]/r["nu"]
                       + 1 + off)
            t = text(env, name[0] == "1", PROF, bad)
            i = [j for j, ln in enumerate(lines)
                 if ln.startswith(f"# Station {k+1} ")][0] + 2
        lines[i] = t + "\n"
    elif spoil not in ("nothing", "no file"):
        # the second row of the block
        head = {"smooth": "# Edge", "summary": "# Summary",
                "station": "# Stations", "profile": "# Station 2"}[spoil]
        i = [k for k, t in enumerate(lines) if t.startswith(head)][0]
        i += 2 if spoil == "profile" else 3
        lines[i] = " ".join(lines[i].split()[:-1]) + "\n"
    old = case_file(env, "1998", True, "profile", 2, 1)
    env.resources({path("1998"): old[3]} if spoil == "no file" else
                  {path(name): lines, path("1998"): old[3]})
    how = env.choice("object", ["fresh", "held another case"])
    c = None
    if how == "fresh":
        def act():
            C(name)
    else:
        c = C("1998")

        def act():
            c.case = name
    if spoil in ("nothing", "lower case"):
        env.check("a consistent case file is accepted",
                  not env.raises(ValueError, act))
        return
    if spoil == "no file":
        env.check("a case without a file is rejected",
                  env.raises(Exception, act))
    else:
        env.check(f"a case file with a spoiled {spoil} line is rejected",
                  env.raises(ValueError, act))
    if c is None:
        return
    env.check("rejected case: the identifier is not left over",
              c.case != "1998")
    n = c.station_count()
    env.check("rejected case: no station is left over", n <= len(data))
    for k in range(n):
        s, r, _, _ = data[k]
        not_mixed(env, "rejected case", lambda f: getattr(c, f)()[k],
                  [expected(env, s, None), expected(env, s, r)])
        not_mixed(env, "rejected case, station",
                  lambda f: getattr(c.station(k), f),
                  [expected(env, s, None), expected(env, s, r)])
    env.check("rejected case: nu_ref is not left over",
              (c.nu_ref == float("inf")) | same(env, c.nu_ref, nu))
    m = env.np.shape(c.x_smooth())[0]
    env.check("rejected case: no smoothed velocity is left over",
              m == 0 or m == len(q))
    if m == len(q):
        for k, row in enumerate(q):
            for f, a in (("x", c.x_smooth()), ("u_e", c.u_e_smooth()),
                         ("du_e", c.du_e_smooth())):
                env.check(f"rejected case: smoothed {f} is not left over",
                          same(env, a[k], row[f]))


def jobs(tier):
    r = [("summaries", dict(field=f)) for f in TOL]
    r += [("profiles", dict(field=f)) for f in PTOL]
    return r + [("columns", {}, dict(max_validate=40)),
                ("rejected_station", {})] + \
        [("rejected_case", dict(spoil=s)) for s in SPOIL]
