"""C26  Stanford 1968 data are converted to SI and mapped to the right fields."""
BOUNDS = ("exact over reals: every value of every field within physical "
          "ranges (consistent with each other up to less than the stated "
          "tolerances), both unit systems, 0-2 profile rows (thorough: 3), "
          "1-3 stations, one "
          "case of 12 stations and one with profiles of 8 rows, 14 case "
          "identifiers, case files with and without station summaries and "
          "profiles, 6 layouts of the text, a fresh object or one that held another case/station")

# what the documents say: metric cases in m, m/s, cm, cm^2/s; English cases
# in ft, ft/s, inches, ft^2/s
FT = 0.3048
INCH = 0.0254
SI = dict(x=1.0, u=1.0, d=1e-2, nu=1e-4)
ENGLISH = dict(x=FT, u=FT, d=INCH, nu=FT*FT)
SUMM = ("x", "u_e", "du_e", "delta_m", "shape_d", "shape_k", "shape_eq",
        "c_f", "c_f_lt", "c_f_exp", "beta_eq")
STAT = ("x", "u_star", "u_e", "nu", "delta_m", "delta_d", "delta_k",
        "delta_c", "shape_d", "shape_eq", "shape_k", "re_delta_m",
        "re_delta_d")
PROF = ("y_plus", "u_plus", "y", "uoui", "y_c", "u_defect")
UNIT = dict(x="x", u_e="u", u_star="u", delta_m="d", delta_d="d",
            delta_k="d", delta_c="d", nu="nu", y="d")
FIELDS = SUMM + ("u_star", "nu", "delta_d", "delta_k", "delta_c",
                 "re_delta_m", "re_delta_d")


def summary(env, t):
    """Summary values of one station in SI."""
    return dict(
        x=env.real(t + ".x", -5, 100), u_e=env.real(t + ".u_e", 0.5, 500),
        du_e=env.real(t + ".du_e", -500, 500),
        delta_m=env.real(t + ".delta_m", 1e-5, 0.5),
        shape_d=env.real(t + ".h", 1.01, 6),
        shape_k=env.real(t + ".hs", 1.1, 3),
        shape_eq=env.real(t + ".g", 0.5, 100),
        c_f=env.real(t + ".c_f", 1e-5, 0.05),
        c_f_lt=env.real(t + ".c_f_lt", -0.01, 0.05),
        c_f_exp=env.real(t + ".c_f_exp", -0.01, 0.05),
        beta_eq=env.real(t + ".beta", -10, 100))


def stat_summary(env, t, s, off=None):
    """Station summary in SI that agrees with the summary s."""
    def e(n, tol):
        if off and n in off:
            return off[n]
        return env.real(f"{t}.e_{n}", -0.9*tol, 0.9*tol)
    # the differences must leave every value positive
    r = dict(x=s["x"] + e("x", 2e-3), u_e=s["u_e"] + e("u_e", 6e-2),
             nu=env.real(t + ".nu", 1e-7, 1e-3),
             shape_d=s["shape_d"] + e("shape_d", 2e-3),
             shape_k=s["shape_k"] + e("shape_k", 2e-3),
             shape_eq=s["shape_eq"] + e("shape_eq", 2e-3),
             delta_c=env.real(t + ".delta_c", 0.001, 10))
    r["delta_m"] = s["delta_m"] + e("delta_m", 2e-3)
    r["delta_d"] = s["shape_d"]*s["delta_m"] + e("delta_d", 5e-3)
    r["delta_k"] = s["shape_k"]*s["delta_m"] + e("delta_k", 5e-3)
    r["u_star"] = s["u_e"]*env.np.sqrt(0.5*s["c_f"]) + e("u_star", 5e-3)
    r["re_delta_d"] = s["u_e"]*r["delta_d"]/r["nu"] + e("re_delta_d", 5)
    r["re_delta_m"] = s["u_e"]*r["delta_m"]/r["nu"] + e("re_delta_m", 5)
    for k in ("delta_m", "delta_d", "delta_k", "u_star", "re_delta_d",
              "re_delta_m"):
        env.assume(r[k] > 0)
    return r


def profile(env, t, r, n, off=None):
    """Rows (SI) of a profile that agree with the station's scales."""
    rows = []
    for k in range(n):
        def e(nm, tol):
            if off and nm in off and k == n - 1:
                return off[nm]
            return env.real(f"{t}.{k}.e_{nm}", -0.9*tol, 0.9*tol)
        y = env.real(f"{t}.{k}.y", 0, 2, lo_open=False)
        uoui = env.real(f"{t}.{k}.uoui", 0, 1.3, lo_open=False)
        u = r["u_e"]*uoui
        rows.append(dict(
            y=y, uoui=uoui, u=u,
            y_plus=y*r["u_star"]/r["nu"] + e("y_plus", 1.0),
            y_c=y/r["delta_c"] + e("y_c", 0.5),
            u_plus=u/r["u_star"] + e("u_plus", 0.5),
            u_defect=(r["u_e"] - u)/r["u_star"] + e("u_defect", 0.5)))
    return rows


def text(env, si, names, vals):
    """The row of the file that stands for these SI values."""
    f = SI if si else ENGLISH
    out = []
    for n in names:
        v = vals[n]
        if n in UNIT:
            v = v/f[UNIT[n]]
        out.append(env.token(v))
    return "  ".join(out)


def expected(env, s, r):
    """What the accessors of the station have to return."""
    inf = float("inf")
    w = dict(s)
    if r is None:
        w.update(delta_d=s["shape_d"]*s["delta_m"],
                 delta_k=s["shape_k"]*s["delta_m"],
                 u_star=s["u_e"]*env.np.sqrt(0.5*s["c_f"]),
                 nu=inf, delta_c=inf, re_delta_m=inf, re_delta_d=inf)
    else:
        w.update(r)
    return w


def compare(env, lab, v, w, scale=1e-4):
    if isinstance(w, float) and w == float("inf"):
        env.check(lab, v == w)
    else:
        env.eq(lab, v, w, scale=lambda: scale)


def check_station(env, sd, s, r, rows, names=FIELDS):
    w = expected(env, s, r)
    for n in names:
        compare(env, f"{n} is the SI value of its column", getattr(sd, n),
                w[n])
    env.check("one profile sample per row", sd.sample_count() == len(rows))
    for n in ("y", "y_plus", "y_c", "u", "u_plus", "u_defect"):
        a = getattr(sd, n)
        env.check(f"{n} has one entry per row", env.np.shape(a)
                  == (len(rows),))
        for k, row in enumerate(rows):
            env.eq(f"{n} of the sample is the SI value of its column", a[k],
                   row[n], scale=lambda: 1e-4)


QS = ("y", "y_plus", "y_c", "u", "u_plus", "u_defect")


def ask_station(sd):
    """Every query once, so that whatever is remembered is remembered."""
    for n in FIELDS + QS:
        getattr(sd, n)
    sd.sample_count()


def ask_case(c):
    for k in range(c.station_count()):
        ask_station(c.station(k))
        for n in QS:
            getattr(c, n)(k)
    for n in FIELDS + ("x_smooth", "u_e_smooth", "du_e_smooth"):
        getattr(c, n)()
    c.nu_ref, c.case


def make(env, cls, t, si, kind, n):
    s = summary(env, t)
    r, rows, st, sd = None, [], "", []
    if kind != "summary":
        r = stat_summary(env, t, s)
        st = text(env, si, STAT, r)
        if kind == "profile":
            rows = profile(env, t, r, n)
            sd = [text(env, si, PROF, q) for q in rows]
    return s, r, rows, dict(si_unit=si, summ_data=text(env, si, SUMM, s),
                            stat_summ=st, stat_data=sd)


def station(env, top):
    S = env.mod("ibl.reference").StanfordOlympics1968StationData
    si = env.choice("units", ["si", "english"]) == "si"
    kind = env.choice("data", ["summary", "station", "profile"])
    n = env.choice("rows", list(range(1, top + 1))) if kind == "profile" else 0
    how = env.choice("object", ["fresh", "reset"])
    if how == "fresh":
        s, r, rows, kw = make(env, S, "a", si, kind, n)
        sd = S(**kw)
    else:
        other = env.choice("before", ["si profile", "english summary"])
        k0 = make(env, S, "z", other == "si profile",
                  "profile" if other == "si profile" else "summary", 2)[3]
        sd = S(**k0)
        ask_station(sd)
        s, r, rows, kw = make(env, S, "a", si, kind, n)
        sd.reset(**kw)
    check_station(env, sd, s, r, rows)


def smooth(env):
    V = env.mod("ibl.reference").StanfordOlympics1968SmoothVel
    si = env.choice("units", ["si", "english"]) == "si"
    n = env.choice("rows", [0, 1, 2, 3, 15])
    q = [dict(x=env.real(f"x{k}", -5, 100), u_e=env.real(f"u{k}", -10, 500),
              du_e=env.real(f"du{k}", -500, 500)) for k in range(n)]
    d = [text(env, si, ("x", "u_e", "du_e"), r) for r in q]
    if env.choice("object", ["fresh", "reset"]) == "fresh":
        v = V(si_unit=si, data=d)
    else:
        v = V(si_unit=not si, data=["1.0 2.0 3.0"]*2)
        v.x, v.u_e, v.du_e, v.size()
        v.reset(si_unit=si, data=d)
    check_smooth(env, v.x, v.u_e, v.du_e, q)
    env.check("size is the number of rows", v.size() == n)


def check_smooth(env, x, u, du, q):
    for nm, a, f in (("x", x, "x"), ("u_e", u, "u_e"), ("du_e", du, "du_e")):
        env.check(f"smoothed {nm} has one entry per row",
                  env.np.shape(a) == (len(q),))
        for k, r in enumerate(q):
            env.eq(f"smoothed {nm} is the SI value of its column", a[k], r[f],
                   scale=lambda: 1e-3)


def case_file(env, name, si, kind, ns, npro):
    """Lines of a case file and the SI values it stands for."""
    f = SI if si else ENGLISH
    nu = env.real(name + ".nu_ref", 1e-7, 1e-3)
    lines = ["# A case\n", f"IDENT = {name}\n",
             f"V = {env.token(nu/f['nu'])}\n", "\n"]
    data = []
    for k in range(ns):
        s, r, rows, kw = make(env, None, f"{name}.{k}", si, kind, npro)
        data.append((s, r, rows, kw))
    lines += ["# Summary data\n", "# X UI DUI THETA H HS G CF CFLT CFE BETA\n"]
    lines += [d[3]["summ_data"] + "\n" for d in data] + ["\n"]
    q = [dict(x=env.real(f"{name}.sx{k}", -5, 100),
              u_e=env.real(f"{name}.su{k}", 0.5, 500),
              du_e=env.real(f"{name}.sd{k}", -500, 500)) for k in range(2)]
    lines += ["# Edge velocity plot\n", "# X UI DUI\n"]
    lines += [text(env, si, ("x", "u_e", "du_e"), r) + "\n" for r in q]
    if kind != "summary":
        lines += ["\n", "# Stations summary\n",
                  "# X US UI V THETA DELS ENTH CLTH H G HS RTHETA RDELS\n"]
        lines += [d[3]["stat_summ"] + "\n" for d in data]
    if kind == "profile":
        for k, d in enumerate(data):
            lines += ["\n", f"# Station {k+1} data\n",
                      "# Y+ U+ Y U/UI Y/CD UDEF\n"]
            lines += [row + "\n" for row in d[3]["stat_data"]]
    return nu, data, q, lines


def path(name):
    return f"data/stanford_olympics/1968/case {name}.txt"


def check_case(env, c, name, nu, data, q):
    env.check("the case is the one asked for", c.case == name)
    env.eq("nu_ref is the SI value of the file", c.nu_ref, nu,
           scale=lambda: 1e-6)
    check_smooth(env, c.x_smooth(), c.u_e_smooth(), c.du_e_smooth(), q)
    env.check("one station per summary row", c.station_count() == len(data))
    for k, (s, r, rows, _) in enumerate(data):
        check_station(env, c.station(k), s, r, rows,
                      names=("x", "u_e", "delta_m", "delta_d"))
        for n in ("y", "y_plus", "y_c", "u", "u_plus", "u_defect"):
            a = getattr(c, n)(k)
            env.check(f"{n}(k) has one entry per row",
                      env.np.shape(a) == (len(rows),))
            for j, row in enumerate(rows):
                env.eq(f"{n}(k) is the profile of station k", a[j], row[n],
                       scale=lambda: 1e-4)
    for n in FIELDS:
        col = getattr(c, n)()
        env.check(f"{n}() has one entry per station",
                  env.np.shape(col) == (len(data),))
        for k, (s, r, _, _) in enumerate(data):
            compare(env, f"{n}() lists the stations in order", col[k],
                    expected(env, s, r)[n])


def case(env, ns):
    C = env.mod("ibl.reference").StanfordOlympics1968
    name = env.choice("case", ["1999", "2999"])
    kind = env.choice("data", ["summary", "station", "profile"])
    n = env.choice("stations", list(range(1, ns + 1)))
    nu, data, q, lines = case_file(env, name, name[0] == "1", kind, n, 1)
    before = env.choice("object", ["fresh", "default", "held another case",
                                   "cleared", "held this case, edited"])
    table = {path(name): lines}
    if before == "held another case":
        old = case_file(env, "1998", True, "station", 2, 0)
        table[path("1998")] = old[3]
    env.resources(table)
    if before == "fresh":
        c = C(name)
    else:
        c = C({"held another case": "1998", "held this case, edited": name
               }.get(before, ""))
        ask_case(c)
        if before == "held this case, edited":
            for i in range(n):
                c.station(i).x, c.station(i).shape_d = 77.0, 78.0
        c.case = name
    if before == "cleared":
        c.case = ""
        env.check("no case", c.case == "")
        env.check("no stations without a case", c.station_count() == 0)
        env.check("no viscosity without a case", c.nu_ref == float("inf"))
        for f in FIELDS + ("x_smooth", "u_e_smooth", "du_e_smooth"):
            env.check(f"{f}() is empty without a case",
                      env.np.shape(getattr(c, f)()) == (0,))
        return
    check_case(env, c, name, nu, data, q)


def many(env, n, rows):
    """Two-digit station numbers, a profile longer than a few rows."""
    C = env.mod("ibl.reference").StanfordOlympics1968
    name = env.choice("case", ["1999", "2999"])
    nu, data, q, lines = case_file(env, name, name[0] == "1", "profile", n,
                                   rows)
    env.resources({path(name): lines})
    check_case(env, C(name), name, nu, data, q)


def ids(env, name):
    """The unit system follows from the identifier alone: every case that
    comes with the package, and others."""
    C = env.mod("ibl.reference").StanfordOlympics1968
    nu, data, q, lines = case_file(env, name, name[0] == "1", "station", 1, 0)
    env.resources({path(name): lines})
    check_case(env, C(name), name, nu, data, q)


def forms(env):
    """The layout of the text does not matter."""
    C = env.mod("ibl.reference").StanfordOlympics1968
    name = env.choice("case", ["1999", "2999"])
    kind = env.choice("data", ["summary", "station", "profile"])
    nu, data, q, lines = case_file(env, name, name[0] == "1", kind, 2, 2)
    form = env.choice("layout", ["no newline at the end", "empty lines",
                                 "lower case", "no spaces", "wide", "tabs"])
    if form == "no newline at the end":
        lines[-1] = lines[-1].rstrip("\n")
    elif form == "empty lines":
        # (the two comment lines that start a section stay together)
        lines = [t for k, x in enumerate(lines) for t in (
            [x] if lines[k+1:k+2] and lines[k+1][0] == "#" else [x, "\n"])
            ] + ["\n", "\n"]
    elif form == "lower case":
        lines[1:3] = [x.replace("IDENT", "ident").replace("V", "v")
                      for x in lines[1:3]]
    elif form == "no spaces":
        lines[1:3] = [x.replace(" ", "") for x in lines[1:3]]
    else:
        gap = "\t" if form == "tabs" else "    "
        lines = [x if x[0] in "#\n" else gap*(form == "wide")
                 + x[:-1].replace(" ", gap) + "  \n" for x in lines]
    env.resources({path(name): lines})
    check_case(env, C(name), name, nu, data, q)


IDS = ("1100", "1200", "1300", "2200", "2300", "1000", "1050", "1500", "1812",
       "2000", "2051", "2112", "2900", "4100")


def jobs(tier):
    big = tier != "quick"
    return [("ids", dict(name=i), dict(max_validate=1)) for i in IDS] + [
            ("station", dict(top=3 if big else 2), dict(max_validate=40)),
            ("smooth", {}),
            ("forms", {}, dict(max_validate=6)),
            ("many", dict(n=12, rows=1), dict(max_validate=2)),
            ("many", dict(n=2, rows=12 if big else 8), dict(max_validate=2)),
            ("case", dict(ns=3 if big else 2), dict(max_validate=40))]
