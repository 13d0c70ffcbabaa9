"""C12  Stagnation start condition is the Falkner-Skan stagnation solution."""
BOUNDS = ("exact over all reals: nu, du_e in (0, inf), two successive "
          "(nu, du_e) assignments; manual condition over all thicknesses")


def stag(env):
    ic = env.mod("ibl.initial_condition")
    nu = env.real("nu", 0)
    du = env.real("du", 0)
    c = ic.FalknerSkanStagCondition(du, nu)

    def look(tag, nu, du):
        dm = c.delta_m()
        env.observe(tag + "delta_m", dm)
        lam = dm*dm*du/nu
        env.le(tag + "lambda>=0.0855(1-0.1%)", 0.0855*0.999, lam)
        env.le(tag + "lambda<=0.0855(1+0.1%)", lam, 0.0855*1.001)
        env.lt(tag + "delta_m>0", 0, dm)
        env.eq(tag + "shape_d", c.shape_d(), 2.2162, tol=1e-4)
        env.eq(tag + "shape_k", c.shape_k(), 1.6257, tol=1e-4)
        env.eq(tag + "delta_d", c.delta_d(), c.shape_d()*dm)
        env.eq(tag + "delta_k", c.delta_k(), c.shape_k()*dm)
    look("", nu, du)
    nu2 = env.real("nu2", 0)
    du2 = env.real("du2", 0)
    how = env.choice("change", ["nu", "du", "both"])
    if how in ("nu", "both"):
        c.nu = nu2
        nu = nu2
    if how in ("du", "both"):
        c.du_e = du2
        du = du2
    env.eq("nu reads back", c.nu, nu)
    env.eq("du_e reads back", c.du_e, du)
    look("after change: ", nu, du)


def manual(env):
    ic = env.mod("ibl.initial_condition")
    d = env.real("delta_d", 0)
    m = env.real("delta_m", 0)
    k = env.real("delta_k", 0)
    c = ic.ManualCondition(d, m, k)

    def look(tag, d, m, k):
        env.eq(tag + "delta_d", c.delta_d(), d)
        env.eq(tag + "delta_m", c.delta_m(), m)
        env.eq(tag + "delta_k", c.delta_k(), k)
        env.eq(tag + "shape_d", c.shape_d(), d/m)
        env.eq(tag + "shape_k", c.shape_k(), k/m)
        env.observe(tag + "H", c.shape_d())
    look("", d, m, k)
    c.nu = env.real("nu", 0)
    c.du_e = env.real("du")
    look("after nu/du_e: ", d, m, k)
    d2 = env.real("delta_d2", 0)
    m2 = env.real("delta_m2", 0)
    k2 = env.real("delta_k2", 0)
    c.del_d, c.del_m, c.del_k = d2, m2, k2
    look("after reassignment: ", d2, m2, k2)


def jobs(tier):
    return [("stag", {}), ("manual", {})]
