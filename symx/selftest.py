"""
Engine self-checks, run once by setup_cmd.

* small drivers whose verdict is known: true ones must be discharged, false
  ones must yield a counterexample that falsifies the obligation numerically;
* numpy entry points of the shim agree with numpy on concrete data;
* the package under check imports and every check module lists its jobs.
"""
import importlib
import os
import sys
import tempfile
import time


def prepare():
    """A scratch package, so that nothing here depends on the repository."""
    d = tempfile.mkdtemp(prefix="symxself")
    os.makedirs(os.path.join(d, "ibl"))
    open(os.path.join(d, "ibl", "__init__.py"), "w").close()
    with open(os.path.join(d, "ibl", "toy.py"), "w") as f:
        f.write(TOY)
    with open(os.path.join(os.path.dirname(__file__), "idioms.txt")) as f:
        idioms = f.read().splitlines()
    with open(os.path.join(d, "ibl", "idioms.py"), "w") as f:
        f.write("import bisect\nimport functools\nimport math\n"
                "import operator\nimport numpy as np\n")
        for i, line in enumerate(idioms):
            *st, last = line.split(";")
            f.write(f"def f{i}(x, y, a, b):\n" +
                    "".join(f"    {p.strip()}\n" for p in st) +
                    f"    return {last.strip()}\n")
    os.environ["SYMX_REPO"] = d
    return d, idioms


TOY = '''
import numpy as np


def clamp(x, lo, hi):
    x = np.array(x, dtype=float)
    x[x < lo] = lo
    x[x > hi] = hi
    return x


def clamp_bad(x, lo, hi):
    x = np.array(x, dtype=float)
    if (x < lo).any():
        x[x < lo] = lo
    elif (x > hi).any():
        x[x > hi] = hi
    return x


def root(a, b):
    return (-b + np.sqrt(b*b + 4*a))/2


def power(x, n):
    return x**n


def thirds(x):
    return x*0.1 + x*0.2


def twice(x):
    a = 1 if 2*x < 3 else 0
    b = 1 if x < 1.5 else 0
    return a == b


def table(x):
    t = [1.0, 2.0, 4.0, 8.0]
    if x < 0 or x >= 3:
        raise ValueError("out of range")
    for k in range(3):
        if x < k + 1:
            return t[k] + (x - k)*(t[k+1] - t[k])
'''


def d_clamp(env, bad):
    m = env.mod("ibl.toy")
    x = [env.real("a", -5, 5), env.real("b", -5, 5)]
    y = (m.clamp_bad if bad else m.clamp)(env.array(x), -1, 1)
    for e in y:
        env.check("in range", (e >= -1) & (e <= 1))


def d_root(env, bad):
    m = env.mod("ibl.toy")
    a, b = env.real("a", 0), env.real("b", -10, 10)
    r = m.root(a, b)
    env.eq("solves the equation", r*r + b*r, a + (1e-3 if bad else 0),
           scale=lambda: 1.0)


def d_power(env, bad):
    m = env.mod("ibl.toy")
    x = env.real("x", 0)
    env.eq("powers add", m.power(x, 0.3)*m.power(x, 0.7 if not bad else 0.71),
           x)
    y = env.real("y", 0)
    env.assume(x < y)
    env.check("monotone", m.power(x, 1.7) < m.power(y, 1.7))


def d_table(env, bad):
    m = env.mod("ibl.toy")
    x = env.real("x", -1, 4)
    if env.raises(ValueError, lambda: m.table(x)):
        env.check("rejects only outside", (x < 0) | (x >= (3 if not bad
                                                           else 3.5)))
        return
    env.check("bounded", (m.table(x) >= 1) & (m.table(x) < 8))


def d_rounding(env, bad):
    m = env.mod("ibl.toy")
    x = env.real("x", 0.5, 2)
    # 0.1 + 0.2 is not 0.3 in doubles: equal up to rounding, and only that
    env.eq("sums", m.thirds(x), 0.3*x*(1 + (1e-7 if bad else 0)), 1e-12)


def d_decided(env, bad):
    m = env.mod("ibl.toy")
    x = env.real("x", -5, 5)
    # the second test of the same condition follows the first
    env.check("agree", m.twice(x) if not bad else m.twice(x) & (x > 0))


def d_diff(env, bad):
    u = env.func("u", lo=0.1)
    x = env.real("x")
    env.eq("product rule", env.diff(lambda t: u(t)*u(t)*t, x),
           2*u(x)*u.d(1)(x)*x + u(x)*u(x)*(1 if not bad else 2))


def main():
    t0 = time.time()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get("SYMX_REPO", "/repo")
    d, idioms = prepare()
    from . import engine, shim
    fails = 0
    for drv in (d_clamp, d_root, d_power, d_table, d_rounding,
                d_decided, d_diff):
        for bad in (False, True):
            job = engine.Job(drv, dict(bad=bad))
            job.run()
            wit = [w for c in job.candidates for w in c["witnesses"]]
            if bad:
                ok = bool(job.candidates) and bool(wit)
            else:
                ok = (not job.candidates and not job.inconclusive
                      and job.obl_total == job.obl_unsat > 0)
            print(f"{drv.__name__[2:]:8s} {'false' if bad else 'true '} "
                  f"property: {'ok' if ok else 'FAILED'} "
                  f"(paths {job.paths}, obligations {job.obl_total})")
            fails += not ok
    fails += numpy_agreement(shim)
    fails += idiom_agreement(d, idioms, engine)
    for root, dirs, fs in os.walk(d, topdown=False):
        for f in fs:
            os.unlink(os.path.join(root, f))
        os.rmdir(root)
    os.environ["SYMX_REPO"] = repo
    n = 0
    for f in sorted(os.listdir(os.path.join(here, "checks"))):
        if f.startswith("c") and f[1:3].isdigit():
            m = importlib.import_module("checks." + f[:-3])
            for tier in ("quick", "thorough"):
                for j in m.jobs(tier):
                    assert callable(getattr(m, j[0])), (f, j)
                    n += 1
    print(f"{n} jobs listed")
    if os.system(f"cd {repo} && {sys.executable} -B -c 'import ibl'") != 0:
        print("the package does not import")
        fails += 1
    print(f"selftest {'passed' if not fails else 'FAILED'} "
          f"in {time.time()-t0:.1f}s")
    return 1 if fails else 0


def idiom_agreement(d, idioms, engine):
    """Numpy idioms executed symbolically, on inputs constrained to one
    point, against real execution at that point."""
    import importlib.util
    import numpy
    spec = importlib.util.spec_from_file_location(
        "idioms", os.path.join(d, "ibl", "idioms.py"))
    real = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(real)
    pa, pb, px, py = [0.3, -1.2, 2.5, 0.7], [1.5, 2.0, 0.25, 4.0], 0.4, 1.75
    fails = 0

    def drv(env, i, want):
        m = env.mod("ibl.idioms")
        x, y = env.real("x", -10, 10), env.real("y", -10, 10)
        a = [env.real(f"a{k}", -10, 10) for k in range(4)]
        b = [env.real(f"b{k}", -10, 10) for k in range(4)]
        for v, c in zip([x, y] + a + b, [px, py] + pa + pb):
            env.assume(v == c)
        r = numpy.asarray(getattr(m, f"f{i}")(x, y, env.array(a),
                                              env.array(b)), dtype=object)
        env.check("shape", r.shape == want.shape)
        for p, q in zip(r.ravel(), want.ravel()):
            if isinstance(q, (bool, numpy.bool_, str)):
                env.check("value", bool(p == q))
            else:
                env.eq("value", p, float(q), 1e-9)
    for i, line in enumerate(idioms):
        want = numpy.asarray(getattr(real, f"f{i}")(
            px, py, numpy.array(pa), numpy.array(pb)))
        job = engine.Job(drv, dict(i=i, want=want))
        job.run()
        if job.candidates or job.inconclusive or \
                job.outcomes != {"ok": job.paths}:
            print("numpy model differs:", line, job.inconclusive[:1],
                  [c["label"] for c in job.candidates[:1]])
            fails += 1
    print(f"{len(idioms)} numpy idioms executed symbolically, "
          f"{fails} differ")
    return fails


def numpy_agreement(shim):
    """The numpy model on concrete data against numpy itself."""
    import numpy as real
    fake = shim.np
    a = real.array([0.3, -1.2, 2.5, 0.0])
    b = real.array([1.5, 2.0, 0.25, 4.0])
    cases = [
        ("abs", (a,)), ("sqrt", (b,)), ("exp", (a,)), ("log", (b,)),
        ("log10", (b,)), ("maximum", (a, 0.1)), ("minimum", (a, b)),
        ("clip", (a, -1, 1)), ("where", (a > 0, a, b)), ("cumsum", (a,)),
        ("zeros_like", (a,)), ("ones_like", (a,)), ("interp", (0.7, b.cumsum(),
                                                               a)),
        ("concatenate", ((a, b),)), ("any", (a > 2,)), ("all", (a > 2,)),
        ("sum", (a,)), ("dot", (a, b)), ("diff", (a,)), ("power", (b, 1.7)),
        ("argmin", (a,)), ("searchsorted", (real.sort(a), 0.1)),
    ]
    bad = 0
    for name, args in cases:
        f = getattr(fake, name, None)
        if f is None:
            continue
        try:
            r = f(*args)
        except BaseException as e:      # noqa: not modelled
            if type(e).__name__ == "Unsupported":
                continue
            raise
        w = getattr(real, name)(*args)
        if not real.allclose(real.asarray(r, dtype=float), w):
            print("numpy model differs:", name, r, w)
            bad += 1
    return bad
