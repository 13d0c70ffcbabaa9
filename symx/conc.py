"""
Concrete replay.  Runs a driver on the plain installed package (imported
normally, nothing rewritten) with the numbers of a witness.

Only the environment is substituted, exactly where the symbolic run did it:
solve_ivp / quad / root_scalar / importlib.resources.files are dispatched to
the driver's handler when it installed one and fall through to the real scipy
function otherwise; files become real files in a scratch directory.

    python -m symx.conc  < batch.json  > results.json
"""
from __future__ import annotations

import hashlib
import importlib
import json
import math
import os
import shutil
import sys
import tempfile
import traceback
import warnings

import numpy as np

from .env import Result, Stub, Unmodelled

HANDLERS: dict = {}
RECORD: list = []
REPO = os.environ.get("SYMX_REPO", "/repo")


class Skip(BaseException):
    """The witness does not satisfy an assumption of the driver."""


class IvpCall:
    def __init__(self, fun, t_span, y0, events, kw):
        self.fun = fun
        self.t_span = t_span
        self.t0, self.t1 = t_span[0], t_span[1]
        self.y0 = y0
        self.events_obj = events
        if events is None:
            self.events = []
        elif callable(events):
            self.events = [events]
        else:
            self.events = list(events)
        self.kw = kw


def install():
    import scipy.integrate as si
    import scipy.optimize as so
    import importlib.resources as ir
    r_ivp, r_quad, r_root, r_files = (si.solve_ivp, si.quad, so.root_scalar,
                                      ir.files)

    def solve_ivp(fun, t_span, y0, method="RK45", t_eval=None,
                  dense_output=False, events=None, vectorized=False, args=None,
                  **o):
        h = HANDLERS.get("solve_ivp")
        RECORD.append(("solve_ivp", o))
        if h is None:
            return r_ivp(fun, t_span, y0, method=method, t_eval=t_eval,
                         dense_output=dense_output, events=events,
                         vectorized=vectorized, args=args, **o)
        if args is not None:
            f0 = fun
            fun = lambda t, y: f0(t, y, *args)
        return h(IvpCall(fun, t_span, y0, events,
                         dict(method=method, t_eval=t_eval,
                              dense_output=dense_output, **o)))

    def quad(func, a, b, args=(), **kw):
        h = HANDLERS.get("quad")
        RECORD.append(("quad", kw))
        if h is None:
            return r_quad(func, a, b, args=args, **kw)
        return h(func, a, b)

    def root_scalar(f, args=(), method=None, bracket=None, **kw):
        h = HANDLERS.get("root_scalar")
        RECORD.append(("root_scalar", kw))
        if h is None:
            return r_root(f, args=args, method=method, bracket=bracket, **kw)
        return h(f, bracket, dict(method=method, **kw))

    def files(pkg):
        h = HANDLERS.get("files")
        return r_files(pkg) if h is None else h(pkg)

    si.solve_ivp, si.quad, so.root_scalar, ir.files = (solve_ivp, quad,
                                                       root_scalar, files)
    sys.path.insert(0, REPO)


# --------------------------------------------------------------------------
class Nodes:
    """Values attached to abscissae; nearest one wins, lazily extended."""

    def __init__(self, env, key, tol):
        self.env = env
        self.key = key
        self.tol = tol
        self.pts = {}           # x -> {index: value}

    def find(self, x, create=True):
        best = None
        for p in self.pts:
            if best is None or abs(p - x) < abs(best - x):
                best = p
        if best is not None and (not create or
                                 abs(best - x) <= self.tol*(1 + abs(x))):
            return best
        self.pts[x] = {}
        return x

    def get(self, p, k, rng_key):
        d = self.pts[p]
        if k not in d:
            d[k] = self.env.draw(rng_key, (self.key, k, round(p, 12)))
        return d[k]


class ConFn:
    def __init__(self, env, name, nodes, order=0):
        self.env, self.name, self.nodes, self.order = env, name, nodes, order

    def _one(self, x):
        x = float(x)
        p = self.nodes.find(x)
        dx = x - p
        r, fac = 0.0, 1.0
        for j in range(0, 5):
            if j and dx == 0.0:
                break
            v = self.nodes.get(p, self.order + j,
                               ("fn", self.name, self.order + j))
            r += v*fac
            fac *= dx/(j + 1)
        return r

    def __call__(self, x):
        if isinstance(x, (list, np.ndarray)) and np.ndim(x) > 0:
            x = np.asarray(x)
            return np.array([self._one(e) for e in x.ravel()],
                            dtype=float).reshape(x.shape)
        return np.float64(self._one(x))

    def d(self, k=1):
        return ConFn(self.env, self.name, self.nodes, self.order + k)


class ConSol(Stub):
    def __init__(self, env, name, n, fun, nodes, t0=None, t1=None):
        if t0 is not None:
            self.t_min, self.t_max = t0, t1
            self.ts = np.array([t0, t1], dtype=float)
        self.env, self.name, self.n, self.fun, self.nodes = (env, name, n, fun,
                                                             nodes)
        self.rates = {}

    def state0(self, p):
        return np.array([self.nodes.get(p, i, ("state", self.name, i))
                         for i in range(self.n)], dtype=float)

    def _one(self, x):
        x = float(x)
        p = self.nodes.find(x)
        y = self.state0(p)
        if x != p:
            if p not in self.rates:
                r = self.fun(p, self.state0(p).copy())
                self.rates[p] = np.array(
                    [float(np.asarray(e, dtype=float).reshape(-1)[0])
                     for e in (r if np.ndim(r) else [r])], dtype=float)
            y = y + self.rates[p]*(x - p)
        return y

    def __call__(self, x):
        if np.ndim(x) > 0:
            return np.array([self._one(e) for e in np.asarray(x)]).T
        return self._one(x)


class ConEnv:
    symbolic = False

    def __init__(self, wit, tier, search=None):
        self.w = wit
        self.params = wit["params"]
        self.tier = tier
        self.np = np
        self.search = search
        self.ranges = {}
        self.choice_i = 0
        self.observed = []
        self.fails = []
        self.passed = 0
        self.err = 0.0
        self.tmp = None
        self.files_ = {}
        self._nodes = {}
        self._nivp = 0
        if search is None:
            for nm, k, x, v in wit.get("fns", []):
                self.node("fn", nm).pts.setdefault(x, {})[k] = v
            for nm, i, x, v in wit.get("states", []):
                self.node("state", nm).pts.setdefault(x, {})[i] = v

    def node(self, kind, name):
        key = (kind, name)
        if key not in self._nodes:
            tol = 1e-3
            self._nodes[key] = Nodes(self, key, tol)
        return self._nodes[key]

    # -- numbers
    def draw(self, rkey, key):
        lo, hi = self.ranges.get(rkey, (None, None))
        h = hashlib.sha256(repr((self.search, rkey, key)).encode()).digest()
        r = np.random.default_rng(int.from_bytes(h[:8], "little"))
        if lo is not None and hi is not None:
            if lo > 0 and hi/lo > 50:
                return float(np.exp(r.uniform(np.log(lo), np.log(hi))))
            return float(r.uniform(lo, hi))
        if lo is not None:
            return float(lo + np.exp(r.uniform(-3, 3)))
        if hi is not None:
            return float(hi - np.exp(r.uniform(-3, 3)))
        return float(np.exp(r.uniform(-3, 3))*r.choice([-1, 1]))

    def real(self, name, lo=None, hi=None, lo_open=True, hi_open=False,
             digits=None, int_ok=False):
        self.ranges[name] = (lo, hi)
        if self.search is None and name in self.w["inputs"]:
            v = float(self.w["inputs"][name])
        else:
            v = self.draw(name, "real")
        if digits is not None:
            v = round(v, digits)
        return v

    def choice(self, name, options):
        options = list(options)
        ch = self.w.get("choices", [])
        k = 0
        if self.choice_i < len(ch):
            nm, k = ch[self.choice_i]
            if nm != name or k >= len(options):
                raise Skip("choice order differs")
        self.choice_i += 1
        return options[k]

    def func(self, name, lo=None, hi=None, lo_open=True, **k):
        self.ranges[("fn", name, 0)] = (lo, hi)
        return ConFn(self, name, self.node("fn", name))

    def fn_range(self, name, order, lo=None, hi=None, lo_open=True):
        self.ranges[("fn", name, order)] = (lo, hi)

    def array(self, seq):
        return np.array(list(seq), dtype=float)

    def mod(self, name):
        return importlib.import_module(name)

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise Skip("assumption")

    def stub(self, name, handler):
        HANDLERS[name] = handler

    def handler(self, name):
        return HANDLERS[name]

    def numerics(self):
        return list(RECORD)

    def result(self, **k):
        return Result(**k)

    def soft(self, fn):
        return abs(float(fn()))

    def ivp_family(self, name="Y", ranges=(), result=None):
        calls = []

        def handler(call):
            calls.append(call)
            fname = f"{name}{self._nivp}"
            self._nivp += 1
            n = len(call.y0)
            for i in range(n):
                self.ranges[("state", fname, i)] = \
                    ranges[i] if i < len(ranges) else (None, None)
            sol = ConSol(self, fname, n, call.fun, self.node("state", fname),
                         call.t0, call.t1)
            call.sol = sol
            return Result(success=True, status=0, message="ok",
                          t=np.array([call.t0, call.t1], dtype=float),
                          lazy_y=lambda: sol(np.array([call.t0, call.t1],
                                                      dtype=float)),
                          sol=sol, t_events=[np.array([])
                                             for _ in call.events],
                          y_events=None, nfev=0)
        HANDLERS["solve_ivp"] = handler
        return calls

    def rate(self, fun, x, y):
        return [float(np.asarray(e, dtype=float).reshape(-1)[0])
                for e in _flat(fun(x, np.array([float(v) for v in y])))]

    def diff(self, fn, x):
        def f(t):
            return float(np.asarray(fn(t), dtype=float).reshape(-1)[0])
        def d5(h):
            try:
                return (f(x-2*h) - 8*f(x-h) + 8*f(x+h) - f(x+2*h))/(12*h)
            except Exception:
                return math.nan
        f(x)
        best = (math.nan, math.inf)
        prev = None
        for k in range(12):
            d = d5(max(abs(x), 0.05)*1e-3*0.2**k)
            if prev is not None and math.isfinite(d) and math.isfinite(prev) \
                    and abs(d-prev) < best[1]:
                best = (d, abs(d-prev))
            prev = d
        self.err = max(self.err, best[1])
        return best[0]

    # -- text environment
    def token(self, x):
        return repr(float(x))

    def workdir(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="symx")
        return self.tmp

    def file(self, name, lines):
        path = os.path.join(self.workdir(), name)
        with open(path, "w", encoding="utf8") as f:
            f.writelines(lines)
        return path

    def resources(self, table):
        """importlib.resources.files(...) serves these texts."""
        import pathlib
        root = os.path.join(self.workdir(), "res")
        for nm, lines in table.items():
            p = os.path.join(root, nm)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf8") as f:
                f.writelines(lines)
        HANDLERS["files"] = lambda pkg: pathlib.Path(root)

    # -- results
    def observe(self, name, value):
        a = np.asarray(value)
        if a.dtype == object or a.dtype.kind not in "fiu":
            return
        if a.ndim == 0:
            self.observed.append([name, float(a)])
        else:
            for i, e in enumerate(a.ravel()):
                self.observed.append([f"{name}[{i}]", float(e)])

    def scal(self, v):
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise ValueError(f"expected a scalar, got shape {v.shape}")
            v = v.reshape(-1)[0]
        return v

    def _rec(self, label, ok, margin=0.0, detail=""):
        if ok:
            self.passed += 1
        else:
            self.fails.append([label, float(margin), detail])

    def check(self, label, cond):
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        self._rec(label, bool(cond), 1.0, "condition is false")

    def eq(self, label, a, b, tol=1e-6, scale=None, rtol=None):
        a, b = self.scal(a), self.scal(b)
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            self._rec(label, a == b, 1.0, f"{a!r} vs {b!r}")
            return
        if self.err == math.inf or (math.isfinite(a) and math.isfinite(b) and
                                    self.err > 1e-3*max(abs(a), abs(b))):
            self.passed += 1        # no usable numeric derivative: no verdict
            return
        if not (math.isfinite(a) and math.isfinite(b)):
            ok = a == b or (a != a and b != b)
            self._rec(label, ok, 1.0, f"{a!r} vs {b!r}")
            return
        d = abs(a - b)
        if scale is not None:
            m = max(abs(float(scale() if callable(scale) else scale)),
                    abs(a), abs(b))
        else:
            m = max(abs(a), abs(b))
        lim = max(tol, 2e-6)*m + 20*self.err + 1e-14
        self._rec(label, d <= lim, d/(m + 1e-300), f"{a!r} vs {b!r}")

    def le(self, label, a, b, slack=0.0):
        a, b = float(self.scal(a)), float(self.scal(b))
        m = max(abs(a), abs(b))
        ok = a <= b + slack + 1e-9*m
        self._rec(label, ok, (a-b)/(m + 1e-300), f"{a!r} <= {b!r}")

    def lt(self, label, a, b, slack=0.0):
        a, b = float(self.scal(a)), float(self.scal(b))
        m = max(abs(a), abs(b))
        ok = a < b + slack + 1e-12*m
        self._rec(label, ok, (a-b)/(m + 1e-300), f"{a!r} < {b!r}")

    def raises(self, exc, fn):
        try:
            fn()
        except exc:
            return True
        return False

    def cleanup(self):
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None


def _flat(v):
    if isinstance(v, np.ndarray):
        return list(v.ravel())
    if isinstance(v, (list, tuple)):
        return list(v)
    return [v]


def where(tb):
    out = []
    for fr in traceback.extract_tb(tb)[-4:]:
        out.append(f"{os.path.basename(fr.filename)}:{fr.lineno}")
    return " < ".join(reversed(out))


def run_one(driver, wit, tier, search=None):
    """-> dict(status, fails, observed)"""
    HANDLERS.clear()
    RECORD.clear()
    env = ConEnv(wit, tier, search)
    exc = None
    status = "ok"
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            driver(env, **wit["params"])
    except (Skip, Unmodelled):
        status = "skip"
    except Exception as e:
        status = "exception"
        exc = f"{type(e).__name__}: {e} at {where(e.__traceback__)}"
    finally:
        env.cleanup()
        HANDLERS.clear()
        RECORD.clear()
    r = dict(status=status, fails=env.fails, passed=env.passed,
             observed=env.observed, exc=exc)
    if search is not None and status != "skip":
        r["inputs"] = {k: env.draw(k, "real") for k in env.ranges
                       if isinstance(k, str)}
    return r


def main():
    req = json.load(sys.stdin)
    install()
    sys.path.insert(0, os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    mod = importlib.import_module("checks." + req["module"])
    out = []
    for item in req["items"]:
        drv = getattr(mod, item["driver"])
        if "search" in item:
            best = None
            for k in range(item["search"]):
                r = run_one(drv, item["wit"], req.get("tier", "quick"),
                            search=k + 1)
                r["k"] = k + 1
                if r["status"] == "exception" or any(
                        f[0] == item["label"] and f[1] > 1e-4
                        for f in r["fails"]):
                    best = r
                    break
            out.append(best or dict(status="notfound", fails=[], observed=[],
                                    exc=None))
        else:
            out.append(run_one(drv, item["wit"], req.get("tier", "quick"),
                               search=item.get("k")))
    sys.stdout.write("\n@@RESULT@@" + json.dumps(out))


if __name__ == "__main__":
    main()
