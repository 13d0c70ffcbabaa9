"""Path exploration, obligations and solver queries."""
from __future__ import annotations

import hashlib
from fractions import Fraction
import os
import time
import traceback

import numpy as np
import z3

from . import expr as X
from . import values as V
from . import shim
from . import stubs
from .env import Result, Stub, Unmodelled
from .values import SymBool, SymReal, SymArray, negate

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NSAMP = 96


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.feas_queries = 0
        self.unknown = 0
        self.branches = 0
        self.by_sample = 0


def rng_for(*key):
    h = hashlib.sha256(repr((SEED,) + key).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


class Samples:
    """Deterministic numeric points for the free variables of a driver."""

    def __init__(self, n=NSAMP, salt=0):
        self.n = n
        self.salt = salt
        self.memo = {}
        self.vals = {}
        self.spec = {}      # var name or family key -> (lo, hi)

    def draw(self, key, spec):
        if key not in self.vals:
            r = rng_for("smp", self.salt, key)
            lo, hi = spec
            if lo is not None and hi is not None:
                if lo > 0 and hi/lo > 50:
                    v = np.exp(r.uniform(np.log(lo), np.log(hi), self.n))
                else:
                    v = r.uniform(lo, hi, self.n)
            elif lo is not None:
                v = lo + np.exp(r.uniform(-4, 4, self.n))
            elif hi is not None:
                v = hi - np.exp(r.uniform(-4, 4, self.n))
            else:
                v = np.exp(r.uniform(-3, 3, self.n))*r.choice([-1, 1], self.n)
            self.vals[key] = v
        return self.vals[key]

    def value(self, node, arg=None):
        if node.op == "var":
            return self.draw(node.data, RANGES.get(node.data, (None, None)))
        key = (node.op,) + tuple(node.data)
        return self.draw((key, node.uid), RANGES.get(key, (None, None)))

    def ev(self, nodes):
        return X.evaluate(nodes, self.value, self.memo)


RANGES: dict = {}        # var name / ("fn", fam, k) / ("state", fam, i)
OPENS: dict = {}         # same key -> (lo_open, hi_open)


def set_range(key, lo, hi, lo_open=True, hi_open=False):
    RANGES[key] = (lo, hi)
    OPENS[key] = (lo_open, hi_open)
    s = None
    if lo is not None and lo >= 0:
        s = 1 if (lo > 0 or lo_open) else 2
    elif hi is not None and hi <= 0:
        s = -1 if (hi < 0 or hi_open) else -2
    X.VAR_SIGN[key] = s


def range_constraints(leaves):
    out = []
    for n in leaves:
        key = n.data if n.op == "var" else (n.op,) + tuple(n.data) \
            if n.op in ("fn", "state") else None
        if key is None or key not in RANGES:
            continue
        lo, hi = RANGES[key]
        lo_o, hi_o = OPENS[key]
        z = X.to_z3(n)
        if lo is not None:
            b = X.zval(X.const(lo).data)
            out.append(z > b if lo_o else z >= b)
        if hi is not None:
            b = X.zval(X.const(hi).data)
            out.append(z < b if hi_o else z <= b)
    return out


def is_lin(n):
    return n.op in ("const", "var")


# --------------------------------------------------------------------------
# queries
# --------------------------------------------------------------------------
def _nodes_of(forms):
    ns = []
    for f in forms:
        V.fnodes(f, ns)
    return ns


def slice_pcs(goal_leaves, pcs):
    """Path conditions connected to the goal through shared leaves."""
    info = []
    for f in pcs:
        info.append((f, {l.uid for l in X.leaves(V.fnodes(f))}))
    have = set(goal_leaves)
    changed = True
    used = [False]*len(info)
    while changed:
        changed = False
        for i, (f, s) in enumerate(info):
            if not used[i] and s & have:
                used[i] = True
                if not s <= have:
                    have |= s
                changed = True
    return [f for i, (f, s) in enumerate(info) if used[i]]


def thresholds(forms):
    """Constants single variables are compared with, including their ranges."""
    pts = {}

    def walk(f):
        if f.op in ("and", "or"):
            walk(f.a)
            walk(f.b)
            return
        if f.op == "const":
            return
        try:
            r = X.rat(X.sub(f.a, f.b))
        except X.TooBig:
            return
        if r.den or len(r.num) > 2:
            return
        k = [m for m in r.num if m != ()]
        if len(k) == 1 and len(k[0]) == 1 and k[0][0][1] == 1:
            n = X._symnode[k[0][0][0]]
            if n.op == "var":
                pts.setdefault(n.data, set()).add(
                    -r.num.get((), Fraction(0))/r.num[k[0]])
    for f in forms:
        walk(f)
    for l in X.leaves(_nodes_of(forms)):
        if l.op == "var" and l.data in RANGES:
            for b in RANGES[l.data]:
                if b is not None:
                    pts.setdefault(l.data, set()).add(X.const(b).data)
    return {v: sorted(p)[:12] for v, p in pts.items()}


def anchor_axioms(forms, points=None):
    lv = X.leaves(_nodes_of(forms))
    if not any(n.op in ("pow", "exp", "ln") for n in lv):
        return []
    pts = thresholds(forms)
    for v, p in (points or {}).items():
        pts[v] = sorted(set(pts.get(v, ())) | set(p))
    return X.anchors(lv, pts) + X.pairs(lv)


def solve(forms, stats, timeout_ms, tactic=None, rich=True, extra=()):
    """-> ('sat', model) | ('unsat', None) | ('unknown', None)"""
    nodes = _nodes_of(forms)
    lv = X.leaves(nodes)
    cons = range_constraints(lv) + X.axioms(lv, rich) + \
        [V.fz3(f) for f in forms] + list(extra)
    t = time.time()
    stats.queries += 1
    try:
        if tactic == "nlsat":
            s = z3.Then("simplify", "purify-arith", "elim-term-ite",
                        "solve-eqs", "simplify", "tseitin-cnf",
                        "qfnra-nlsat").solver()
        elif tactic == "smt":
            s = z3.SimpleSolver()
        else:
            s = z3.Solver()
        s.set("timeout", int(timeout_ms))
        s.add(*cons)
        r = s.check()
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            return "sat", s.model()
        return "unknown", None
    except z3.Z3Exception:
        return "unknown", None
    finally:
        stats.solver_s += time.time() - t


def zfrac(v):
    if v is None:
        return None
    if z3.is_rational_value(v):
        return float(v.numerator_as_long())/float(v.denominator_as_long()) \
            if abs(v.denominator_as_long()) < 10**300 else float(v.as_fraction())
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return float(a.as_fraction())
    return None


# --------------------------------------------------------------------------
class Obligation:
    __slots__ = ("label", "f", "npc", "eq", "tol", "scale", "path")

    def __init__(self, label, f, npc, eq=None, tol=1e-6, scale=None):
        self.label = label
        self.f = f
        self.npc = npc
        self.eq = eq
        self.tol = tol
        self.scale = scale


ALL_SIGNS = frozenset((-1, 0, 1))
TRUE_SIGNS = {"<": frozenset((-1,)), "<=": frozenset((-1, 0)),
              ">": frozenset((1,)), ">=": frozenset((0, 1)),
              "==": frozenset((0,)), "!=": frozenset((-1, 1))}


class Ctx:
    def __init__(self, prefix, job):
        self.prefix = prefix
        self.job = job
        self.pos = 0
        self.dec = []
        self.pcs = []
        self.pending = []
        self.alive = np.ones(job.samples.n, dtype=bool)
        self.obls = []
        self.observed = []
        self.choices = []
        self.inputs = []
        self.fams = {}
        self.pos_cache = {}
        self.known = {}
        self.frozen = False

    # -- deciding
    def known_sign(self, f):
        """(key, signs of the normalised difference for which f holds)."""
        if f.op not in TRUE_SIGNS:
            return None, None
        try:
            r = X.rat(X.sub(f.a, f.b))
        except X.TooBig:
            return None, None
        if r.is_zero():
            return None, None
        lead, facs = X._fac(r.num)
        key = (tuple(sorted(facs.items())), tuple(sorted(r.den.items())))
        t = TRUE_SIGNS[f.op]
        return key, (t if lead > 0 else frozenset(-s for s in t))

    def branch(self, f):
        d = V.fdecide(f)
        if d is not None:
            return d
        key, true = self.known_sign(f)
        if key is not None:
            seen = self.known.get(key, ALL_SIGNS)
            if seen <= true:
                return True
            if not seen & true:
                return False
        st = self.job.stats
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
        else:
            st.branches += 1
            t, fl = V.feval(f, self.job.samples.ev, 1e-9)
            tf = bool(np.any(self.alive & t))
            ff = bool(np.any(self.alive & fl))
            if tf:
                st.by_sample += 1
            if not tf:
                tf = self.feasible(f)
            if not ff:
                ff = self.feasible(negate(f)) if tf else True
            if tf and ff:
                self.job.push(self.dec + [False])
                val = True
            elif tf:
                val = True
            elif ff:
                val = False
            else:
                raise V.Infeasible()
        self.pos += 1
        self.dec.append(val)
        self.assert_(f if val else negate(f))
        if key is not None:
            self.known[key] = seen & (true if val else ALL_SIGNS - true)
        return val

    def assert_(self, f):
        self.pcs.append(f)
        t, _ = V.feval(f, self.job.samples.ev, 1e-9)
        self.alive = self.alive & t

    def choose(self, n):
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
        else:
            for k in range(n-1, 0, -1):
                self.job.push(self.dec + [k])
            val = 0
        self.pos += 1
        self.dec.append(val)
        return val

    def feasible(self, f):
        self.job.stats.feas_queries += 1
        lv = {l.uid for l in X.leaves(V.fnodes(f))}
        pcs = slice_pcs(lv, self.pcs)
        r, _ = solve(pcs + [f], self.job.stats, self.job.feas_ms, "nlsat")
        if r == "unknown":
            r, _ = solve(pcs + [f], self.job.stats, self.job.feas_ms, "smt",
                         rich=False)
        if r != "unsat":
            an = anchor_axioms(pcs + [f])
            if an:
                r2, _ = solve(pcs + [f], self.job.stats, self.job.feas_ms,
                              "nlsat", extra=an)
                if r2 == "unsat":
                    return False
        if r == "unknown":
            self.job.stats.unknown += 1
        return r != "unsat"

    def need(self, f, what):
        d = V.fdecide(f)
        if d is True:
            return
        if d is False or not self.branch(f):
            raise V.DomainEvent(what)

    def is_pos(self, n):
        s = X.sign(n)
        if s is not None:
            return s == 1
        c = X.constant_value(n)
        if c is not None:
            return c > 0
        key = (n.uid, len(self.pcs))
        if key in self.pos_cache:
            return self.pos_cache[key]
        t, fl = V.feval(SymBool(">", n, X.const(0)), self.job.samples.ev, 1e-9)
        if np.any(self.alive & fl):
            r = False
        else:
            f = SymBool("<=", n, X.const(0))
            lv = {l.uid for l in X.leaves([n])}
            q, _ = solve(slice_pcs(lv, self.pcs) + [f], self.job.stats, 700,
                         "nlsat")
            r = q == "unsat"
        self.pos_cache[key] = r
        return r


# --------------------------------------------------------------------------
class SymEnv:
    """Driver interface, symbolic mode."""
    symbolic = True

    def __init__(self, ctx, params):
        self.ctx = ctx
        self.params = params
        self.tier = ctx.job.tier
        self.loader = ctx.job.loader
        self.np = shim.np
        self._fam_id = 0

    # inputs
    def real(self, name, lo=None, hi=None, lo_open=True, hi_open=False,
             digits=None):
        set_range(name, lo, hi, lo_open, hi_open)
        n = X.var(name)
        X.rat(n)
        if name not in self.ctx.inputs:
            self.ctx.inputs.append(name)
        return SymReal(n)

    def choice(self, name, options):
        options = list(options)
        k = self.ctx.choose(len(options)) if len(options) > 1 else 0
        self.ctx.choices.append((name, k))
        return options[k]

    def func(self, name, lo=None, hi=None, lo_open=True, derivs=4,
             as_kind="scalar"):
        fam = SymFn(name)
        set_range(("fn", name, 0), lo, hi, lo_open)
        return fam

    def fn_range(self, name, order, lo=None, hi=None, lo_open=True):
        set_range(("fn", name, order), lo, hi, lo_open)

    def rate(self, fun, x, y):
        """fun(x, y) as a list of scalars (y: list of scalars)."""
        return flat(fun(x, V.symarray(list(y))))

    def result(self, **k):
        return Result(**k)

    def soft(self, fn):
        """Numeric slack that only the floating-point replay needs."""
        return 0

    def token(self, x):
        """Text of a number inside a file."""
        if not isinstance(x, SymReal):
            return repr(float(x))
        k = len(shim.TOKENS)
        t = f"8{k:04d}.{k % 100:02d}"       # eight characters, a valid number
        shim.TOKENS[t] = x
        return t

    def file(self, name, lines):
        shim.ENVIRON.setdefault("files", {})[name] = lines
        return name

    def resources(self, table):
        stubs.HANDLERS["files"] = lambda pkg: shim.PathStub("", table)

    def array(self, seq):
        return V.symarray(list(seq))

    def mod(self, name):
        return self.loader.load(name)

    def assume(self, cond):
        if not bool(cond):
            raise V.Infeasible()

    # stubs
    def stub(self, name, handler):
        stubs.HANDLERS[name] = handler

    def handler(self, name):
        return stubs.HANDLERS[name]

    def numerics(self):
        """(function, options) of every numerical routine called so far."""
        return list(stubs.RECORD)

    def ivp_family(self, name="Y", ranges=(), result=None):
        """Handler: every solve succeeds; the solution is an arbitrary function
        obeying the rate function.  Returns the list of captured calls."""
        calls = []

        def handler(call):
            calls.append(call)
            fname = f"{name}{len(calls)-1}"
            n = len(call.y0)
            for i in range(n):
                lo, hi = (ranges[i] if i < len(ranges) else (None, None))
                set_range(("state", fname, i), lo, hi)
            sol = SymSol(fname, n, call.fun, self.ctx, call.t0, call.t1)
            self.ctx.fams[fname] = sol
            call.sol = sol
            return Result(success=True, status=0, message="ok",
                          t=V.symarray([call.t0, call.t1]),
                          lazy_y=lambda: sol(V.symarray([call.t0, call.t1])),
                          sol=sol,
                          t_events=[V.symarray([]) for _ in call.events],
                          y_events=None, nfev=0)
        stubs.HANDLERS["solve_ivp"] = handler
        return calls

    def diff(self, fn, x):
        v = fn(x)
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise V.Unsupported("derivative of an array")
            v = v.item()
        node = V.lift(v)
        xn = V.lift(x)
        assert xn.op == "var", "differentiate with respect to an input"
        return SymReal(X.diff(node, xn, self._state_deriv))

    def _state_deriv(self, fname, idx, arg):
        sol = self.ctx.fams[fname]
        return V.lift(sol.rate(SymReal(arg))[idx])

    # results
    def observe(self, name, value):
        if isinstance(value, np.ndarray):
            if value.ndim == 0:
                value = value.item()
            else:
                for i, e in enumerate(value.flat):
                    self.observe(f"{name}[{i}]", e)
                return
        if isinstance(value, (SymReal, int, float, np.floating)) \
                and not isinstance(value, bool):
            n = V.lift(value)
            if n is not None:
                self.ctx.observed.append((name, n))

    def scal(self, v):
        """Single number out of a 0-d / 1-element array result."""
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise V.Unsupported(f"expected a scalar, got shape {v.shape}")
            v = v.item()
        return v

    def check(self, label, cond):
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        f = V.tobool(cond)
        self.ctx.obls.append(Obligation(label, f, len(self.ctx.pcs)))

    def eq(self, label, a, b, tol=1e-6, scale=None, rtol=None):
        a, b = self.scal(a), self.scal(b)
        na, nb = V.lift(a), V.lift(b)
        if na is None or nb is None:
            ok = (na is None and nb is None and
                  (a == b or (a != a and b != b)))
            self.check(label, bool(ok))
            return
        if callable(scale):
            scale = None
        o = Obligation(label, SymBool("==", na, nb), len(self.ctx.pcs),
                       eq=(na, nb), tol=tol,
                       scale=None if scale is None else V.lift(scale))
        self.ctx.obls.append(o)

    def le(self, label, a, b, slack=0.0):
        self.check(label, _le(self.scal(a), self.scal(b), slack))

    def lt(self, label, a, b, slack=0.0):
        r = self.scal(a) - slack < self.scal(b)
        self.check(label, r)

    def raises(self, exc, fn):
        """True when fn() raises exc; other exceptions propagate."""
        try:
            fn()
        except exc:
            return True
        return False

    def fval(self, x):
        return x


def with_margin(f, mg):
    """f with every strict comparison holding by a relative margin."""
    if f.op in ("and", "or"):
        return SymBool(f.op, with_margin(f.a, mg), with_margin(f.b, mg))
    if f.op == "!=":
        return SymBool("or", with_margin(SymBool("<", f.a, f.b), mg),
                       with_margin(SymBool(">", f.a, f.b), mg))
    if f.op not in ("<", ">"):
        return f
    a, b = (f.a, f.b) if f.op == ">" else (f.b, f.a)
    d = X.sub(a, b)
    r = None
    for s in (a, X.neg(a), b, X.neg(b)):
        t = SymBool(">", d, X.mul(mg, s))
        r = t if r is None else SymBool("and", r, t)
    return r


def _le(a, b, slack):
    return a - slack <= b


class SymFn:
    """Arbitrary smooth function family; .d(k) is its k-th derivative."""

    def __init__(self, name, order=0):
        self.name = name
        self.order = order

    def _one(self, x):
        n = V.lift(x)
        if n is None:
            raise V.Unsupported("function family at a non-finite point")
        if self.order:
            set_range_default(("fn", self.name, self.order))
        return SymReal(X.mk_fn(self.name, self.order, n))

    def __call__(self, x):
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return self._one(x.item())
        if isinstance(x, (np.ndarray, list)):
            x = np.asarray(x, dtype=object)
            r = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                r[i] = self._one(x[i])
            return r.view(SymArray)
        return self._one(x)

    def d(self, k=1):
        return SymFn(self.name, self.order + k)


def set_range_default(key):
    if key not in RANGES:
        set_range(key, None, None)


class SymSol(Stub):
    """Dense output of an arbitrary solution of the ODE."""

    def __init__(self, name, n, fun, ctx, t0=None, t1=None):
        if t0 is not None:
            self.t_min, self.t_max = t0, t1
            self.ts = V.symarray([t0, t1])
        self.name = name
        self.n = n
        self.fun = fun
        self.ctx = ctx
        self._rates = {}

    def state(self, x):
        n = V.lift(x)
        if n is None:
            raise V.Unsupported("solution at a non-finite point")
        return [SymReal(X.mk_state(self.name, i, n)) for i in range(self.n)]

    def __call__(self, x):
        if isinstance(x, np.ndarray) and x.ndim == 0:
            x = x.item()
        if isinstance(x, (np.ndarray, list)):
            x = np.asarray(x, dtype=object)
            cols = [self.state(e) for e in x]
            r = np.empty((self.n, len(cols)), dtype=object)
            for j, c in enumerate(cols):
                for i in range(self.n):
                    r[i, j] = c[i]
            return r.view(SymArray)
        return V.symarray(self.state(x))

    def rate(self, x):
        key = V.lift(x).uid
        if key not in self._rates:
            self._rates[key] = flat(self.fun(x, V.symarray(self.state(x))))
        return self._rates[key]


def flat(v):
    if isinstance(v, np.ndarray):
        return [e for e in v.flat]
    if isinstance(v, (list, tuple)):
        return [flat(e)[0] if isinstance(e, np.ndarray) else e for e in v]
    return [v]


# --------------------------------------------------------------------------
class Job:
    """Exploration of one driver with one parameter set."""

    def __init__(self, driver, params, tier="quick", max_paths=4000,
                 time_s=600.0, feas_ms=1500, query_ms=20000, known=()):
        self.driver = driver
        self.params = params
        self.tier = tier
        self.max_paths = max_paths
        self.deadline = time.time() + time_s
        self.feas_ms = feas_ms
        self.query_ms = query_ms
        self.stats = Stats()
        self.work = []
        self.paths = 0
        self.infeasible = 0
        self.transitions = 0
        self.obl_total = 0
        self.obl_unsat = 0
        self.obl_tol = 0
        self.candidates = []       # dicts: label, witnesses...
        self.inconclusive = []
        self.witnesses = []
        self.unwitnessed = 0
        self.labels = {}
        self.functions = set()
        self.outcomes = {}
        self.clear = {}
        self.known = set(known)

    def push(self, prefix):
        self.work.append(prefix)

    # ------------------------------------------------------------------
    def run(self):
        X.reset()
        RANGES.clear()
        OPENS.clear()
        X.VAR_SIGN.clear()
        self.samples = Samples()
        shim.install_proxies()
        self.loader = shim.Loader()
        self.work = [[]]
        cut = False
        import sys
        sys.setrecursionlimit(20000)
        while self.work:
            if self.paths >= self.max_paths or time.time() > self.deadline:
                self.inconclusive.append(
                    f"exploration limit: {self.paths} paths done, "
                    f"{len(self.work)} prefixes pending")
                break
            prefix = self.work.pop()
            self.run_path(prefix)
            if not cut and any(c["kind"] != "domain" and
                               c["label"] not in self.known
                               for c in self.candidates):
                # something failed: a little more to see what else does
                self.deadline = min(self.deadline, time.time() + 60)
                cut = True
        return self

    def run_path(self, prefix):
        ctx = Ctx(prefix, self)
        V.CTX = ctx
        shim.TOKENS.clear()
        shim.ENVIRON.clear()
        stubs.HANDLERS.clear()
        stubs.RECORD.clear()
        env = SymEnv(ctx, self.params)
        outcome = "ok"
        detail = ""
        import warnings
        import sys
        old = sys.getprofile()
        sys.setprofile(self._prof)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.driver(env, **self.params)
        except V.Infeasible:
            self.infeasible += 1
            return
        except V.DomainEvent as e:
            outcome, detail = "domain", e.what
        except (V.Unsupported, Unmodelled) as e:
            outcome, detail = "unsupported", f"{e} at {tb_where()}"
        except RecursionError as e:
            outcome, detail = "unsupported", "recursion"
        except Exception as e:        # the code under check raised
            outcome = "exception"
            detail = f"{type(e).__name__}: {e} at {tb_where()}"
        finally:
            sys.setprofile(old)
        self.paths += 1
        self.transitions += len(ctx.dec)
        self.outcomes[outcome] = self.outcomes.get(outcome, 0) + 1
        wit = self.witness(ctx)
        if outcome != "ok":
            if outcome == "unsupported":
                self.inconclusive.append("unsupported: " + detail)
            cands = [wit] if wit is not None else []
            cands += self.more_witnesses(ctx, None, 4)
            self.candidates.append(dict(
                label=outcome + ": " + detail, kind=outcome,
                witnesses=cands, choices=ctx.choices))
        if wit is None:
            self.unwitnessed += 1
        else:
            self.witnesses.append(wit)
        for o in ctx.obls:
            self.discharge(ctx, o, wit)

    def _prof(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(shim.REPO + "/"):
                self.functions.add(
                    f"{os.path.relpath(co.co_filename, shim.REPO)}:"
                    f"{co.co_qualname}")

    # ------------------------------------------------------------------
    def discharge(self, ctx, o, wit):
        self.obl_total += 1
        lab = self.labels.setdefault(o.label, [0, 0])
        lab[0] += 1
        pcs = ctx.pcs[:o.npc]
        res, how = self.decide(pcs, o)
        if res == "holds":
            self.obl_unsat += 1
            lab[1] += 1
            if how == "tol":
                self.obl_tol += 1
            return
        cands = []
        # concretise: sample points first, then the solver's model
        bad = self.bad_formula(o)
        cands += self.sample_witnesses(ctx, pcs, bad, 4)
        if res == "sat":
            w = self.model_witness(ctx, how)
            if w is not None:
                cands.append(w)
            cands += self.clear_witnesses(ctx, o, pcs)
        cands += self.more_witnesses(ctx, bad, 4, pcs=pcs)
        self.candidates.append(dict(label=o.label, kind=res, witnesses=cands,
                                    choices=ctx.choices,
                                    formula=V.fshow(o.f)[:400]))

    def clear_witnesses(self, ctx, o, pcs):
        """Models that violate the obligation by a clear margin, so that the
        floating-point replay can see it."""
        n = self.clear.get(o.label, 0)
        if n >= 3:
            return []
        self.clear[o.label] = n + 1
        neg = negate(o.f)
        lv = {l.uid for l in X.leaves(V.fnodes(neg))}
        sl = slice_pcs(lv, pcs)
        out = []
        for mg in ("1/3", "1/100", "1/10000"):
            f = with_margin(neg, X.const(Fraction(mg)))
            for tac in ("nlsat", "smt"):
                r, m = solve(sl + [f], self.stats, 3000, tac)
                if r != "unknown":
                    break
            if r == "sat":
                # values of unrelated inputs from the whole path condition
                r2, m2 = solve(pcs + [f], self.stats, 3000, "nlsat")
                w = self.model_witness(ctx, m2 if r2 == "sat" else m)
                if w is not None:
                    out.append(w)
                    break
        return out

    def bad_formula(self, o):
        return negate(o.f)

    def decide(self, pcs, o):
        """('holds', how) | ('sat', model) | ('unknown', None)"""
        f = o.f
        d = V.fdecide(f)
        if d is True:
            # solver confirmation of the normalised (trivial) query
            r, m = solve([negate(self.normal(f))], self.stats, 2000)
            if r == "unsat":
                return "holds", "exact"
        neg = self.normal(negate(f))
        lv = {l.uid for l in X.leaves(V.fnodes(neg))}
        sl = slice_pcs(lv, pcs)
        # quick refutation by samples: go straight to the sat query
        q = self.query_ms
        plan = [(sl, "nlsat", True, q//4), (sl, "smt", True, q//4),
                ([], "nlsat", False, q//4), (sl, "nlsat", False, q//2),
                (sl, "nlsat", True, q)]
        last = "unknown", None
        for p, tac, rich, ms in plan:
            r, m = solve(p + [neg], self.stats, ms, tac, rich)
            if r == "unsat":
                return "holds", "exact"
            if r == "sat" and rich and p is sl:
                last = ("sat", m)
                break
        an = anchor_axioms(sl + [neg])
        if an:
            for tac, ms in (("nlsat", q//4), ("smt", q//4), ("nlsat", q)):
                r, m = solve(sl + [neg], self.stats, ms, tac, extra=an)
                if r == "unsat":
                    return "holds", "exact"
                if r == "sat":
                    last = ("sat", m)
                    break
        if o.eq is not None:
            tolf = self.tolerance(o)
            for tac, rich, ms in (("nlsat", True, q//4), ("smt", True, q//4),
                                  ("nlsat", True, q)):
                r, m = solve(sl + [tolf], self.stats, ms, tac, rich,
                             extra=an)
                if r == "unsat":
                    return "holds", "tol"
                if r == "sat":
                    return "sat", m
        if last[0] == "unknown":
            self.stats.unknown += 1
        return last

    def tolerance(self, o):
        """Formula: the two sides differ by more than the tolerance."""
        a, b = o.eq
        t = X.const(o.tol)
        d = X.sub(a, b)
        try:
            d = X.from_rat(X.rat(d))
        except X.TooBig:
            pass
        if o.scale is not None:
            m = X.mul(t, o.scale)
            return SymBool("or", SymBool(">", d, m),
                           SymBool("<", d, X.neg(m)))
        # |d| > t*|a|  and |d| > t*|b| (implied by relative difference)
        def absgt(x, y):
            # x > |y|
            return SymBool("and", SymBool(">", x, y),
                           SymBool(">", x, X.neg(y)))
        up = SymBool("and", absgt(d, X.mul(t, a)), absgt(d, X.mul(t, b)))
        nd = X.neg(d)
        dn = SymBool("and", absgt(nd, X.mul(t, a)), absgt(nd, X.mul(t, b)))
        return SymBool("or", up, dn)

    def normal(self, f):
        """Move everything to one side and clear provably signed denominators."""
        if f.op in ("and", "or"):
            return SymBool(f.op, self.normal(f.a), self.normal(f.b))
        if f.op == "const":
            return f
        try:
            r = X.rat(X.sub(f.a, f.b))
        except X.TooBig:
            return f
        num = X.from_poly(r.num)
        if f.op in ("==", "!="):
            # denominators are non-zero on the path (domain conditions)
            return SymBool(f.op, num, X.const(0))
        op = f.op
        flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
        for k, e in r.den.items():
            if e % 2 == 0:
                continue
            fac = X.from_poly(X._factors[k])
            s = X.sign(fac)
            if s == 1:
                continue
            if s == -1:
                op = flip[op]
                continue
            if V.CTX.is_pos(fac):
                continue
            if V.CTX.is_pos(X.neg(fac)):
                op = flip[op]
                continue
            return f
        return SymBool(op, num, X.const(0))

    # ------------------------------------------------------------------
    # witnesses
    # ------------------------------------------------------------------
    def pack(self, ctx, smp, i):
        """Witness record: numbers for every free variable of the path."""
        roots = _nodes_of(ctx.pcs) + [n for _, n in ctx.observed]
        for o in ctx.obls:
            roots += V.fnodes(o.f)
        lv = X.leaves(roots)
        w = dict(params=self.params, choices=list(ctx.choices), inputs={},
                 fns=[], states=[], observed=[])

        def num(n):
            v = smp.ev([n])[0]
            return float(v if np.ndim(v) == 0 else v[i])
        names = set(ctx.inputs)
        for nm in ctx.inputs:
            w["inputs"][nm] = num(X.var(nm))
        for n in lv:
            if n.op == "var" and n.data not in names:
                w["inputs"][n.data] = num(n)
            elif n.op == "fn":
                w["fns"].append([n.data[0], n.data[1], num(n.args[0]), num(n)])
            elif n.op == "state":
                w["states"].append([n.data[0], n.data[1], num(n.args[0]),
                                    num(n)])
        for nm, n in ctx.observed:
            w["observed"].append([nm, num(n)])
        return w

    def sample_witnesses(self, ctx, pcs, bad, k, smp=None, margin=1e-4):
        smp = smp or self.samples
        ok = np.ones(smp.n, dtype=bool)
        for f in pcs:
            t, _ = V.feval(f, smp.ev, 1e-9)
            ok = ok & t
        if bad is not None:
            for mg in (margin, 1e-6):
                t, _ = V.feval(bad, smp.ev, mg)
                o2 = ok & t
                if np.any(o2):
                    break
            ok = o2
        idx = np.nonzero(ok)[0][:k]
        return [self.pack(ctx, smp, int(i)) for i in idx]

    def more_witnesses(self, ctx, bad, k, pcs=None):
        """Denser resampling when the standing samples give nothing."""
        pcs = ctx.pcs if pcs is None else pcs
        out = []
        for salt in (1, 2):
            smp = Samples(6000, salt)
            try:
                out += self.sample_witnesses(ctx, pcs, bad, k, smp)
            except MemoryError:
                break
            if out:
                break
        return out

    def witness(self, ctx):
        ws = self.sample_witnesses(ctx, ctx.pcs, None, 1)
        if ws:
            return ws[0]
        # solver model of the path condition
        for tac in ("nlsat", "smt"):
            r, m = solve(ctx.pcs, self.stats, 4000, tac)
            if r == "sat":
                return self.model_witness(ctx, m, check=True)
            if r == "unsat":
                return None
        return None

    def model_witness(self, ctx, model, check=False):
        class M(Samples):
            pass
        smp = M(1)
        job = self

        def value(node, arg=None):
            v = model.eval(X.to_z3(node), model_completion=False)
            x = zfrac(v) if v is not None else None
            if x is None:
                key = node.data if node.op == "var" else \
                    (node.op,) + tuple(node.data)
                lo, hi = RANGES.get(key, (None, None))
                if lo is not None and hi is not None:
                    x = 0.5*(lo + hi)
                elif lo is not None:
                    x = lo + 1.0
                elif hi is not None:
                    x = hi - 1.0
                else:
                    x = 0.5
            return np.array([x])
        smp.value = value
        if check:
            for f in ctx.pcs:
                t, fl = V.feval(f, smp.ev, 0.0)
                if np.all(fl):
                    # rounding at equality is tolerated
                    t2, f2 = V.feval(f, smp.ev, 1e-9)
                    if np.all(f2):
                        return None
        try:
            return self.pack(ctx, smp, 0)
        except Exception:
            return None


def tb_where():
    import sys
    tb = sys.exc_info()[2]
    out = []
    for fr in traceback.extract_tb(tb)[-4:]:
        out.append(f"{os.path.basename(fr.filename)}:{fr.lineno}")
    return " < ".join(reversed(out))
