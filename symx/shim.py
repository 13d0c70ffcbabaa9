"""
Loads the real sources of the package under check into a private namespace in
which numpy, math, scipy and a few builtins are replaced by versions that
accept symbolic values.  Nothing of the package itself is rewritten: the module
text is read from the working tree, compiled and executed as it is.
"""
from __future__ import annotations

import builtins
import importlib
import math as _math
import numbers
import pathlib
import os
import sys
import types

import numpy as _np

from .env import Stub
from . import expr as X
from . import values as V
from .values import SymReal, SymBool, SymArray, symarray, issym

REPO = os.environ.get("SYMX_REPO", "/repo")
PKG = "ibl"

TOKENS: dict = {}       # placeholder text -> SymReal
ENVIRON: dict = {}      # stubs installed by the current driver


# --------------------------------------------------------------------------
# builtins
# --------------------------------------------------------------------------
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, SymReal))

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.float) or o is SymReal

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


def to_float(x=0.0):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymBool):
        return 1.0 if x else 0.0
    if isinstance(x, _np.ndarray) and x.size == 1:
        e = x.item()
        return e if isinstance(e, SymReal) else builtins.float(e)
    if isinstance(x, str):
        t = TOKENS.get(x.strip())
        if t is not None:
            return t
    return builtins.float(x)


class FloatShim(metaclass=_FloatMeta):
    _symx_float = True

    def __new__(cls, x=0.0):
        return to_float(x)

    fromhex = staticmethod(builtins.float.fromhex)


_FLOATLIKE = (builtins.float, _np.floating, _np.float64, numbers.Number,
              numbers.Real, numbers.Complex, _np.number, _np.generic)


def _isinstance(o, cls):
    if isinstance(o, SymReal):
        cl = cls if isinstance(cls, tuple) else (cls,)
        for c in cl:
            if isinstance(c, tuple):
                if _isinstance(o, c):
                    return True
            elif c is FloatShim or c in _FLOATLIKE or c is object:
                return True
            elif c is SymReal:
                return True
        return False
    if cls is FloatShim:
        cls = builtins.float
    elif isinstance(cls, tuple):
        cls = tuple(builtins.float if c is FloatShim else c for c in cls)
    return isinstance(o, cls)


class OpenStub(Stub):
    """Stands for a text file whose lines may carry placeholder numbers."""

    def __init__(self, lines):
        self.lines = list(lines)
        self.i = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def readlines(self, *a):
        r = self.lines[self.i:]
        self.i = len(self.lines)
        return r

    def readline(self, *a):
        if self.i >= len(self.lines):
            return ""
        self.i += 1
        return self.lines[self.i-1]

    def read(self, *a):
        return "".join(self.readlines())

    def __iter__(self):
        return iter(self.readlines())

    def close(self):
        pass


class PathStub(Stub):
    """importlib.resources traversable over a table of texts."""

    def __init__(self, path, table):
        self.path = path
        self.table = table

    def joinpath(self, *parts):
        p = self.path
        for q in parts:
            p = f"{p}/{q}" if p else str(q)
        return PathStub(p, self.table)

    __truediv__ = joinpath

    def open(self, mode="r", *a, **k):
        if self.path not in self.table:
            raise FileNotFoundError(self.path)
        return OpenStub(self.table[self.path])

    def read_text(self, *a, **k):
        with self.open() as f:
            return f.read()

    @property
    def name(self):
        return self.path.rpartition("/")[2]

    def is_file(self):
        return self.path in self.table

    exists = is_file

    def __str__(self):
        return self.path

    __fspath__ = __str__


def _path(*parts):
    """pathlib.Path over the texts of the driver."""
    files = ENVIRON.get("files")
    if files is None:
        return pathlib.Path(*parts)
    return PathStub("/".join(str(p) for p in parts), files)


def _open(name, *a, **k):
    if isinstance(name, PathStub):
        return name.open()
    f = ENVIRON.get("files", {}).get(str(name))
    if f is not None:
        return OpenStub(f)
    if ENVIRON.get("files") is not None:
        raise FileNotFoundError(str(name))
    return builtins.open(name, *a, **k)


# --------------------------------------------------------------------------
# numpy
# --------------------------------------------------------------------------
def _objarr(x):
    """View/convert to SymArray when the data is float-like or symbolic."""
    if isinstance(x, SymArray):
        return x
    a = x if isinstance(x, _np.ndarray) else None
    if a is None:
        if isinstance(x, SymReal):
            a = _np.empty((), dtype=object)
            a[()] = x
            return a.view(SymArray)
        a = _np.array(x, dtype=object) if V.contains_sym(x) else _np.asarray(x)
    if a.dtype == object:
        return a.view(SymArray)
    if _np.issubdtype(a.dtype, _np.floating):
        return a.astype(object).view(SymArray)
    return a


def _wantfloat(dtype):
    return dtype is None or V.is_float_dtype(dtype)


def _unwrap0(r):
    return r


class _NP(types.ModuleType):
    """Proxy for numpy."""

    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, name):
        return getattr(_np, name)


np = _NP()


def _reg(name):
    def deco(f):
        setattr(np, name, f)
        return f
    return deco


def _array(x, dtype=None, *, copy=True, order=None, subok=False, ndmin=0,
           like=None):
    if dtype is not None and not V.is_float_dtype(dtype):
        if isinstance(x, SymArray) or V.contains_sym(x):
            raise V.Unsupported(f"array of symbolic values with dtype {dtype}")
        return _np.array(x, dtype=dtype, copy=copy, ndmin=ndmin)
    if isinstance(x, SymReal):
        r = _objarr(x)
    elif isinstance(x, _np.ndarray):
        r = x
        if r.dtype == object or _np.issubdtype(r.dtype, _np.floating) \
                or V.is_float_dtype(dtype):
            own = r.dtype == object
            r = (r if own else r.astype(float).astype(object)).view(SymArray)
            if copy and own:
                r = r.copy()
    else:
        if not isinstance(x, (list, tuple, int, float, _np.generic, str)) \
                and hasattr(x, "__iter__") and not hasattr(x, "__array__") \
                and not hasattr(x, "__len__"):
            pass
        if V.is_float_dtype(dtype) and isinstance(x, (list, tuple)) and any(
                isinstance(e, str) for e in x):
            x = [to_float(e) for e in x]
        if V.contains_sym(x):
            r = symarray(_tolist(x))
        else:
            r = _np.array(x)
            if r.dtype != object and (_np.issubdtype(r.dtype, _np.floating)
                                      or V.is_float_dtype(dtype)):
                r = r.astype(float).astype(object).view(SymArray)
            elif r.dtype == object:
                r = r.view(SymArray)
    while r.ndim < ndmin:
        r = r[None]
    return r


def _tolist(x):
    if isinstance(x, (list, tuple)):
        return [_tolist(e) for e in x]
    if isinstance(x, _np.ndarray):
        return x.item() if x.ndim == 0 else [_tolist(e) for e in x]
    return x


np.array = _array
np.asarray = lambda x, dtype=None, order=None, **k: _array(x, dtype, copy=False)
np.asanyarray = np.asarray
np.ascontiguousarray = np.asarray
np.asfarray = lambda x, dtype=float: _array(x, float, copy=False)
np.copy = lambda x, *a, **k: _array(x, None, copy=True)


def _filled(fn):
    def g(shape, *a, dtype=None, **k):
        k.pop("order", None)
        if a and fn in (_np.zeros, _np.ones, _np.empty):
            dtype = a[0]
            a = ()
        if _wantfloat(dtype):
            if fn is _np.full:
                r = _np.empty(shape, dtype=object)
                r.fill(a[0] if a else k["fill_value"])
                v = a[0] if a else k["fill_value"]
                if isinstance(v, _np.ndarray):
                    r[...] = v
                return r.view(SymArray)
            r = _np.empty(shape, dtype=object)
            r.fill({_np.zeros: 0.0, _np.ones: 1.0, _np.empty: _math.nan}[fn])
            return r.view(SymArray)
        return fn(shape, *a, dtype=dtype, **k)
    return g


np.zeros = _filled(_np.zeros)
np.ones = _filled(_np.ones)
np.empty = _filled(_np.empty)
np.full = _filled(_np.full)


def _like(val):
    def g(x, *a, dtype=None, **k):
        v = val if val is not None else (a[0] if a else k.get("fill_value"))
        if val is not None and a:
            dtype = a[0]
        src = _array(x, None, copy=False)
        isint = src.dtype != object and not _np.issubdtype(src.dtype,
                                                          _np.floating)
        if dtype is not None and not V.is_float_dtype(dtype):
            return _np.full_like(_np.asarray(src, dtype=object), v, dtype=dtype)
        if dtype is None and isint:
            return _np.full_like(src, v)
        r = _np.empty(src.shape, dtype=object)
        r.fill(v)
        return r.view(SymArray)
    return g


np.zeros_like = _like(0.0)
np.ones_like = _like(1.0)
np.empty_like = _like(_math.nan)
np.full_like = _like(None)


@_reg("fromiter")
def _fromiter(it, dtype=None, count=-1, **k):
    lst = list(it)
    if count >= 0:
        lst = lst[:count]
    if V.is_float_dtype(dtype) or V.contains_sym(lst):
        r = _np.empty(len(lst), dtype=object)
        for i, e in enumerate(lst):
            r[i] = e
        return r.view(SymArray)
    return _np.array(lst, dtype=dtype)


def _into(g, args, k):
    """A ufunc call with out= and/or where=."""
    out, where = k.pop("out", None), k.pop("where", True)
    if isinstance(out, tuple):
        out = out[0]
    args = [_array(a, copy=False) for a in args]
    shape = _np.broadcast(*[_np.asarray(a, object) for a in args]).shape \
        if out is None else out.shape
    if out is None:
        out = _np.full(shape, _math.nan, dtype=object).view(SymArray)
    if isinstance(where, SymBool):
        where = bool(where)
    sel = _np.broadcast_to(_np.asarray(where).astype(bool), shape)
    bc = [_np.broadcast_to(_np.asarray(a, object), shape) for a in args]
    for i in _np.ndindex(*shape):
        if sel[i]:
            out[i] = g(*[b[i] for b in bc], **k)
    return out


def _wants_into(k):
    return k.get("out") is not None or k.get("where", True) is not True


def _elem(fsym, fnum):
    """Unary elementwise function."""
    def g(x, *a, **k):
        if _wants_into(k):
            if V.contains_sym(x) or _isobj(x) or V.contains_sym(k["out"]) \
                    or _isobj(k["out"]):
                return _into(g, (x,), k)
            return fnum(x, *a, **k)
        if isinstance(x, SymReal):
            return fsym(x)
        if isinstance(x, (list, tuple)):
            x = _array(x)
        if isinstance(x, _np.ndarray) and x.dtype == object:
            r = _np.empty(x.shape, dtype=object)
            for i in _np.ndindex(*x.shape):
                e = x[i]
                if isinstance(e, _np.ndarray):
                    e = e.item()
                r[i] = fsym(e) if isinstance(e, SymReal) else fnum(
                    builtins.float(e))
            return r.item() if r.ndim == 0 else r.view(SymArray)
        if isinstance(x, V.Fraction):
            x = builtins.float(x)
        return fnum(x, *a, **k)
    return g


for _n in ("sqrt", "exp", "log", "log10", "log2", "log1p", "expm1", "cbrt",
           "sin", "cos", "tan", "arctan", "sinh", "cosh", "tanh", "fabs"):
    setattr(np, _n, _elem(lambda x, _n=_n: getattr(x, _n)(), getattr(_np, _n)))
np.abs = np.absolute = _elem(abs, _np.abs)
np.square = _elem(lambda x: x*x, _np.square)
np.exp2 = _elem(lambda x: 2.0**x, _np.exp2)
np.rad2deg = np.degrees = _elem(lambda x: x*(180/_math.pi), _np.rad2deg)
np.deg2rad = np.radians = _elem(lambda x: x*(_math.pi/180), _np.deg2rad)
np.reciprocal = _elem(lambda x: 1/x, _np.reciprocal)
np.negative = _elem(lambda x: -x, _np.negative)


def _pred(fsym, fnum):
    def g(x, *a, **k):
        if isinstance(x, SymReal):
            return fsym(x)
        if isinstance(x, (list, tuple)):
            x = _array(x)
        if isinstance(x, _np.ndarray) and x.dtype == object:
            r = _np.empty(x.shape, dtype=bool)
            for i in _np.ndindex(*x.shape):
                e = x[i]
                r[i] = bool(fsym(e)) if isinstance(e, SymReal) else bool(
                    fnum(builtins.float(e)))
            return r[()] if r.ndim == 0 else r
        return fnum(x, *a, **k)
    return g


np.isnan = _pred(lambda x: False, _np.isnan)
np.isinf = _pred(lambda x: False, _np.isinf)
np.isfinite = _pred(lambda x: True, _np.isfinite)
np.isneginf = _pred(lambda x: False, _np.isneginf)
np.isposinf = _pred(lambda x: False, _np.isposinf)
np.signbit = _pred(lambda x: bool(x < 0), _np.signbit)


def _sgn(x):
    return 1.0 if x > 0 else (-1.0 if x < 0 else 0.0)


np.sign = _elem(_sgn, _np.sign)


def _binary(fsym, fnum):
    def g(a, b, *r, **k):
        if r and r[0] is not None:
            k = dict(k, out=r[0])
        if _wants_into(k) and any(
                V.contains_sym(e) or _isobj(e)
                for e in (a, b, k.get("out"), k.get("where"))
                if e is not None):
            return _into(g, (a, b), k)
        if V.contains_sym(a) or V.contains_sym(b) or _isobj(a) or _isobj(b):
            k.pop("dtype", None)
            a_, b_ = _array(a, copy=False), _array(b, copy=False)
            bc = _np.broadcast(a_, b_)
            out = _np.empty(bc.shape, dtype=object)
            fl = [fsym(x, y) for x, y in
                  _np.broadcast(_np.asarray(a_, object),
                                _np.asarray(b_, object))]
            for i, e in zip(_np.ndindex(*bc.shape), fl):
                out[i] = e
            return out.item() if out.ndim == 0 else out.view(SymArray)
        return fnum(a, b, *r, **k)

    def sweep(x):
        x = _array(x, copy=False)
        if x.ndim != 1 or x.size == 0:
            raise V.Unsupported("ufunc reduction of this shape")
        acc = [x[0]]
        for e in x[1:]:
            acc.append(fsym(acc[-1], e))
        return acc

    def reduce(x, axis=0, **k):
        return sweep(x)[-1] if V.contains_sym(x) or _isobj(x) else \
            fnum.reduce(x, axis, **k)

    def accumulate(x, axis=0, **k):
        return _array(sweep(x)) if V.contains_sym(x) or _isobj(x) else \
            fnum.accumulate(x, axis, **k)
    g.reduce, g.accumulate = reduce, accumulate
    g.outer = fnum.outer
    return g


def _isobj(a):
    return isinstance(a, _np.ndarray) and a.dtype == object


np.maximum = np.fmax = _binary(lambda x, y: x if x >= y else y, _np.maximum)
np.minimum = np.fmin = _binary(lambda x, y: x if x <= y else y, _np.minimum)
np.power = np.float_power = _binary(lambda x, y: x**y, _np.power)
np.add = _binary(lambda x, y: x + y, _np.add)
np.subtract = _binary(lambda x, y: x - y, _np.subtract)
np.multiply = _binary(lambda x, y: x * y, _np.multiply)
np.divide = np.true_divide = _binary(lambda x, y: x / y, _np.divide)
np.hypot = _binary(lambda x, y: np.sqrt(x*x + y*y), _np.hypot)
np.copysign = _binary(lambda x, y: abs(x) if y >= 0 else -abs(x), _np.copysign)
np.heaviside = _binary(lambda x, y: 0.0 if x < 0 else (1.0 if x > 0 else y),
                       _np.heaviside)
for _n, _op in (("less", "__lt__"), ("less_equal", "__le__"),
                ("greater", "__gt__"), ("greater_equal", "__ge__"),
                ("equal", "__eq__"), ("not_equal", "__ne__")):
    def _mk(_n=_n):
        import operator
        op = {"less": operator.lt, "less_equal": operator.le,
              "greater": operator.gt, "greater_equal": operator.ge,
              "equal": operator.eq, "not_equal": operator.ne}[_n]
        f = _binary(lambda x, y: bool(op(x, y)), getattr(_np, _n))

        def g(a, b, *r, **k):
            v = f(a, b, *r, **k)
            return v.astype(bool).view(_np.ndarray) \
                if isinstance(v, SymArray) else v
        return g
    setattr(np, _n, _mk())


@_reg("clip")
def _clip(x, a_min=None, a_max=None, out=None, **k):
    if out is not None:
        out[...] = _clip(x, a_min, a_max, **k)
        return out
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    if not (V.contains_sym(x) or _isobj(x) or V.contains_sym(a_min)
            or V.contains_sym(a_max)):
        return _np.clip(x, a_min, a_max)
    r = x
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    if isinstance(x, (list, tuple)):
        r = _array(r)
    return r


@_reg("where")
def _where(c, *xy):
    if isinstance(c, SymBool):
        c = bool(c)
    c = _np.asarray(c)
    if c.dtype == object:
        c = c.astype(bool)
    if not xy:
        return _np.where(c)
    x, y = xy
    a, b = _array(x, copy=False), _array(y, copy=False)
    r = _np.where(c, _np.asarray(a, object), _np.asarray(b, object))
    if a.dtype != object and b.dtype != object:
        return _np.where(c, a, b)
    return r.view(SymArray)


@_reg("select")
def _select(cl, vl, default=0):
    r = default
    for c, v in reversed(list(zip(cl, vl))):
        r = np.where(c, v, r)
    return r


@_reg("piecewise")
def _piecewise(x, condlist, funclist, *args, **kw):
    x = _array(x, copy=False)
    cl = []
    for c in (condlist if isinstance(condlist, (list, tuple)) else [condlist]):
        if isinstance(c, SymBool):
            c = bool(c)
        if isinstance(c, (list, tuple)):
            c = [bool(e) for e in c]
        cl.append(_np.asarray(c).astype(bool))
    return _np.piecewise(x, cl, funclist, *args, **kw)


@_reg("isclose")
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if V.contains_sym(a) or V.contains_sym(b) or _isobj(a) or _isobj(b):
        def one(p, q):
            # an infinity is only close to itself
            if V.lift(p) is None or V.lift(q) is None:
                return not issym(p) and not issym(q) and \
                    bool(_np.isclose(p, q, rtol, atol, equal_nan))
            return abs(p - q) <= atol + rtol*abs(q)
        if _np.ndim(a) == 0 and _np.ndim(b) == 0:
            a = a.item() if isinstance(a, _np.ndarray) else a
            b = b.item() if isinstance(b, _np.ndarray) else b
            return one(a, b)
        pa, pb = _np.broadcast_arrays(_objarr(a), _objarr(b))
        r = _np.empty(pa.shape, dtype=object)
        for i in _np.ndindex(*pa.shape):
            r[i] = one(pa[i], pb[i])
        return r.view(SymArray)
    return _np.isclose(a, b, rtol, atol, equal_nan)


np.allclose = lambda a, b, *r, **k: bool(_np.all(np.isclose(a, b, *r, **k)))


@_reg("isscalar")
def _isscalar(x):
    return isinstance(x, SymReal) or _np.isscalar(x)


def _reduce(name):
    real = getattr(_np, name)

    def g(x, *a, **k):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, (list, tuple)) and V.contains_sym(x):
            x = _array(x)
        if isinstance(x, SymArray):
            r = real(x.view(_np.ndarray), *a, **k)
            return r.view(SymArray) if isinstance(r, _np.ndarray) else r
        return real(x, *a, **k)
    return g


for _n in ("min", "max", "amin", "amax", "sum", "prod", "cumsum"):
    setattr(np, _n, _reduce(_n))


@_reg("mean")
def _mean(x, *a, **k):
    if not (V.contains_sym(x) or _isobj(x)):
        return _np.mean(x, *a, **k)
    x = _array(x, copy=False)
    axis = a[0] if a else k.get("axis")
    n = x.size if axis is None else x.shape[axis]
    return np.sum(x, axis=axis)/n


@_reg("interp")
def _interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None or V.contains_sym(xp):
        raise V.Unsupported("interp with symbolic points or a period")
    if not (V.contains_sym(x) or _isobj(x) or V.contains_sym(fp)
            or _isobj(fp)):
        return _np.interp(x, xp, fp, left, right)
    xs = [builtins.float(e) for e in xp]
    fs = list(fp)

    def one(t):
        if t < xs[0]:
            return fs[0] if left is None else left
        if t > xs[-1]:
            return fs[-1] if right is None else right
        for j in range(len(xs)-1):
            if t < xs[j+1]:
                return fs[j] + (fs[j+1]-fs[j])/(xs[j+1]-xs[j])*(t-xs[j])
        return fs[-1]
    if _np.ndim(x) == 0:
        return one(x.item() if isinstance(x, _np.ndarray) else x)
    return _array([one(t) for t in _array(x, copy=False)])


@_reg("squeeze")
def _squeeze(a, axis=None):
    if isinstance(a, SymReal):
        return a
    a = _array(a, copy=False)
    r = _np.squeeze(a.view(_np.ndarray), axis)
    return r.view(SymArray) if r.dtype == object and r.ndim else \
        (r.item() if r.dtype == object else r)


@_reg("issubdtype")
def _issubdtype(a, b):
    if a == object:
        a = _np.float64      # arrays of symbolic reals stand for doubles
    if isinstance(b, type) and getattr(b, "_symx_float", False):
        b = _np.float64
    return _np.issubdtype(a, b)


@_reg("finfo")
def _finfo(t=_np.float64):
    return _np.finfo(_np.float64)


@_reg("einsum")
def _einsum(sub, *ops, **k):
    if any(V.contains_sym(o) or _isobj(o) for o in ops):
        if sub.replace(" ", "") in ("i,i->", "i,i"):
            return sum(p*q for p, q in zip(*ops))
        raise V.Unsupported("einsum " + sub)
    return _np.einsum(sub, *ops, **k)


def _anyall(name):
    real = getattr(_np, name)

    def g(x, *a, **k):
        if isinstance(x, (SymBool, SymReal)):
            return bool(x)
        if isinstance(x, _np.ndarray) and x.dtype == object:
            x = x.astype(bool)
        elif isinstance(x, (list, tuple)):
            x = _np.array([bool(e) if issym(e) else e for e in x])
        return real(x, *a, **k)
    return g


np.any = _anyall("any")
np.all = _anyall("all")


class _Float64(metaclass=_FloatMeta):
    _symx_float = True

    def __new__(cls, x=0.0):
        if isinstance(x, (list, tuple)) or (isinstance(x, _np.ndarray)
                                            and x.size != 1):
            return _array(x, float)
        r = to_float(x)
        return r if isinstance(r, SymReal) else _np.float64(r)


np.float64 = np.double = np.float_ = _Float64


def _joiner(name):
    real = getattr(_np, name)

    def g(seq, *a, **k):
        parts = [_array(s, copy=False) for s in seq]
        if any(p.dtype == object for p in parts):
            r = real([_np.asarray(p, object) for p in parts], *a, **k)
            return r.view(SymArray)
        return real(parts, *a, **k)
    return g


for _n in ("concatenate", "hstack", "vstack", "stack", "column_stack"):
    setattr(np, _n, _joiner(_n))


@_reg("append")
def _append(a, v, axis=None):
    return np.concatenate([_np.ravel(_array(a, copy=False)),
                           _np.ravel(_array(v, copy=False))])


@_reg("insert")
def _insert(a, i, v, axis=None):
    lst = list(_array(a, copy=False))
    lst.insert(i, v)
    return _array(lst)


np.atleast_1d = lambda x: _array(x, copy=False, ndmin=1)
np.ndim = lambda x: 0 if issym(x) else _np.ndim(x)
np.shape = lambda x: () if issym(x) else _np.shape(x)
np.size = lambda x, *a: 1 if issym(x) else _np.size(x, *a)


@_reg("polyval")
def _polyval(p, x):
    y = 0
    for c in p:
        y = y*x + c
    return y


np.errstate = _np.errstate
np.ndarray = _np.ndarray
np.inf = _np.inf
np.nan = _np.nan


# --------------------------------------------------------------------------
# math
# --------------------------------------------------------------------------
class _MathProxy(types.ModuleType):
    def __getattr__(self, name):
        return getattr(_math, name)


math = _MathProxy("math")


def _mathfun(name, via=None):
    real = getattr(_math, name)
    via = via or name

    def g(x, *a):
        if isinstance(x, _np.ndarray) and x.size == 1:
            x = x.item()
        if isinstance(x, SymReal):
            r = getattr(x, via)()
            if a:
                r = r / g(a[0])
            return r
        return real(x, *a)
    return g


for _n in ("sqrt", "exp", "log", "log10", "log2", "log1p", "expm1", "fabs",
           "isnan", "isinf", "isfinite", "sin", "cos", "tan"):
    setattr(math, _n, _mathfun(_n))
math.pow = lambda x, y: x**y if issym(x) or issym(y) else _math.pow(x, y)
math.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
    bool(abs(a-b) <= max(rel_tol*max(abs(a), abs(b)), abs_tol))
    if V.lift(a) is not None and V.lift(b) is not None else
    not issym(a) and not issym(b) and a == b)
math.hypot = lambda *a: math.sqrt(sum(x*x for x in a))
math.copysign = lambda x, y: np.copysign(x, y)
math.fsum = lambda s: sum(s)


# --------------------------------------------------------------------------
# module loading
# --------------------------------------------------------------------------
PROXY_MODULES: dict = {}     # dotted name -> proxy module


class Proxy(types.ModuleType):
    """Real module with some attributes replaced."""

    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        full = f"{self.__name__}.{name}"
        if full in PROXY_MODULES:
            return PROXY_MODULES[full]
        return getattr(self._real, name)


class Loader:
    """Private, freshly executed copy of the package."""

    def __init__(self):
        self.mods = {}
        self.functions = set()
        b = dict(builtins.__dict__)
        b["float"] = FloatShim
        b["isinstance"] = _isinstance
        b["open"] = _open
        b["__import__"] = self._import
        self.builtins = b

    def _import(self, name, glob=None, loc=None, fromlist=(), level=0):
        if level:
            pkg = glob.get("__package__") or glob["__name__"].rpartition(".")[0]
            parts = pkg.split(".")
            base = parts[:len(parts)-(level-1)]
            name = ".".join(base + ([name] if name else []))
        if name == PKG or name.startswith(PKG + "."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(f"{name}.{f}"))
                        except FileNotFoundError:
                            raise ImportError(
                                f"cannot import name {f!r} from {name!r}")
                return m
            return self.load(name.split(".")[0])
        if name in PROXY_MODULES:
            if fromlist or "." not in name:
                return PROXY_MODULES[name]
            importlib.import_module(name)
            return PROXY_MODULES.get(name.split(".")[0],
                                     sys.modules[name.split(".")[0]])
        return builtins.__import__(name, glob, loc, fromlist, 0)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base):
            path = os.path.join(base, "__init__.py")
            pkg = name
        else:
            path = base + ".py"
            pkg = name.rpartition(".")[0]
        if not os.path.isfile(path):
            raise FileNotFoundError(path)
        if "." in name:
            self.load(name.rpartition(".")[0])
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = path
        m.__package__ = pkg
        if os.path.isdir(base):
            m.__path__ = [base]
        self.mods[name] = m
        with builtins.open(path, encoding="utf8") as f:
            src = f.read()
        exec(compile(src, path, "exec"), m.__dict__)
        if "." in name:
            par, _, leaf = name.rpartition(".")
            setattr(self.mods[par], leaf, m)
        return m


def install_proxies():
    import scipy
    import scipy.integrate
    import scipy.interpolate
    import scipy.optimize
    from . import stubs
    PROXY_MODULES.clear()
    PROXY_MODULES["numpy"] = np
    PROXY_MODULES["math"] = math
    import numpy.typing as npt
    PROXY_MODULES["numpy.typing"] = npt
    PROXY_MODULES["scipy.integrate"] = Proxy(
        "scipy.integrate", scipy.integrate,
        dict(solve_ivp=stubs.solve_ivp, quad=stubs.quad))
    PROXY_MODULES["scipy.interpolate"] = Proxy(
        "scipy.interpolate", scipy.interpolate,
        dict(PchipInterpolator=stubs.PchipInterpolator,
             CubicSpline=stubs.CubicSpline, PPoly=stubs.PPoly))
    PROXY_MODULES["scipy.optimize"] = Proxy(
        "scipy.optimize", scipy.optimize,
        dict(root_scalar=stubs.root_scalar))
    PROXY_MODULES["pathlib"] = Proxy("pathlib", pathlib, dict(Path=_path))
    PROXY_MODULES["scipy"] = Proxy("scipy", scipy, {})
    import importlib.resources as ir
    PROXY_MODULES["importlib.resources"] = Proxy(
        "importlib.resources", ir, dict(files=stubs.resource_files))
