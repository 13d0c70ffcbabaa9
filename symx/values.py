"""
Symbolic reals, booleans and arrays that the real Python/numpy code runs on.

Every truth test of a symbolic boolean forks the path (see Ctx.branch); every
operation with a restricted domain (division, square root, logarithm, power)
first forks on its domain condition.
"""
from __future__ import annotations

from fractions import Fraction
import math
import numpy as np

from . import expr as X


class PathStop(BaseException):
    """Base of the engine's control-flow exceptions (never caught by code)."""


class Infeasible(PathStop):
    pass


class DomainEvent(PathStop):
    def __init__(self, what):
        super().__init__(what)
        self.what = what


class Unsupported(PathStop):
    """The code did something the encoding does not model."""


CTX = None      # current path context, set by the engine


# --------------------------------------------------------------------------
# formulas
# --------------------------------------------------------------------------
class SymBool:
    """op in rel ops with (lhs, rhs) nodes, or and/or/not/const."""
    __slots__ = ("op", "a", "b")

    def __init__(self, op, a=None, b=None):
        self.op = op
        self.a = a
        self.b = b

    def __bool__(self):
        return CTX.branch(self)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return SymBool("and", self, tobool(o))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return SymBool("or", self, tobool(o))

    __ror__ = __or__

    def __invert__(self):
        return negate(self)

    def logical_not(self):
        return negate(self)

    def any(self, *a, **k):
        return self

    all = any
    ndim = 0
    shape = ()
    size = 1

    def item(self):
        return self

    def __eq__(self, o):
        o = tobool(o)
        return (self & o) | (negate(self) & negate(o))

    def __ne__(self, o):
        return negate(self == o)

    __hash__ = object.__hash__

    def __repr__(self):
        return fshow(self)


def tobool(o):
    if isinstance(o, SymBool):
        return o
    return SymBool("const", bool(o))


_NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}


def negate(f):
    if f.op == "const":
        return SymBool("const", not f.a)
    if f.op == "not":
        return f.a
    if f.op in _NEG:
        return SymBool(_NEG[f.op], f.a, f.b)
    if f.op == "and":
        return SymBool("or", negate(f.a), negate(f.b))
    if f.op == "or":
        return SymBool("and", negate(f.a), negate(f.b))
    raise AssertionError


def fshow(f):
    if f.op == "const":
        return str(f.a)
    if f.op in _NEG:
        return f"{X.show(f.a)} {f.op} {X.show(f.b)}"
    return f"({fshow(f.a)} {f.op} {fshow(f.b)})"


def fnodes(f, out=None):
    out = [] if out is None else out
    if f.op in _NEG:
        out += [f.a, f.b]
    elif f.op in ("and", "or"):
        fnodes(f.a, out)
        fnodes(f.b, out)
    return out


def fz3(f):
    import z3
    if f.op == "const":
        return z3.BoolVal(f.a)
    if f.op in _NEG:
        # compare after moving to one side in normal form when small
        a, b = X.to_z3(f.a), X.to_z3(f.b)
        return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
                ">=": lambda: a >= b, "==": lambda: a == b,
                "!=": lambda: a != b}[f.op]()
    if f.op == "and":
        return z3.And(fz3(f.a), fz3(f.b))
    return z3.Or(fz3(f.a), fz3(f.b))


def fdecide(f):
    """True/False when decidable without a solver, else None."""
    if f.op == "const":
        return f.a
    if f.op == "and":
        x, y = fdecide(f.a), fdecide(f.b)
        if x is False or y is False:
            return False
        return True if (x and y) else None
    if f.op == "or":
        x, y = fdecide(f.a), fdecide(f.b)
        if x or y:
            return True
        return False if (x is False and y is False) else None
    if f.a is f.b:
        return f.op in ("<=", ">=", "==")
    d = X.sub(f.a, f.b)
    c = X.constant_value(d)
    if c is not None:
        return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0,
                "==": c == 0, "!=": c != 0}[f.op]
    s = X.sign(d)
    if s is None:
        try:
            s = X.sign(X.from_rat(X.rat(d)))
        except X.TooBig:
            s = None
    if s is None:
        return None
    if s == 1:
        return f.op in (">", ">=", "!=")
    if s == -1:
        return f.op in ("<", "<=", "!=")
    if s == 2:
        if f.op == ">=":
            return True
        if f.op == "<":
            return False
    if s == -2:
        if f.op == "<=":
            return True
        if f.op == ">":
            return False
    return None


def feval(f, ev, margin=0.0):
    """
    Numeric truth: returns (true_mask, false_mask) over the sample points; a
    point whose two sides are closer than `margin` (relative) is in neither.
    """
    if f.op == "const":
        return f.a, not f.a
    if f.op == "and":
        t1, f1 = feval(f.a, ev, margin)
        t2, f2 = feval(f.b, ev, margin)
        return np.logical_and(t1, t2), np.logical_or(f1, f2)
    if f.op == "or":
        t1, f1 = feval(f.a, ev, margin)
        t2, f2 = feval(f.b, ev, margin)
        return np.logical_or(t1, t2), np.logical_and(f1, f2)
    a, b = ev([f.a, f.b])
    with np.errstate(all="ignore"):
        d = a - b
        m = margin*(np.abs(a) + np.abs(b) + 1e-300)
        pos = d > m
        ne = d < -m
        eq = np.logical_and(np.abs(d) <= 0, True)
        if f.op == "<":
            return ne, np.logical_or(pos, eq) if margin == 0 else pos
        if f.op == "<=":
            return (np.logical_or(ne, eq) if margin == 0 else ne), pos
        if f.op == ">":
            return pos, np.logical_or(ne, eq) if margin == 0 else ne
        if f.op == ">=":
            return (np.logical_or(pos, eq) if margin == 0 else pos), ne
        if f.op == "==":
            return (eq if margin == 0 else np.zeros_like(eq)), \
                np.logical_or(pos, ne)
        return np.logical_or(pos, ne), \
            (eq if margin == 0 else np.zeros_like(eq))


# --------------------------------------------------------------------------
# reals
# --------------------------------------------------------------------------
_NUM = (int, float, Fraction, np.integer, np.floating)


def issym(x):
    return isinstance(x, (SymReal, SymBool))


def lift(x):
    """Node of a number or symbolic real; None when not a finite scalar."""
    if isinstance(x, SymReal):
        return x.n
    if isinstance(x, (bool, np.bool_)):
        return X.const(int(x))
    if isinstance(x, _NUM):
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            return None
        return X.const(x)
    if isinstance(x, SymBool):
        return X.const(int(bool(x)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


def wrap(n):
    return SymReal(n)


_FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


class SymReal:
    """A symbolic real standing for a Python float / numpy float64 scalar."""
    __slots__ = ("n",)
    ndim = 0
    shape = ()
    size = 1
    dtype = np.dtype(float)
    __array_priority__ = -1.0

    def __init__(self, n):
        self.n = n

    # ---- plumbing
    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def any(self, *_a, **_k):
        return self != 0

    all = any

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def squeeze(self):
        return self

    def ravel(self):
        return symarray([self])

    flatten = ravel

    def sum(self, *_a, **_k):
        return self

    min = max = mean = sum

    def clip(self, lo=None, hi=None):
        r = self
        if lo is not None and r < lo:
            r = lo
        if hi is not None and r > hi:
            r = hi
        return r

    def is_integer(self):
        raise Unsupported("is_integer of a symbolic real")

    def __float__(self):
        c = X.constant_value(self.n)
        if c is not None:
            return float(c)
        raise Unsupported("float() of a symbolic real outside the shim")

    def __int__(self):
        raise Unsupported("int() of a symbolic real")

    __index__ = None

    def __repr__(self):
        return f"<{X.show(self.n)}>"

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return hash(("SymReal", self.n.uid))

    def __bool__(self):
        return bool(self != 0)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic real")

    # ---- arithmetic
    def _bin(self, o, fin, infcase):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        m = lift(o)
        if m is None:
            v = o.item() if isinstance(o, np.ndarray) else o
            if isinstance(v, (float, np.floating)):
                return infcase(float(v))
            return NotImplemented
        return fin(m)

    def __add__(self, o):
        return self._bin(o, lambda m: SymReal(X.add(self.n, m)), lambda v: v)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda m: SymReal(X.sub(self.n, m)), lambda v: -v)

    def __rsub__(self, o):
        return self._bin(o, lambda m: SymReal(X.sub(m, self.n)), lambda v: v)

    def _mulinf(self, v):
        if math.isnan(v):
            return v
        if self > 0:
            return v
        if self < 0:
            return -v
        return math.nan

    def __mul__(self, o):
        return self._bin(o, lambda m: SymReal(X.mul(self.n, m)), self._mulinf)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda m: _div(self.n, m),
                         lambda v: v if math.isnan(v) else 0.0)

    def __rtruediv__(self, o):
        return self._bin(o, lambda m: _div(m, self.n), self._mulinf)

    def __neg__(self):
        return SymReal(X.neg(self.n))

    def __pos__(self):
        return self

    def __abs__(self):
        s = X.sign(self.n)
        if s in (1, 2, 3):
            return self
        if s in (-1, -2):
            return -self
        return SymAbs(self.n)

    def __pow__(self, o, mod=None):
        return self._bin(o, lambda m: _pow(self.n, m), lambda v: _bad("pow"))

    def __rpow__(self, o):
        return self._bin(o, lambda m: _pow(m, self.n), lambda v: _bad("pow"))

    def __floordiv__(self, o):
        raise Unsupported("floor division of a symbolic real")

    __rfloordiv__ = __mod__ = __rmod__ = __divmod__ = __floordiv__

    def __round__(self, n=None):
        raise Unsupported("round() of a symbolic real")

    def rint(self, *a, **k):
        raise Unsupported("rounding of a symbolic real")

    floor = ceil = trunc = __floor__ = __ceil__ = __trunc__ = rint

    # ---- comparisons
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if type(o) is SymAbs:
            return o._cmp(self, _FLIP[op])
        m = lift(o)
        if m is None:
            v = o.item() if isinstance(o, np.ndarray) else o
            if isinstance(v, (float, np.floating)):
                v = float(v)
                return {"<": 0.0 < v, "<=": 0.0 <= v, ">": 0.0 > v,
                        ">=": 0.0 >= v, "==": False, "!=": True}[op]
            return NotImplemented
        f = SymBool(op, self.n, m)
        d = fdecide(f)
        return f if d is None else np.bool_(d)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    # ---- numpy calls these on elements of object arrays
    def sqrt(self):
        return SymReal(_sqrt(self.n))

    def exp(self):
        return SymReal(X.mk_exp(self.n, CTX.is_pos))

    def log(self):
        CTX.need(SymBool(">", self.n, X.const(0)), "logarithm of non-positive")
        return SymReal(X.mk_ln(self.n, CTX.is_pos))

    def log10(self):
        return SymReal(X.mul(self.log().n, X.const(1 / X.LN10)))

    def log2(self):
        return self.log() * (1/math.log(2))

    def log1p(self):
        return (self + 1).log()

    def expm1(self):
        return self.exp() - 1

    def fabs(self):
        return abs(self)

    def square(self):
        return self*self

    def cbrt(self):
        return self**(1/3)

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def sin(self):
        raise Unsupported("trigonometric function")

    cos = tan = arctan = arcsin = arccos = sin

    def sinh(self):
        e = self.exp()
        return (e - 1/e)/2

    def cosh(self):
        e = self.exp()
        return (e + 1/e)/2

    def tanh(self):
        e = (2*self).exp()
        return (e - 1)/(e + 1)


def _bad(what):
    raise Unsupported(what + " with a non-finite operand")


def _div(a, b):
    s = X.sign(b)
    if s not in (1, -1):
        CTX.need(SymBool("!=", b, X.const(0)), "division by zero")
    return SymReal(X.div(a, b))


def _sqrt(a):
    if X.sign(a) not in (1, 2, 3):
        CTX.need(SymBool(">=", a, X.const(0)), "square root of negative")
    return X.mk_sqrt(a, CTX.is_pos)


def _pow(b, e):
    c = X.constant_value(e)
    if c is not None:
        if c.denominator == 1:
            if c < 0 and X.sign(b) not in (1, -1):
                CTX.need(SymBool("!=", b, X.const(0)), "negative power of zero")
            if abs(c) <= 60:
                return SymReal(X.ipow(b, int(c)))
        if c == Fraction(1, 2):
            return SymReal(_sqrt(b))
        if X.sign(b) != 1:
            if bool(SymBool("==", b, X.const(0))):
                if c > 0:
                    return SymReal(X.const(0))
                raise DomainEvent("negative power of zero")
            CTX.need(SymBool(">", b, X.const(0)),
                     "fractional power of negative")
        return SymReal(X.mk_pow(b, c, CTX.is_pos))
    if X.sign(b) != 1:
        CTX.need(SymBool(">", b, X.const(0)), "symbolic power of non-positive")
    return SymReal(X.mk_exp(X.mul(e, X.mk_ln(b, CTX.is_pos)), CTX.is_pos))


# --------------------------------------------------------------------------
# arrays
# --------------------------------------------------------------------------
class SymAbs(SymReal):
    """
    |a| of a value of unknown sign.  Comparisons become formulas over a, so
    that they cost one fork; any other use forks on the sign of a first.
    """
    __slots__ = ("inner", "forced")

    def __init__(self, inner):
        self.inner = inner
        self.forced = None

    @property
    def n(self):
        if self.forced is None:
            pos = bool(SymReal(self.inner) >= 0)
            self.forced = self.inner if pos else X.neg(self.inner)
        return self.forced

    def __abs__(self):
        return self

    def __neg__(self):
        return SymReal(X.neg(self.n))

    def _cmp(self, o, op):
        if self.forced is not None:
            return SymReal(self.forced)._cmp(o, op)
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        m = lift(o)
        if m is None:
            return SymReal._cmp(SymReal(self.inner), o, op)
        a, b = self.inner, X.neg(self.inner)
        k = "and" if op in ("<", "<=", "!=") else "or"
        f = SymBool(k, SymBool(op, a, m), SymBool(op, b, m))
        if op in ("==", "!="):
            # |a| == m  <=>  m >= 0 and (a == m or -a == m)
            f = (SymBool("and", SymBool("<=", X.const(0), m), f)
                 if op == "==" else
                 SymBool("or", SymBool(">", X.const(0), m), f))
        d = fdecide(f)
        return f if d is None else np.bool_(d)


class SymArray(np.ndarray):
    """Object array; 0-d results of ufuncs become their element (as numpy does
    for float64) and dtype conversions to float keep the symbolic elements."""

    def __array_finalize__(self, obj):
        pass

    def __array_wrap__(self, arr, context=None):
        if arr.ndim == 0:
            return arr.item() if arr.dtype == object else arr[()]
        if arr.dtype == object:
            return arr.view(SymArray)
        return arr.view(np.ndarray)

    def astype(self, dtype, *a, **k):
        if is_float_dtype(dtype) or dtype is object:
            return self.copy()
        return np.ndarray.astype(self.view(np.ndarray), dtype, *a, **k)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis)/n

    def __float__(self):
        if self.size == 1:
            return float(self.item())
        raise TypeError("only length-1 arrays can be converted to scalars")


def is_float_dtype(dt):
    if dt is None:
        return False
    if isinstance(dt, type) and getattr(dt, "_symx_float", False):
        return True
    if dt is float:
        return True
    try:
        return np.issubdtype(np.dtype(dt), np.floating)
    except TypeError:
        return False


def symarray(seq):
    """Object array from a (nested) sequence of numbers/symbolic values."""
    a = np.array(seq, dtype=object)
    return a.view(SymArray)


def contains_sym(x):
    if isinstance(x, SymReal):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(contains_sym(e) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(contains_sym(e) for e in x)
    return False
