"""
Hash-consed expression DAG over the reals, its rational-function normal form,
symbolic differentiation, numeric evaluation and translation to z3.

Node operators
--------------
const  Fraction
var    named input (free real)
add, mul, div, neg   arithmetic
sqrt   non-negative square root of its argument
pow    argument ** r for a constant rational 0 < r < 1/2 (argument > 0)
exp    natural exponential
ln     natural logarithm (argument > 0)
fn     k-th derivative of an arbitrary smooth function family at an argument
state  component of an arbitrary solution of an ODE family at an argument

`sqrt`, `pow`, `exp`, `ln`, `fn`, `state` are opaque reals for the solver,
constrained by the axioms `axioms()` generates for them.
"""
from __future__ import annotations

from fractions import Fraction
import math
import numpy as np
import z3


class Node:
    __slots__ = ("op", "args", "uid", "data", "_z", "_rat", "_sign", "_at")

    def __init__(self, op, args, data, uid):
        self.op = op
        self.args = args
        self.data = data
        self.uid = uid
        self._z = None
        self._rat = None
        self._sign = 0
        self._at = None

    def __repr__(self):
        return show(self)


OPAQUE = ("sqrt", "pow", "exp", "ln", "fn", "state")

_table: dict = {}
_nodes: list = []


def reset():
    _table.clear()
    _nodes.clear()
    _polysym.clear()
    _symnode.clear()
    FAMILIES.clear()
    _exp_atoms.clear()
    _atom_index.clear()
    _atom_alike.clear()
    _factors.clear()
    _alike.clear()


def _mk(op, args=(), data=None):
    key = (op, tuple(a.uid for a in args), data)
    n = _table.get(key)
    if n is None:
        n = Node(op, tuple(args), data, len(_nodes))
        _table[key] = n
        _nodes.append(n)
    return n


def _simplest_between(lo: Fraction, hi: Fraction) -> Fraction:
    """Fraction with the smallest denominator in [lo, hi], 0 < lo <= hi."""
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    return fl + 1 / _simplest_between(1 / (hi - fl), 1 / (lo - fl))


def simplest(x: float) -> Fraction:
    """Simplest rational that rounds to the double `x`."""
    if x == int(x) and abs(x) < 2**53:
        return Fraction(int(x))
    if x < 0:
        return -simplest(-x)
    ex = Fraction(x)
    h = Fraction(math.ulp(x)) / 2
    h = h * Fraction(999, 1000)
    f = _simplest_between(ex - h, ex + h)
    if f.denominator > 10**6:
        # results of rounded arithmetic such as 1/1.287: four ulp of slack
        g = _simplest_between(ex - 8*h, ex + 8*h)
        if g.denominator < 10**5:
            return g
    return f


def const(v) -> Node:
    if isinstance(v, Node):
        return v
    if isinstance(v, (bool, np.bool_)):
        v = int(v)
    if isinstance(v, (int, np.integer)):
        v = Fraction(int(v))
    elif isinstance(v, (float, np.floating)):
        v = float(v)
        if not math.isfinite(v):
            raise ValueError("non-finite constant")
        v = simplest(v)
    return _mk("const", (), v)


def var(name) -> Node:
    return _mk("var", (), name)


ZERO = property(lambda s: const(0))


def is_const(n, v=None):
    return n.op == "const" and (v is None or n.data == v)


def add(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.data + b.data)
    if is_const(a, 0):
        return b
    if is_const(b, 0):
        return a
    if a.op == "neg" and a.args[0] is b or b.op == "neg" and b.args[0] is a:
        return const(0)
    if a.uid > b.uid:
        a, b = b, a
    return _mk("add", (a, b))


def neg(a):
    if a.op == "const":
        return const(-a.data)
    if a.op == "neg":
        return a.args[0]
    return _mk("neg", (a,))


def sub(a, b):
    if a is b:
        return const(0)
    return add(a, neg(b))


def mul(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.data * b.data)
    for p, q in ((a, b), (b, a)):
        if p.op == "const":
            if p.data == 0:
                return const(0)
            if p.data == 1:
                return q
            if p.data == -1:
                return neg(q)
    if a.op == "neg" and b.op == "neg":
        return mul(a.args[0], b.args[0])
    if a.op == "neg":
        return neg(mul(a.args[0], b))
    if b.op == "neg":
        return neg(mul(a, b.args[0]))
    if a.uid > b.uid:
        a, b = b, a
    return _mk("mul", (a, b))


def div(a, b):
    """a/b; the caller guarantees b != 0 on the path."""
    if b.op == "const":
        if b.data == 0:
            raise ZeroDivisionError
        return mul(a, const(1 / b.data))
    if is_const(a, 0):
        return a
    if a is b:
        return const(1)
    if a.op == "neg":
        return neg(div(a.args[0], b))
    if b.op == "neg":
        return neg(div(a, b.args[0]))
    return _mk("div", (a, b))


def ipow(a, n: int):
    if n == 0:
        return const(1)
    if n < 0:
        return div(const(1), ipow(a, -n))
    r = None
    while n:
        if n & 1:
            r = a if r is None else mul(r, a)
        a = mul(a, a) if n > 1 else a
        n >>= 1
    return r


def show(n, depth=6):
    if n.op == "const":
        return str(n.data) if n.data.denominator < 10**6 else repr(float(n.data))
    if n.op == "var":
        return n.data
    if depth == 0:
        return "..."
    a = [show(x, depth - 1) for x in n.args]
    if n.op == "add":
        return f"({a[0]} + {a[1]})"
    if n.op == "mul":
        return f"{a[0]}*{a[1]}"
    if n.op == "div":
        return f"({a[0]})/({a[1]})"
    if n.op == "neg":
        return f"-({a[0]})"
    if n.op == "fn":
        return f"{n.data[0]}{chr(39)*n.data[1]}({a[0]})"
    if n.op == "state":
        return f"{n.data[0]}[{n.data[1]}]({a[0]})"
    if n.op == "pow":
        return f"({a[0]})^{n.data}"
    return f"{n.op}({', '.join(a)})"


# --------------------------------------------------------------------------
# cheap sign analysis: 1 positive, -1 negative, 2 non-negative, -2 non-positive
# None unknown.  `0` in the cache slot means "not computed".
# --------------------------------------------------------------------------
VAR_SIGN: dict = {}     # variable name / family key -> sign


def sign(n):
    if n._sign != 0:
        return n._sign
    s = None
    if n.op == "const":
        s = 1 if n.data > 0 else (-1 if n.data < 0 else 3)   # 3: zero
    elif n.op == "var":
        s = VAR_SIGN.get(n.data)
    elif n.op == "fn":
        s = VAR_SIGN.get(("fn",) + tuple(n.data))
    elif n.op == "state":
        s = VAR_SIGN.get(("state",) + tuple(n.data))
    elif n.op in ("exp", "pow"):
        s = 1
    elif n.op == "sqrt":
        s = 1 if sign(n.args[0]) == 1 else 2
    elif n.op == "neg":
        t = sign(n.args[0])
        s = t if t in (None, 3) else -t
    elif n.op == "add":
        a, b = sign(n.args[0]), sign(n.args[1])
        if a is not None and b is not None:
            if a == 3:
                s = b
            elif b == 3:
                s = a
            elif a > 0 and b > 0:
                s = 1 if 1 in (a, b) else 2
            elif a < 0 and b < 0:
                s = -1 if -1 in (a, b) else -2
    elif n.op == "mul":
        a, b = sign(n.args[0]), sign(n.args[1])
        if n.args[0] is n.args[1]:
            s = 1 if a in (1, -1) else 2
        elif a == 3 or b == 3:
            s = 3
        elif a is not None and b is not None:
            m = 1 if (a > 0) == (b > 0) else -1
            s = m * (1 if abs(a) == 1 and abs(b) == 1 else 2)
    elif n.op == "div":
        a, b = sign(n.args[0]), sign(n.args[1])
        if a == 3:
            s = 3
        elif a is not None and b in (1, -1):
            m = 1 if (a > 0) == (b > 0) else -1
            s = m * abs(a)
    n._sign = s
    return s


# --------------------------------------------------------------------------
# polynomials: dict monomial -> Fraction; monomial: sorted tuple of (sym, exp)
# sym: uid of a var or opaque node
# --------------------------------------------------------------------------
_polysym: dict = {}
_symnode: dict = {}
MAXTERMS = 6000


class TooBig(Exception):
    pass


def p_const(c):
    return {(): Fraction(c)} if c else {}


# Two constants that double arithmetic computed along different routes differ
# in their last bits.  A coefficient that cancels to less than this fraction of
# its parts is rounding and counts as zero; opaque functions whose arguments
# agree to this fraction are one function value.
SNAP = 10**13


def _sum(x, y):
    v = x + y
    if v and v.denominator > 10**6 and x*y < 0 \
            and abs(v)*SNAP < abs(y):
        return 0
    return v


def near(p, q):
    """Polynomials with the same monomials and coefficients (to SNAP)."""
    if p.keys() != q.keys():
        return False
    return all(c == q[m] or abs(c - q[m])*SNAP < abs(c)
               for m, c in p.items())


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = _sum(r.get(m, 0), s * c)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for s, e in b:
        d[s] = d.get(s, 0) + e
    return tuple(sorted((s, e) for s, e in d.items() if e))


def p_mul(a, b):
    if len(a) * len(b) > 400000:
        raise TooBig()
    r: dict = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = m_mul(ma, mb)
            v = _sum(r.get(m, 0), ca * cb)
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def p_pow(a, n):
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, a)
    return r


def p_key(a):
    return tuple(sorted(a.items()))


class Rat:
    """num / prod(factor**e); factors are monic polys or single symbols."""
    __slots__ = ("num", "den")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}

    def is_zero(self):
        return not self.num


_factors: dict = {}     # key -> poly
_alike: dict = {}       # monomials -> keys of the factors with them


def _factor(poly):
    """Key of a monic factor, merged with one that differs by rounding."""
    k = p_key(poly)
    if k in _factors:
        return k
    group = _alike.setdefault(frozenset(poly), [])
    for o in group:
        if near(poly, _factors[o]):
            return o
    group.append(k)
    _factors[k] = poly
    return k


def _fac(poly):
    """Split a poly into (const, {factorkey: exp}) with monic remainder."""
    if not poly:
        raise ZeroDivisionError
    # common monomial
    it = iter(poly)
    common = dict(next(it))
    for m in it:
        d = dict(m)
        for s in list(common):
            e = min(common[s], d.get(s, 0))
            if e > 0:
                common[s] = e
            else:
                del common[s]
        if not common:
            break
    facs = {}
    for s, e in common.items():
        k = p_key({((s, 1),): Fraction(1)})
        _factors.setdefault(k, {((s, 1),): Fraction(1)})
        facs[k] = e
    inv = tuple((s, -e) for s, e in common.items())
    rest = {m_mul(m, inv): c for m, c in poly.items()}
    lead = rest[max(rest)]
    rest = {m: c / lead for m, c in rest.items()}
    if list(rest) != [()]:
        k = _factor(rest)
        facs[k] = facs.get(k, 0) + 1
    return lead, facs


def r_add(a, b):
    if a.is_zero():
        return b
    if b.is_zero():
        return a
    if a.den == b.den:
        return r_norm(Rat(p_add(a.num, b.num), dict(a.den)))
    den = dict(a.den)
    for k, e in b.den.items():
        den[k] = max(den.get(k, 0), e)
    na, nb = a.num, b.num
    for k, e in den.items():
        f = _factors[k]
        ea = e - a.den.get(k, 0)
        eb = e - b.den.get(k, 0)
        if ea:
            na = p_mul(na, p_pow(f, ea))
        if eb:
            nb = p_mul(nb, p_pow(f, eb))
    return r_norm(Rat(p_add(na, nb), den))


def r_norm(r):
    """Cancel single-symbol factors common to numerator and denominator."""
    if not r.num:
        return Rat({}, {})
    for k in list(r.den):
        f = _factors[k]
        if len(f) == 1:
            ((m, _),) = f.items()
            s = m[0][0]
            low = min(dict(mm).get(s, 0) for mm in r.num)
            e = min(low, r.den[k])
            if e:
                inv = ((s, -e),)
                r.num = {m_mul(mm, inv): c for mm, c in r.num.items()}
                if r.den[k] == e:
                    del r.den[k]
                else:
                    r.den[k] -= e
        elif r.num == f or (len(r.num) == len(f) and _prop(r.num, f)):
            lead = r.num[max(r.num)]
            r.num = p_const(lead)
            if r.den[k] == 1:
                del r.den[k]
            else:
                r.den[k] -= 1
    return r


def _prop(a, b):
    lead = a[max(a)]
    return all(m in b and b[m] * lead == c for m, c in a.items())


def r_mul(a, b):
    if a.is_zero() or b.is_zero():
        return Rat({}, {})
    a = Rat(a.num, dict(a.den))
    b = Rat(b.num, dict(b.den))
    # cancel numerator factor against other's denominator when proportional
    for x, y in ((a, b), (b, a)):
        if len(x.num) > 1:
            lead, facs = _fac(x.num)
            rem = {m: lead * c for m, c in p_const(1).items()}
            changed = False
            for k, e in facs.items():
                c = min(e, y.den.get(k, 0))
                if c:
                    changed = True
                    if y.den[k] == c:
                        del y.den[k]
                    else:
                        y.den[k] -= c
                if e - c:
                    rem = p_mul(rem, p_pow(_factors[k], e - c))
            if changed:
                x.num = rem
    den = dict(a.den)
    for k, e in b.den.items():
        den[k] = den.get(k, 0) + e
    return r_norm(Rat(p_mul(a.num, b.num), den))


def r_inv(a):
    lead, facs = _fac(a.num)
    num = p_const(1 / lead)
    for k, e in a.den.items():
        num = p_mul(num, p_pow(_factors[k], e))
    return r_norm(Rat(num, facs))


def rat(n: Node) -> Rat:
    """Normal form of a node (opaque nodes are symbols). May raise TooBig."""
    if n._rat is not None:
        if n._rat is TooBig:
            raise TooBig()
        return n._rat
    stack = [n]
    try:
        while stack:
            x = stack[-1]
            if x._rat is not None:
                if x._rat is TooBig:
                    raise TooBig()
                stack.pop()
                continue
            if x.op == "const":
                x._rat = Rat(p_const(x.data))
            elif x.op == "var" or x.op in OPAQUE:
                _symnode[x.uid] = x
                x._rat = Rat({((x.uid, 1),): Fraction(1)})
            else:
                todo = [a for a in x.args if a._rat is None]
                if todo:
                    stack.extend(todo)
                    continue
                for a in x.args:
                    if a._rat is TooBig:
                        raise TooBig()
                r = [a._rat for a in x.args]
                if x.op == "add":
                    v = r_add(r[0], r[1])
                elif x.op == "neg":
                    v = Rat({m: -c for m, c in r[0].num.items()}, dict(r[0].den))
                elif x.op == "mul":
                    v = r_mul(r[0], r[1])
                elif x.op == "div":
                    if r[1].is_zero():
                        raise TooBig()
                    v = r_mul(r[0], r_inv(r[1]))
                else:
                    raise AssertionError(x.op)
                x._rat = r_reduce(v)
            stack.pop()
    except TooBig:
        n._rat = TooBig
        raise
    return n._rat


def _root_power(node):
    """For algebraic opaque nodes: (k, Rat) such that node**k == Rat."""
    if node.op == "sqrt":
        return 2, rat(node.args[0])
    if node.op == "pow":
        r = node.data
        if r.denominator <= 6:
            q = rat(node.args[0])
            v = q
            for _ in range(r.numerator - 1):
                v = r_mul(v, q)
            return r.denominator, v
    return None


def r_reduce(r: Rat) -> Rat:
    """Replace even powers of sqrt symbols (and q-th powers of q-th roots)."""
    for _ in range(20):
        target = None
        for m in r.num:
            for s, e in m:
                nd = _symnode.get(s)
                if nd is not None and nd.op in ("sqrt", "pow"):
                    rp = _root_power(nd)
                    if rp and e >= rp[0]:
                        target = (s, rp)
                        break
            if target:
                break
        if target is None:
            for k, e in r.den.items():
                f = _factors[k]
                if len(f) == 1:
                    ((m, _),) = f.items()
                    nd = _symnode.get(m[0][0])
                    if nd is not None and nd.op in ("sqrt", "pow"):
                        rp = _root_power(nd)
                        if rp and e >= rp[0]:
                            # 1/s^e = (1/arg)^(e//k) / s^(e%k)
                            den = dict(r.den)
                            q, rem = divmod(e, rp[0])
                            if rem:
                                den[k] = rem
                            else:
                                del den[k]
                            v = Rat(r.num, den)
                            inv = r_inv(rp[1])
                            for _i in range(q):
                                v = r_mul(v, inv)
                            target = "done"
                            r = v
                            break
            if target is None:
                return r
            continue
        s, (k, val) = target
        acc = None
        groups: dict = {}
        for m, c in r.num.items():
            e = dict(m).get(s, 0)
            q, rem = divmod(e, k)
            mm = m_mul(m, ((s, rem - e),)) if e != rem else m
            g = groups.setdefault(q, {})
            g[mm] = g.get(mm, 0) + c
            if not g[mm]:
                del g[mm]
        acc = Rat({}, {})
        for q, g in groups.items():
            t = Rat(g, {})
            for _i in range(q):
                t = r_mul(t, val)
            acc = r_add(acc, t)
        if r.den:
            acc = r_mul(acc, Rat(p_const(1), dict(r.den)))
        r = acc
    return r


def rkey(n):
    """Hashable normal-form key of a node, or None when it is too big."""
    try:
        r = rat(n)
    except TooBig:
        return None
    return (p_key(r.num), tuple(sorted((k, e) for k, e in r.den.items())))


def same(a, b) -> bool:
    """Provably equal as rational functions of their symbols."""
    if a is b:
        return True
    try:
        return rat(sub(a, b)).is_zero()
    except TooBig:
        return False


def from_poly(p):
    acc = const(0)
    for m, c in sorted(p.items()):
        t = const(c)
        for s, e in m:
            t = mul(t, ipow(_symnode[s], e))
        acc = add(acc, t)
    return acc


def from_rat(r):
    n = from_poly(r.num)
    for k, e in r.den.items():
        n = div(n, ipow(from_poly(_factors[k]), e))
    return n


def constant_value(n):
    """Fraction if the node is provably constant, else None."""
    if n.op == "const":
        return n.data
    try:
        r = rat(n)
    except TooBig:
        return None
    if r.is_zero():
        return Fraction(0)
    if not r.den and list(r.num) == [()]:
        return r.num[()]
    return None


# --------------------------------------------------------------------------
# opaque functions with canonicalisation
# --------------------------------------------------------------------------
_atom_index: dict = {}
_atom_alike: dict = {}
_exp_atoms: list = []
FAMILIES: dict = {}


def _atom(op, arg, data=None):
    """Opaque node, merged with an existing one whose argument is equal."""
    k = rkey(arg)
    if k is None:
        return _mk(op, (arg,), data)
    key = (op, data, k)
    n = _atom_index.get(key)
    if n is None:
        r = rat(arg)
        alike = _atom_alike.setdefault(
            (op, data, frozenset(r.num), tuple(sorted(r.den.items()))), [])
        for o in alike:
            if near(rat(o.args[0]).num, r.num):
                return o
        n = _mk(op, (arg,), data)
        _atom_index[key] = n
        alike.append(n)
    return n


def _perfect_power(poly):
    """poly == base**k (both monic) -> (base, k); k == 1 when it is none."""
    syms = {s for m in poly for s, _ in m}
    if len(poly) < 3:
        return poly, 1
    if len(syms) == 1:
        (s,) = syms
        n = max(m[0][1] for m in poly if m)
        a = poly.get(((s, n - 1),) if n > 1 else (), 0)/n
        base = p_add({((s, 1),): Fraction(1)}, p_const(a))
        if len(poly) == n + 1 and p_pow(base, n) == poly:
            return base, n
    deg = max(sum(e for _, e in m) for m in poly)
    for key in list(_atom_index):
        if key[0] != "pow":
            continue
        try:
            r = rat(_atom_index[key].args[0])
        except TooBig:
            continue
        if r.den or {s for m in r.num for s, _ in m} != syms:
            continue
        d = max((sum(e for _, e in m) for m in r.num), default=0)
        if d and deg % d == 0 and deg//d > 1:
            lead = r.num[max(r.num)]
            base = {m: c/lead for m, c in r.num.items()}
            try:
                if p_pow(base, deg//d) == poly:
                    return base, deg//d
            except TooBig:
                pass
    return poly, 1


def split_positive(n, is_pos):
    """
    n == q * prod(sym_i ** e_i) * prod(poly_j ** e_j) with every base provably
    positive -> (q, [(node, e)]), q > 0 Fraction; otherwise None.
    """
    try:
        r = rat(n)
    except TooBig:
        return None
    if r.is_zero():
        return None
    lead, facs = _fac(r.num)
    parts = []
    for k, e in list(facs.items()) + [(k, -e) for k, e in r.den.items()]:
        base, m = _perfect_power(_factors[k])
        parts.append((from_poly(base), e*m))
    out = []
    q = lead
    for nd, e in parts:
        if is_pos(nd):
            out.append((nd, e))
        elif is_pos(neg(nd)):
            out.append((neg(nd), e))
            if e % 2:
                q = -q
        else:
            return None
    if q <= 0:
        return None
    return q, out


def mk_sqrt(a, is_pos=lambda n: sign(n) == 1):
    c = constant_value(a)
    if c is not None:
        if c < 0:
            raise ValueError("sqrt of a negative constant")
        p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if p * p == c.numerator and q * q == c.denominator:
            return const(Fraction(p, q))
    # perfect squares of provably positive factors are pulled out
    sp = split_positive(a, is_pos)
    if sp is not None:
        q, parts = sp
        out = const(1)
        rest = const(q)
        for nd, e in parts:
            k, rem = divmod(e, 2)
            out = mul(out, ipow(nd, k))
            if rem:
                rest = mul(rest, nd)
        if not (out.op == "const"):
            return mul(out, mk_sqrt_raw(rest))
    return mk_sqrt_raw(a)


def mk_sqrt_raw(a):
    c = constant_value(a)
    if c is not None and c >= 0:
        p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if p * p == c.numerator and q * q == c.denominator:
            return const(Fraction(p, q))
    return _atom("sqrt", a)


def _const_pow(q: Fraction, c: Fraction):
    """q ** c for constants, as a rational accurate to double precision."""
    import mpmath
    with mpmath.workdps(40):
        v = mpmath.power(mpmath.mpf(q.numerator) / q.denominator,
                         mpmath.mpf(c.numerator) / c.denominator)
        return Fraction(mpmath.nstr(v, 30, strip_zeros=False, min_fixed=-1000,
                                    max_fixed=1000))


def _pow_value(q: Fraction, c: Fraction):
    """As _const_pow, decomposed the way mk_pow decomposes a symbolic base, so
    that a symbolic power and its value at a constant agree exactly."""
    if q <= 0:
        raise ValueError("power of a non-positive constant")
    k = c.numerator // c.denominator
    r = c - k
    if r == 0:
        return q**k
    if r > Fraction(1, 2):
        return q**(k + 1) / _const_pow(q, 1 - r)
    return q**k * _const_pow(q, r)


def value_at(n, at, memo):
    """Value of a node at constants for its variables (30 digits for opaque
    functions), None when it depends on anything else or is undefined."""
    if n.uid in memo:
        return memo[n.uid]
    if n.op == "const":
        v = n.data
    elif n.op == "var":
        v = at.get(n.data)
    elif n.op in ("fn", "state"):
        v = None
    else:
        a = [value_at(x, at, memo) for x in n.args]
        if any(x is None for x in a):
            v = None
        elif n.op == "add":
            v = a[0] + a[1]
        elif n.op == "mul":
            v = a[0]*a[1]
        elif n.op == "neg":
            v = -a[0]
        elif n.op == "div":
            v = None if a[1] == 0 else a[0]/a[1]
        elif n.op in ("sqrt", "pow"):
            r = Fraction(1, 2) if n.op == "sqrt" else n.data
            v = _const_pow(a[0], r) if a[0] > 0 else None
        elif n.op == "exp":
            v = _const_fun("exp", a[0]) if abs(a[0]) < 300 else None
        elif n.op == "ln":
            v = _const_fun("log", a[0]) if a[0] > 0 else None
        else:
            v = None
    if v is not None and v.denominator.bit_length() > 4000:
        v = None
    memo[n.uid] = v
    return v


def anchors(nodes, points):
    """
    Axioms relating opaque functions of one variable to their values at given
    constants: monotonicity, and tangent and secant bounds.
    points: variable name -> sorted constants.
    """
    out = []
    for n in nodes:
        if n.op not in ("pow", "exp", "ln"):
            continue
        if n.op == "pow" and n.data.denominator <= 4:
            continue
        lv = leaves(n.args)
        vs = {l.data for l in lv if l.op == "var"}
        if len(vs) != 1 or any(l.op in ("fn", "state") for l in lv):
            continue
        v = vs.pop()
        pts = []
        for c in points.get(v, ()):
            b0 = value_at(n.args[0], {v: c}, {})
            if b0 is None or (n.op != "exp" and b0 <= 0):
                continue
            p0 = value_at(n, {v: c}, {})
            if p0 is not None and all(b0 != b for b, _ in pts):
                pts.append((b0, p0))
        pts.sort()
        p, b = to_z3(n), to_z3(n.args[0])
        for b0, p0 in pts:
            zb, zp = zval(b0), zval(p0)
            out += [z3.Implies(b < zb, p < zp), z3.Implies(b > zb, p > zp),
                    z3.Implies(b == zb, p == zp)]
            sl = {"pow": lambda: n.data*p0/b0, "exp": lambda: p0,
                  "ln": lambda: 1/b0}[n.op]()
            t = zp + zval(sl)*(b - zb)
            eps = zval(abs(p0)*Fraction(1, 10**25) + Fraction(1, 10**28))
            out.append(p >= t - eps if n.op == "exp" else p <= t + eps)
        for (b0, p0), (b1, p1) in zip(pts, pts[1:]):
            t = zval(p0) + zval((p1 - p0)/(b1 - b0))*(b - zval(b0))
            eps = zval(abs(p1)*Fraction(1, 10**25) + Fraction(1, 10**28))
            cond = z3.And(b >= zval(b0), b <= zval(b1))
            out.append(z3.Implies(cond, p <= t + eps if n.op == "exp"
                                  else p >= t - eps))
    return out


def pairs(nodes, most=6):
    """Monotonicity and tangent axioms between powers with one exponent,
    between exponentials and between logarithms."""
    groups = {}
    for n in nodes:
        if n.op in ("pow", "exp", "ln"):
            groups.setdefault((n.op, n.data), []).append(n)
    out = []
    for (op, r), g in groups.items():
        if not 2 <= len(g) <= most:
            continue
        for i, m in enumerate(g):
            for n in g[i+1:]:
                p, b = to_z3(m), to_z3(m.args[0])
                q, c = to_z3(n), to_z3(n.args[0])
                out += [z3.Implies(b < c, p < q), z3.Implies(b > c, p > q),
                        z3.Implies(b == c, p == q)]
                if op == "pow" and 0 < r < 1:
                    # concave: q <= p + r*p/b*(c - b), bases are positive
                    z = zval(r)
                    out += [q*b <= p*b + z*p*(c - b),
                            p*c <= q*c + z*q*(b - c)]
                elif op == "exp":
                    out += [q >= p + p*(c - b), p >= q + q*(b - c)]
                elif op == "ln":
                    out += [b*q <= b*p + c - b, c*p <= c*q + b - c]
    return out


def _const_fun(name, q: Fraction):
    import mpmath
    with mpmath.workdps(40):
        v = getattr(mpmath, name)(mpmath.mpf(q.numerator) / q.denominator)
        return Fraction(mpmath.nstr(v, 30, strip_zeros=False, min_fixed=-1000,
                                    max_fixed=1000))


LN10 = Fraction("2.30258509299404568401799145468")


def _short(c: Fraction) -> Fraction:
    """The exponent without the rounding of the arithmetic that made it."""
    if c.denominator < 10**5:
        return c
    h = abs(c)/10**15
    g = _simplest_between(abs(c) - h, abs(c) + h)
    return (g if c > 0 else -g) if g.denominator < 10**5 else c


def mk_pow(base, c: Fraction, is_pos):
    """base ** c, constant exponent, base > 0."""
    c = _short(c)
    if c == 0:
        return const(1)
    if c.denominator == 1 and abs(c) < 40:
        return ipow(base, int(c))
    if c.denominator == 2 and abs(c) < 40:
        k = c.numerator // 2
        return mul(ipow(base, k), mk_sqrt(base, is_pos))
    v = constant_value(base)
    if v is not None:
        return const(_pow_value(v, c))
    sp = split_positive(base, is_pos)
    if sp is not None:
        q, parts = sp
        if not (len(parts) == 1 and parts[0][1] == 1 and q == 1):
            out = const(_pow_value(q, c)) if q != 1 else const(1)
            for nd, e in parts:
                out = mul(out, mk_pow(nd, c * e, is_pos))
            return out
        base = parts[0][0]
    if base.op == "pow":
        return mk_pow(base.args[0], base.data * c, is_pos)
    if base.op == "sqrt":
        return mk_pow(base.args[0], c / 2, is_pos)
    if base.op == "exp":
        return mk_exp(mul(const(c), base.args[0]), is_pos)
    k = c.numerator // c.denominator
    r = c - k
    if r > Fraction(1, 2):
        return div(ipow(base, k + 1), _atom("pow", base, 1 - r))
    return mul(ipow(base, k), _atom("pow", base, r))


def mk_ln(b, is_pos):
    v = constant_value(b)
    if v is not None:
        if v <= 0:
            raise ValueError("ln of non-positive constant")
        return const(_const_fun("log", v))
    sp = split_positive(b, is_pos)
    if sp is not None:
        q, parts = sp
        if not (len(parts) == 1 and parts[0][1] == 1 and q == 1):
            out = const(_const_fun("log", q)) if q != 1 else const(0)
            for nd, e in parts:
                out = add(out, mul(const(e), mk_ln(nd, is_pos)))
            return out
        b = parts[0][0]
    if b.op == "exp":
        return b.args[0]
    if b.op == "pow":
        return mul(const(b.data), mk_ln(b.args[0], is_pos))
    if b.op == "sqrt":
        return mul(const(Fraction(1, 2)), mk_ln(b.args[0], is_pos))
    return _atom("ln", b)


def mk_exp(e, is_pos):
    v = constant_value(e)
    if v is not None:
        return const(_const_fun("exp", v))
    # peel off  c*ln(z)  terms and constants
    try:
        r = rat(e)
    except TooBig:
        return _mk("exp", (e,))
    if not r.den:
        out = const(1)
        rest = {}
        for m, c in r.num.items():
            nd = _symnode[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
            if nd is not None and nd.op == "ln":
                out = mul(out, mk_pow(nd.args[0], c, is_pos))
            elif m == ():
                out = mul(out, const(_const_fun("exp", c)))
            else:
                rest[m] = c
        if len(rest) != len(r.num):
            if not rest:
                return out
            return mul(out, mk_exp(from_poly(rest), is_pos))
    # relation to existing exponentials
    for old in _exp_atoms:
        for p in (1, -1, 2, -2, 3, -3):
            d = sub(e, mul(const(p), old.args[0]))
            try:
                rd = rat(d)
            except TooBig:
                continue
            if rd.is_zero():
                return ipow(old, p)
            if not rd.den and all(
                    m == () or (len(m) == 1 and m[0][1] == 1
                                and _symnode[m[0][0]].op == "ln")
                    for m in rd.num):
                return mul(ipow(old, p), mk_exp(from_poly(rd.num), is_pos))
    n = _atom("exp", e)
    if n not in _exp_atoms:
        _exp_atoms.append(n)
    return n


def mk_fn(name, order, arg):
    return _atom("fn", arg, (name, order))


def mk_state(name, idx, arg):
    return _atom("state", arg, (name, idx))


# --------------------------------------------------------------------------
# differentiation
# --------------------------------------------------------------------------
class Undifferentiable(Exception):
    pass


def diff(n, v, state_deriv=None):
    """d n / d v.  state_deriv(name, idx, argnode) -> Node gives ODE rates."""
    memo = {}

    def d(x):
        if x.uid in memo:
            return memo[x.uid]
        if x.op == "const":
            r = const(0)
        elif x.op == "var":
            r = const(1 if x is v else 0)
        elif x.op == "add":
            r = add(d(x.args[0]), d(x.args[1]))
        elif x.op == "neg":
            r = neg(d(x.args[0]))
        elif x.op == "mul":
            a, b = x.args
            r = add(mul(d(a), b), mul(a, d(b)))
        elif x.op == "div":
            a, b = x.args
            r = sub(div(d(a), b), div(mul(a, d(b)), mul(b, b)))
        elif x.op == "sqrt":
            da = d(x.args[0])
            r = div(da, mul(const(2), x)) if not is_const(da, 0) else const(0)
        elif x.op == "pow":
            da = d(x.args[0])
            r = const(0) if is_const(da, 0) else \
                div(mul(mul(const(x.data), x), da), x.args[0])
        elif x.op == "exp":
            r = mul(x, d(x.args[0]))
        elif x.op == "ln":
            da = d(x.args[0])
            r = const(0) if is_const(da, 0) else div(da, x.args[0])
        elif x.op == "fn":
            da = d(x.args[0])
            r = const(0) if is_const(da, 0) else \
                mul(mk_fn(x.data[0], x.data[1] + 1, x.args[0]), da)
        elif x.op == "state":
            da = d(x.args[0])
            if is_const(da, 0):
                r = const(0)
            else:
                if state_deriv is None:
                    raise Undifferentiable(x.data)
                r = mul(state_deriv(x.data[0], x.data[1], x.args[0]), da)
        else:
            raise AssertionError(x.op)
        memo[x.uid] = r
        return r

    import sys
    sys.setrecursionlimit(100000)
    return d(n)


# --------------------------------------------------------------------------
# traversal helpers
# --------------------------------------------------------------------------
def leaves(roots):
    """All var and opaque nodes reachable from roots (through arguments)."""
    seen = set()
    out = []
    stack = list(roots)
    while stack:
        x = stack.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == "var" or x.op in OPAQUE:
            out.append(x)
        stack.extend(x.args)
    out.sort(key=lambda n: n.uid)
    return out


def evaluate(roots, values, memo=None):
    """
    Numeric evaluation (numpy broadcasting).  `values(node)` supplies var, fn
    and state nodes.  Domain errors become nan.
    """
    memo = {} if memo is None else memo
    with np.errstate(all="ignore"):
        for root in roots:
            stack = [root]
            while stack:
                x = stack[-1]
                if x.uid in memo:
                    stack.pop()
                    continue
                if x.op == "const":
                    memo[x.uid] = np.float64(x.data.numerator / x.data.denominator)
                    stack.pop()
                    continue
                if x.op == "var":
                    memo[x.uid] = values(x)
                    stack.pop()
                    continue
                todo = [a for a in x.args if a.uid not in memo]
                if todo:
                    stack.extend(todo)
                    continue
                a = [memo[y.uid] for y in x.args]
                if x.op == "add":
                    r = a[0] + a[1]
                elif x.op == "mul":
                    r = a[0] * a[1]
                elif x.op == "neg":
                    r = -a[0]
                elif x.op == "div":
                    r = np.divide(a[0], a[1])
                elif x.op == "sqrt":
                    r = np.sqrt(a[0])
                elif x.op == "pow":
                    r = np.power(a[0], float(x.data))
                elif x.op == "exp":
                    r = np.exp(a[0])
                elif x.op == "ln":
                    r = np.log(a[0])
                else:
                    r = values(x, a[0])
                memo[x.uid] = r
                stack.pop()
    return [memo[r.uid] for r in roots]


# --------------------------------------------------------------------------
# z3
# --------------------------------------------------------------------------
def zval(fr: Fraction):
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}")


def to_z3(n):
    if n._z is not None:
        return n._z
    stack = [n]
    while stack:
        x = stack[-1]
        if x._z is not None:
            stack.pop()
            continue
        if x.op == "const":
            x._z = zval(x.data)
        elif x.op == "var":
            x._z = z3.Real(x.data)
        elif x.op in OPAQUE:
            x._z = z3.Real(f"{x.op}!{x.uid}")
        else:
            todo = [a for a in x.args if a._z is None]
            if todo:
                stack.extend(todo)
                continue
            a = [y._z for y in x.args]
            x._z = {"add": lambda: a[0] + a[1], "mul": lambda: a[0] * a[1],
                    "div": lambda: a[0] / a[1], "neg": lambda: -a[0]}[x.op]()
        stack.pop()
    return n._z


def cleared(n):
    """(num, [den factors]) as nodes: n == num / prod(den)."""
    r = rat(n)
    return from_poly(r.num), [(from_poly(_factors[k]), e)
                              for k, e in r.den.items()]


def axioms(nodes, rich=True):
    """Solver axioms for the opaque nodes in `nodes` (sound, incomplete)."""
    out = []
    by = {}
    for n in nodes:
        by.setdefault(n.op, []).append(n)
    for n in by.get("sqrt", []):
        s, a = to_z3(n), to_z3(n.args[0])
        out += [s >= 0, s * s == a]
        if sign(n) == 1:
            out.append(s > 0)
    for n in by.get("pow", []):
        p, b, r = to_z3(n), to_z3(n.args[0]), n.data
        out += [p > 0]
        if rich:
            # concave power, 0<r<1/2:  tangent at 1
            out += [p <= 1 + zval(r) * (b - 1)]
            out += [z3.Implies(b > 1, p > 1), z3.Implies(b < 1, p < 1),
                    z3.Implies(b == 1, p == 1)]
        if r.denominator <= 4:
            out.append(p ** int(r.denominator) == b ** int(r.numerator))
    for n in by.get("exp", []):
        e, a = to_z3(n), to_z3(n.args[0])
        out += [e > 0]
        if rich:
            out += [e >= 1 + a, z3.Implies(a > 0, e > 1),
                    z3.Implies(a < 0, e < 1), z3.Implies(a == 0, e == 1)]
    for n in by.get("ln", []):
        l, a = to_z3(n), to_z3(n.args[0])
        if rich:
            out += [l <= a - 1, z3.Implies(a > 1, l > 0),
                    z3.Implies(a < 1, l < 0), z3.Implies(a == 1, l == 0)]
    if rich:
        for op in ("pow", "exp", "ln", "sqrt"):
            lst = by.get(op, [])
            for i, n in enumerate(lst):
                for m in lst[:i]:
                    if n.data != m.data:
                        continue
                    a, b = to_z3(n.args[0]), to_z3(m.args[0])
                    p, q = to_z3(n), to_z3(m)
                    out += [z3.Implies(a < b, p < q), z3.Implies(a > b, p > q),
                            z3.Implies(a == b, p == q)]
        # congruence of function / state atoms at equal arguments
        for op in ("fn", "state"):
            lst = by.get(op, [])
            for i, n in enumerate(lst):
                for m in lst[:i]:
                    if n.data == m.data:
                        out.append(z3.Implies(
                            to_z3(n.args[0]) == to_z3(m.args[0]),
                            to_z3(n) == to_z3(m)))
    return out
