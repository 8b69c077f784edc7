"""Symbolic reals, complex numbers and booleans that the real code computes with.

A Sym wraps a Poly over the generator table (Space) of the current execution path.  Arithmetic is exact (floats are
taken as the rationals they denote); `bool()` of a symbolic condition asks the explorer, which forks the path.
"""
import math
from fractions import Fraction
import numbers

import numpy as _np
import z3

from .poly import Poly, Space, normal, approx_zero_pair

CTX = None  # the SymCtx of the running path


def set_ctx(c):
    global CTX
    CTX = c


class Unsupported(Exception):
    """The engine cannot represent what the code does (never a verdict about the code)."""


class Undefined(Exception):
    """The code divides by something that can be zero."""


def unsupported(msg):
    if CTX is not None:
        CTX.fatal = CTX.fatal or f"unsupported: {msg}"
    raise Unsupported(msg)


_NUM = (int, float, Fraction, bool, _np.floating, _np.integer, _np.bool_)


def _frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, int, _np.integer, _np.bool_)):
        return Fraction(int(x))
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        unsupported("nan or inf in symbolic arithmetic")
    return Fraction(x)


def lift(x):
    """number or Sym -> Sym (None if neither)"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, _NUM):
        return Sym(Poly.const(_frac(x)))
    if isinstance(x, _np.ndarray) and x.shape == ():
        return lift(x.item())
    return None


def _is_complexish(x):
    return isinstance(x, CSym) or (isinstance(x, (complex, _np.complexfloating)))


def clift(x):
    if isinstance(x, CSym):
        return x
    if isinstance(x, (complex, _np.complexfloating)):
        return CSym(lift(float(x.real)), lift(float(x.imag)))
    s = lift(x)
    return None if s is None else CSym(s, ZERO)


def _nn(x):
    return x.nn or (x.p.is_const() and x.p.const_value() >= 0)


class Sym:
    __slots__ = ("p", "nn")        # nn: non-negative by construction (even power, sum of such)
    # let object arrays treat us as scalars
    __array_priority__ = 0

    def __init__(self, p, nn=False):
        self.p = p
        self.nn = nn

    # -- arithmetic
    def _bin(self, o, f, cf):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, (list, tuple)):           # a numpy scalar turns a sequence into an array
            return _with_sequence(self, o, f)
        if _is_complexish(o):
            return cf(CSym(self, ZERO), clift(o))
        s = lift(o)
        if s is None:
            return NotImplemented
        return f(self, s)

    def __add__(self, o):
        return self._bin(o, lambda a, b: Sym(a.p + b.p, _nn(a) and _nn(b)), lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: Sym(a.p - b.p), lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: Sym(b.p - a.p), lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: Sym(a.p * b.p, a is b or (_nn(a) and _nn(b))), lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, divide, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: divide(b, a), lambda a, b: b / a)

    def __pow__(self, n):
        if isinstance(n, Sym):
            if not n.p.is_const():
                unsupported("symbolic exponent")
            n = n.p.const_value()
        n = _frac(n)
        if n.denominator == 1:
            k = int(n)
            if k >= 0:
                return Sym(self.p.pow(k), k % 2 == 0 or self.nn)
            return divide(ONE, Sym(self.p.pow(-k)))
        if n.denominator == 2:
            return sqrt(self) ** int(2 * n)
        unsupported("fractional power")

    def __rpow__(self, b):
        if self.p.is_const() and self.p.const_value().denominator == 1:
            return lift(b) ** self.p.const_value()
        unsupported("symbolic exponent")

    def __neg__(self):
        return Sym(-self.p)

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __floor__(self):
        if self.p.is_const():
            v = self.p.const_value()
            return Sym(Poly.const(v.numerator // v.denominator))
        return self if self.is_integer_valued() else CTX.floored(self)

    def __ceil__(self):
        return -((-self).__floor__())

    def __trunc__(self):
        if self.is_integer_valued():
            return self
        return self.__floor__() if self >= 0 else self.__ceil__()

    floor, ceil, trunc = __floor__, __ceil__, __trunc__

    def __floordiv__(self, o):
        q = self / o
        return q.__floor__() if isinstance(q, Sym) else unsupported("floor division")

    def __rfloordiv__(self, o):
        q = o / self
        return q.__floor__() if isinstance(q, Sym) else unsupported("floor division")

    def __mod__(self, o):
        return self - o * (self // o)

    def __rmod__(self, o):
        return o - self * (o // self)

    def __divmod__(self, o):
        q = self // o
        return q, self - o * q

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, _np.ndarray) and o.shape != ():
            return NotImplemented
        if isinstance(o, float) and o in (math.inf, -math.inf):
            return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False, "!=": True}[op]
        if _is_complexish(o):
            if op in ("==", "!="):
                return (clift(self) == o) if op == "==" else (clift(self) != o)
            return NotImplemented
        s = lift(o)
        if s is None:
            return NotImplemented
        return compare(self, s, op)

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented and not isinstance(o, _np.ndarray) else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented and not isinstance(o, _np.ndarray) else r

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __hash__(self):
        return 0x5359

    def __bool__(self):
        r = compare(self, ZERO, "!=")
        return bool(r)

    # -- conversions
    def __float__(self):
        if self.p.is_const():
            return float(self.p.const_value())
        unsupported("float() of a symbolic value outside the verified modules")

    def __int__(self):
        if self.p.is_const() and self.p.const_value().denominator == 1:
            return int(self.p.const_value())
        unsupported("int() of a symbolic value outside the verified modules")

    def __index__(self):
        if self.p.is_const() and self.p.const_value().denominator == 1:
            return int(self.p.const_value())
        unsupported("symbolic value used as an index")

    def __round__(self, n=None):
        if self.is_integer_valued() and (n is None or n >= 0):
            return self
        return CTX.rounded(self, 0 if n is None else int(n))

    def rint(self):
        return self.__round__()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        return CTX.format_token(self, spec)

    def item(self):
        return self

    # numpy object ufuncs call these
    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def sqrt(self):
        return sqrt(self)

    def cos(self):
        return cos(self)

    def sin(self):
        return sin(self)

    def is_integer_valued(self):
        if any(c.denominator != 1 for c in self.p.t.values()):
            return False
        sp = CTX.space
        return all(e > 0 and sp.gens[g].integer for m in self.p.t for g, e in m)

    def show(self):
        return self.p.show(CTX.space)


def _with_sequence(a, seq, f):
    from .shim import arr, _map
    return _map(lambda v: f(a, lift(v)), arr(list(seq)))


ZERO = Sym(Poly({}))
ONE = Sym(Poly.const(1))


def _known_nonzero(p):
    """True when p is a monomial in generators known to be non-zero."""
    if len(p.t) != 1:
        return False
    (m, _), = p.t.items()
    return all(CTX.space.gens[g].nonzero for g, _ in m)


def _inv_monomial(p):
    (m, c), = p.t.items()
    return Poly({tuple((g, -e) for g, e in m): 1 / c})


def divide(a, b):
    p = CTX.subst(b.p)
    b = Sym(p)
    if p.is_const():
        c = p.const_value()
        if c == 0:
            raise ZeroDivisionError("division by zero")
        return Sym(a.p.scale(1 / c))
    if not a.p.t:
        ensure_nonzero(b)
        return ZERO
    if not _known_nonzero(p):
        if len(p.t) > 1 and any(e < 0 for m in p.t for _, e in m):
            p = CTX.simplify(p)
            b = Sym(p)
            if p.is_const() or not p.t:
                return divide(a, b)
        ensure_nonzero(b)
    if len(p.t) == 1:
        (m, _), = p.t.items()
        for g, _e in m:
            CTX.space.gens[g].nonzero = True
        return Sym(a.p * _inv_monomial(p))
    d, c, mono = def_gen(p)
    # p == c * mono * d  (mono: Laurent monomial of non-zero generators)
    return Sym(a.p * _inv_monomial(Poly({mono: c})) * Poly({((d.idx, -1),): Fraction(1)}))


def _content(p, sp):
    """common Laurent monomial of generators known to be non-zero"""
    mono = []
    for g in sorted(p.gens()):
        es = []
        for m in p.t:
            e = 0
            for gg, ee in m:
                if gg == g:
                    e = ee
            es.append(e)
        e = min(es)
        if e < 0 or (e > 0 and sp.gens[g].nonzero):
            mono.append((g, e))
    return tuple(mono)


def def_gen(p):
    """Generator d with p = c*mono*d; mono pulls out common factors that are known non-zero."""
    sp = CTX.space
    mono = _content(p, sp)
    if mono:
        p = p * Poly({tuple((g, -e) for g, e in mono): Fraction(1)})
    lead = min(p.t)
    c = p.t[lead]
    q = p.scale(1 / c)
    key = ("def", q.key())
    d = sp.new(f"den{len(sp.gens)}", "def", q, key=key, nonzero=True)
    d.nonzero = True
    return d, c, mono


def _multiple_of_nonzero(p):
    """p = c * q or c * q**2 for a polynomial q that is known not to vanish on this path"""
    if len(p.t) < 2 or not CTX.nonzero_polys:
        return False
    mono = _content(p, CTX.space)
    if mono:
        p = p * Poly({tuple((g, -e) for g, e in mono): Fraction(1)})
    for q in CTX.nonzero_polys:
        for r in (q, q * q):
            if len(r.t) == len(p.t):
                m = min(r.t)
                if m in p.t and (p - r.scale(p.t[m] / r.t[m])).t == {}:
                    return True
    return False


def ensure_nonzero(b):
    if _multiple_of_nonzero(b.p):
        return
    z = compare(b, ZERO, "==")
    if z is False:
        return
    if z is True:
        raise ZeroDivisionError("division by zero")
    if bool(z):
        CTX.undefined("division by a value that can be zero")
        raise ZeroDivisionError("division by zero (symbolic)")


# ---------------------------------------------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.decide(self.e)

    def __and__(self, o):
        return mk_bool(z3.And(self.e, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mk_bool(z3.Or(self.e, zb(o)))

    __ror__ = __or__

    def __invert__(self):
        return mk_bool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_, SymBool)):
            return mk_bool(self.e == zb(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, _np.bool_, SymBool)):
            return mk_bool(self.e != zb(o))
        return NotImplemented

    def __hash__(self):
        return hash(bool(self))

    def __deepcopy__(self, memo):
        return self

    def all(self):
        return self

    def any(self):
        return self

    def __int__(self):
        return int(bool(self))

    def __repr__(self):
        return f"SymBool({self.e})"


def zb(x):
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


def mk_bool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def conj(xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.e)
        elif not x:
            return False
    if not out:
        return True
    return mk_bool(z3.And(*out))


def disj(xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.e)
        elif x:
            return True
    if not out:
        return False
    return mk_bool(z3.Or(*out))


def compare(a, b, op):
    d = a.p - b.p
    if not d.is_const():
        d = CTX.subst(d)
    if not d.is_const() and op in ("==", "!="):
        n = normal(d, CTX.space)
        if not n.t:
            d = n
        elif len(n.t) == 1 and _known_nonzero(n):
            return op == "!="
        else:
            d = n
    if d.is_const():
        c = d.const_value()
        return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
    # a single monomial of generators with known sign
    if len(d.t) == 1:
        (m, c), = d.t.items()
        gs = [CTX.space.gens[g] for g, e in m]
        if all(e % 2 == 0 or g.nonneg for (_, e), g in zip(m, gs)):
            nz = all(g.nonzero for g in gs)
            sgn = 1 if c > 0 else -1
            if op == ">=" and sgn > 0 or op == "<=" and sgn < 0:
                return True
            if op == "<" and sgn > 0 or op == ">" and sgn < 0:
                return False
            if nz and (op == ">" and sgn > 0 or op == "<" and sgn < 0 or op == "!="):
                return True
            if nz and op in ("<=", ">=", "=="):
                return False
    e, zero = CTX.z3_poly(d)
    r = {"==": e == zero, "!=": e != zero, "<": e < zero, "<=": e <= zero, ">": e > zero, ">=": e >= zero}[op]
    if op in ("==", "!="):
        CTX.note_eq(r, d, op)
    return SymBool(r)


# ---------------------------------------------------------------------------------------------------- functions
def _monomial_sqrt(p):
    """sqrt of c*m**2 with m built from non-negative generators (or even exponents), else None."""
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if c < 0:
        return None
    rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
    exact = rn * rn == c.numerator and rd * rd == c.denominator
    if not exact:
        return None
    out = []
    for g, e in m:
        if e % 2:
            return None
        gg = CTX.space.gens[g]
        if not gg.nonneg and (e // 2) % 2:
            return None
        out.append((g, e // 2))
    return Poly({tuple(out): Fraction(rn, rd)})


def sqrt(x, square_sum=False):
    x = lift(x)
    p = x.p
    if p.is_const():
        c = p.const_value()
        if c < 0:
            raise ValueError("math domain error")
        rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if rn * rn == c.numerator and rd * rd == c.denominator:
            return Sym(Poly.const(Fraction(rn, rd)))
        return Sym(Poly.const(Fraction(math.sqrt(c))))
    p = CTX.subst(p)
    p = CTX.simplify(p)
    r = _monomial_sqrt(p)
    if r is not None:
        return Sym(r)
    # pull out even powers of non-negative / non-zero generators common to all terms
    sp = CTX.space
    root = Poly.const(1)
    for g in sorted(p.gens()):
        es = [dict(m).get(g, 0) for m in p.t]
        e = min(es)
        if e < 0 and e % 2 and sp.gens[g].kind == "def" and _sum_of_squares(sp.gens[g].data):
            # sqrt(N/d) = sqrt(N)/sqrt(d) for a denominator that is a sum of squares
            p = p * Poly({((g, -e),): Fraction(1)})
            (m, c), = sqrt(Sym(sp.gens[g].data)).p.t.items()
            root = root * _inv_monomial(Poly({m: c})).pow(-e)
            continue
        e = e - (e % 2)
        if e and (e < 0 or sp.gens[g].nonneg):
            p = p * Poly({((g, -e),): Fraction(1)})
            h = Poly({((g, e // 2),): Fraction(1)})
            if not sp.gens[g].nonneg and (e // 2) % 2:
                h = sabs(Sym(h)).p
            root = root * h
    p = CTX.simplify(p)
    r = _monomial_sqrt(p)
    if r is not None:
        return Sym(r * root)
    # a product of several non-negative generators: product of their roots (one canonical form)
    if len(p.t) == 1:
        (m1, c1), = p.t.items()
        if len(m1) > 1 and c1 > 0 and all(sp.gens[g].nonneg for g, _ in m1):
            out = Sym(root) * sqrt(Sym(Poly.const(c1)))
            for g, e in m1:
                out = out * sqrt(Sym(Poly({((g, e),): Fraction(1)})))
            return Sym(out.p, True)
    # normalise the leading coefficient: sqrt(c*q) = sqrt(c)*sqrt(q)
    lead = min(p.t)
    c = abs(p.t[lead])
    rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if rn * rn == c.numerator and rd * rd == c.denominator:
        k = Fraction(rn, rd)
        q = p.scale(1 / c)
    else:
        k = _const_root(c)
        q = p.scale(1 / c)
        if isinstance(k, Poly):
            root, k = root * k, 1
    if not square_sum and not x.nn and not _sum_of_squares(q) and ("sqrt", q.key()) not in sp.by_key:
        neg = compare(Sym(q), ZERO, "<")
        if neg is True or (neg is not False and bool(neg)):
            raise ValueError("math domain error")
    g = sp.new(f"sqrt{len(sp.gens)}", "sqrt", q, key=("sqrt", q.key()), nonneg=True)
    return Sym(root * Poly.gen(g).scale(k), True)


def _const_root(c):
    """root of a small rational as an exact generator (its square is the rational), of any other number as a float"""
    n = c.numerator * c.denominator
    if n > 10 ** 6:
        return Fraction(math.sqrt(c))
    s, f, d = 1, n, 2
    while d * d <= f:
        while f % (d * d) == 0:
            f //= d * d
            s *= d
        d += 1
    q = Poly.const(f)
    g = CTX.space.new(f"root({f})", "sqrt", q, key=("sqrt", q.key()), nonneg=True, nonzero=True)
    return Poly.gen(g).scale(Fraction(s, c.denominator))


def _sum_of_squares(p):
    for m, c in p.t.items():
        if c < 0:
            return False
        for g, e in m:
            if e % 2 and not CTX.space.gens[g].nonneg:
                return False
    return True


def sabs(x):
    if isinstance(x, CSym):
        return sqrt(x.re * x.re + x.im * x.im, square_sum=True)
    x = lift(x)
    p = x.p
    if p.is_const():
        return Sym(Poly.const(abs(p.const_value())))
    r = compare(x, ZERO, ">=")
    if r is True or (r is not False and bool(r)):
        return x
    return -x


def _round_coef(c):
    """Snap a rational to a nearby simple one (relative 1e-11): absorbs float rounding in products of constants."""
    r = c.limit_denominator(100000)
    if r != 0 and abs(r - c) <= abs(c) * Fraction(1, 10 ** 11):
        return r
    return Fraction(f"{float(c):.12e}")


PI = Fraction(math.pi)


def _trig_arg(p):
    """(sign, key polynomial, constant part): p = sign*(q) + const"""
    q = {}
    const = Fraction(0)
    for m, c in p.t.items():
        if m == ():
            const = c
        else:
            q[m] = _round_coef(c)
    return Poly(q), const


def cos(x):
    if isinstance(x, CSym):
        unsupported("cos of a complex value")
    return _trig(lift(x))[0]


def sin(x):
    return _trig(lift(x))[1]


def _trig(x):
    p = CTX.subst(x.p)
    q, const = _trig_arg(p)
    if not q.t:
        return Sym(Poly.const(_snap_trig(math.cos(const)))), Sym(Poly.const(_snap_trig(math.sin(const))))
    # cos/sin of arccos / arctan2 generators
    if const == 0 and len(q.t) == 1:
        (m, c), = q.t.items()
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            g = CTX.space.gens[m[0][0]]
            if g.kind == "fun" and "cos" in g.data:
                cc, ss = g.data["cos"], g.data["sin"]
                return (cc, ss if c > 0 else -ss)
    lead = min(q.t)
    sgn = 1
    if q.t[lead] < 0:
        sgn = -1
        q = -q
    sp = CTX.space
    k = q.key()
    first = ("cos", k) not in sp.by_key
    c = sp.new(f"cos{len(sp.gens)}", "cos", q, key=("cos", k))
    s = sp.new(f"sin{len(sp.gens)}", "sin", q, key=("sin", k))
    cc, ss = Sym(Poly.gen(c)), Sym(Poly.gen(s).scale(sgn))
    if const:
        c0, s0 = _snap_trig(math.cos(const)), _snap_trig(math.sin(const))
        return cc * c0 - ss * s0, ss * c0 + cc * s0
    return cc, ss


def _snap_trig(v):
    for t in (0.0, 1.0, -1.0, 0.5, -0.5):
        if abs(v - t) < 1e-12:
            return Fraction(t)
    return Fraction(v)


def _arccos_facts(v, x):
    e, zero = CTX.z3_poly(x.p - ONE.p)
    m, zero2 = CTX.z3_poly(x.p + ONE.p)
    return [v >= 0, v <= z3.RealVal("3.1415926536"), (v == 0) == (e == zero), e <= zero, m >= zero2,
            (v >= z3.RealVal("3.1415926535")) == (m == zero2)]


def arccos(x):
    x = lift(x)
    if x.p.is_const():
        return Sym(Poly.const(Fraction(math.acos(float(x.p.const_value())))))
    p = CTX.simplify(CTX.subst(x.p))
    sp = CTX.space
    key = ("arccos", p.key())
    if key in sp.by_key:
        return Sym(Poly.gen(sp.by_key[key]))
    x = Sym(p)
    s = sqrt(ONE - x * x)
    g = sp.new(f"arccos{len(sp.gens)}", "fun", {"cos": x, "sin": s, "facts": lambda v: _arccos_facts(v, x)}, key=key, nonneg=True)
    return Sym(Poly.gen(g))


def arctan2(y, x):
    y, x = lift(y), lift(x)
    if y.p.is_const() and x.p.is_const():
        return Sym(Poly.const(Fraction(math.atan2(float(y.p.const_value()), float(x.p.const_value())))))
    sp = CTX.space
    key = ("arctan2", y.p.key(), x.p.key())
    if key in sp.by_key:
        return Sym(Poly.gen(sp.by_key[key]))
    r = sqrt(x * x + y * y)
    z = compare(r, ZERO, "==")
    if z is True or (z is not False and bool(z)):
        return ZERO
    g = sp.new(f"arctan2_{len(sp.gens)}", "fun",
               {"cos": x / r, "sin": y / r, "facts": lambda v: [v >= z3.RealVal("-3.1415926536"), v <= z3.RealVal("3.1415926536")]}, key=key)
    return Sym(Poly.gen(g))


def exp(x):
    if _is_complexish(x):
        x = clift(x)
        if not x.re.p.is_const():
            unsupported("exp of a real symbolic part")
        k = Fraction(math.exp(x.re.p.const_value()))
        c, s = _trig(x.im)
        return CSym(c * k, s * k)
    x = lift(x)
    if x.p.is_const():
        return Sym(Poly.const(Fraction(math.exp(x.p.const_value()))))
    unsupported("exp of a symbolic value")


# ---------------------------------------------------------------------------------------------------- complex
class CSym:
    __slots__ = ("re", "im")
    __array_priority__ = 0

    def __init__(self, re, im):
        self.re, self.im = re, im

    def _bin(self, o, f):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        c = clift(o)
        if c is None:
            return NotImplemented
        return f(self, c)

    def __add__(self, o):
        return self._bin(o, lambda a, b: CSym(a.re + b.re, a.im + b.im))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: CSym(a.re - b.re, a.im - b.im))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: CSym(b.re - a.re, b.im - a.im))

    def __mul__(self, o):
        return self._bin(o, lambda a, b: CSym(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re))

    __rmul__ = __mul__

    @staticmethod
    def _div(a, b):
        if not b.im.p.t:
            return CSym(a.re / b.re, a.im / b.re)
        n = b.re * b.re + b.im * b.im
        t = a * b.conjugate()
        return CSym(t.re / n, t.im / n)

    def __truediv__(self, o):
        return self._bin(o, CSym._div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: CSym._div(b, a))

    def __neg__(self):
        return CSym(-self.re, -self.im)

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __pow__(self, n):
        n = int(n)
        r = CSym(ONE, ZERO)
        for _ in range(abs(n)):
            r = r * self
        return r if n >= 0 else CSym(ONE, ZERO) / r

    def __eq__(self, o):
        c = clift(o)
        if c is None:
            return False
        return conj([compare(self.re, c.re, "=="), compare(self.im, c.im, "==")])

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return 0x5359

    def __bool__(self):
        return bool(self != 0)

    def conjugate(self):
        return CSym(self.re, -self.im)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<csym>"

    def __complex__(self):
        return complex(float(self.re), float(self.im))


def is_sym(x):
    return isinstance(x, (Sym, CSym, SymBool))
