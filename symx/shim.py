"""numpy / math / scipy-Rotation / h5py stand-ins that let the unmodified modules compute with symbolic values.

Everything symbolic lives in object arrays; functions without a symbolic meaning fall through to the real numpy when
every operand is an ordinary number.
"""
import os
import builtins
import math
import types
from fractions import Fraction

import numpy as np

from . import sym as S
from .sym import Sym, CSym, SymBool, lift, unsupported, conj, disj

_real_float, _real_int = builtins.float, builtins.int


# ---------------------------------------------------------------------------------------------- arrays
class SymArray(np.ndarray):
    """object array whose comparisons are symbolic"""

    def __array_finalize__(self, obj):
        pass

    def __array_wrap__(self, out, context=None):
        if out.shape == ():
            return out[()]
        return np.ndarray.__array_wrap__(self, out, context)

    def __array_ufunc__(self, ufunc, method, *ins, out=None, **kw):
        ins = [x.view(np.ndarray) if isinstance(x, SymArray) else x for x in ins]
        if out is not None:
            kw["out"] = tuple(x.view(np.ndarray) if isinstance(x, SymArray) else x for x in out)
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            return out[0]
        return _wrap(r)

    def __array_function__(self, func, types, args, kwargs):
        r = super().__array_function__(func, types, args, kwargs)
        return _wrap(r)

    def sum(self, *a, **kw):
        return _wrap(np.ndarray.sum(self.view(np.ndarray), *a, **kw))

    def dot(self, o):
        return _wrap(np.dot(self.view(np.ndarray), np.asarray(o)))

    def trace(self, *a, **kw):
        return _wrap(self.view(np.ndarray).trace(*a, **kw))

    def _cmp(self, o, op):
        o = np.asarray(o, dtype=object) if not isinstance(o, np.ndarray) else o
        a, b = np.broadcast_arrays(np.asarray(self).view(np.ndarray), np.asarray(o).view(np.ndarray))
        out = np.empty(a.shape, dtype=object)
        for idx in np.ndindex(a.shape):
            x, y = a[idx], b[idx]
            out[idx] = {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y,
                        ">": lambda: x > y, ">=": lambda: x >= y}[op]()
        if not any(isinstance(v, SymBool) for v in out.flat):
            return out.astype(bool)
        return out.view(SymArray)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return np.zeros(self.shape, dtype=bool)
        return self._cmp(o, "==")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return np.ones(self.shape, dtype=bool)
        return self._cmp(o, "!=")

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    __hash__ = None

    def tobytes(self, *a, **kw):
        if self.dtype == object:
            # the addresses of the elements: neither equal for equal numbers nor different for different ones
            unsupported("memory of an array of symbolic values")
        return np.ndarray.tobytes(self, *a, **kw)

    tostring = tobytes

    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, _mask(k))

    def __setitem__(self, k, v):
        np.ndarray.__setitem__(self, _mask(k), v)

    def all(self, axis=None, **kw):
        if axis is None:
            return conj(list(self.flat))
        return np.ndarray.all(self, axis=axis, **kw)

    def any(self, axis=None, **kw):
        if axis is None:
            return disj(list(self.flat))
        return np.ndarray.any(self, axis=axis, **kw)

    def astype(self, dtype, *a, **kw):
        if _is_num_dtype(dtype):
            return _stored(self.copy(), dtype)
        if dtype is object:
            return self.copy()
        return np.ndarray.astype(self, dtype, *a, **kw)

    @property
    def real(self):
        return _map(lambda x: x.real, self)

    @property
    def imag(self):
        return _map(lambda x: x.imag, self)

    def __deepcopy__(self, memo):
        return self.copy()

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous.")


def _mask(k):
    """a symbolic boolean mask is decided element by element (the path forks)"""
    if isinstance(k, tuple):
        return tuple(_mask(x) if isinstance(x, np.ndarray) else x for x in k)
    if isinstance(k, np.ndarray) and k.dtype == object and k.shape != () and all(isinstance(x, (SymBool, bool, np.bool_)) for x in k.flat):
        return np.array([bool(x) for x in k.view(np.ndarray).flat], dtype=bool).reshape(k.shape)
    return k


def _wrap(r):
    if isinstance(r, tuple):
        return tuple(_wrap(x) for x in r)
    if isinstance(r, np.ndarray):
        if r.shape == ():
            return r[()]
        if r.dtype == object:
            return r.view(SymArray)
    return r


def _is_num_dtype(d):
    if d is None:
        return False
    if isinstance(d, type) and (issubclass(d, (_real_float, complex, np.floating, np.complexfloating)) or d in (FloatShim, IntShim) or d is _real_int):
        return True
    if isinstance(d, str):
        return d.startswith(("f", "c", "d", "i"))
    if isinstance(d, np.dtype):
        return d.kind in "fci"
    return False


def _is_complex_dtype(d):
    if isinstance(d, type):
        return issubclass(d, (complex, np.complexfloating))
    return d.startswith("c") if isinstance(d, str) else getattr(d, "kind", "") == "c"


def _is_int_dtype(d):
    return d is IntShim or d is _real_int or (isinstance(d, str) and d.startswith("i")) or (isinstance(d, type) and issubclass(d, np.integer))


NARROW = {"float32": 24, "f4": 24, "f": 24, "single": 24, "complex64": 24, "c8": 24, "float16": 11, "f2": 11, "half": 11, "e": 11}


def _narrow(d):
    """bits of the mantissa of a type that is narrower than float64"""
    if isinstance(d, str):
        return NARROW.get(d.lstrip("<>="))
    if isinstance(d, type) and issubclass(d, np.generic):
        return NARROW.get(d.__name__)
    return NARROW.get(d.name) if isinstance(d, np.dtype) else None


def _stored(a, dtype):
    """the elements of the array after the conversion to the type"""
    bits = _narrow(dtype)
    if bits is not None:
        conv = np.float32 if bits == 24 else np.float16

        def f(v):
            if isinstance(v, Sym) and not v.p.is_const():
                return S.CTX.narrowed(v, bits)
            if isinstance(v, (Sym, _real_float)) and not isinstance(v, np.complexfloating):
                return _real_float(conv(_real_float(v)))
            return v
    elif _is_int_dtype(dtype):
        f = lambda v: int_(v) if isinstance(v, (Sym, _real_float)) else v
    else:
        return a
    out = np.empty(a.shape, dtype=object)
    for k in np.ndindex(a.shape):
        out[k] = f(a[k])
    return out.view(SymArray)


def has_sym(x, depth=0):
    if isinstance(x, (Sym, CSym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(y) for y in x.flat)
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x)
    if hasattr(x, "matrix") and isinstance(getattr(x, "matrix", None), np.ndarray):
        return True
    return False


def arr(x):
    """object SymArray of numbers / Syms (validated)"""
    if isinstance(x, (Sym, CSym)):
        out = np.empty((), dtype=object)
        out[()] = x
        return out.view(SymArray)
    if hasattr(x, "matrix") and isinstance(getattr(x, "matrix", None), np.ndarray) and not isinstance(x, np.ndarray):
        x = x.matrix
    if isinstance(x, (list, tuple)) and any(isinstance(y, np.ndarray) for y in x):
        x = [y.tolist() if isinstance(y, np.ndarray) else (list(y) if isinstance(y, tuple) else y) for y in x]
    if not isinstance(x, (list, tuple, np.ndarray)) and not isinstance(x, S._NUM) and hasattr(x, "__iter__") and not isinstance(x, str):
        if hasattr(x, "__array__"):
            x = x.__array__()
        elif not hasattr(x, "__len__"):
            raise TypeError(f"float() argument must be a string or a real number, not '{type(x).__name__}'")
    a = np.array(x, dtype=object)
    for idx in np.ndindex(a.shape):
        v = a[idx]
        if isinstance(v, (Sym, CSym)):
            continue
        if isinstance(v, (bool, _real_int, _real_float, np.number, np.bool_, Fraction)):
            a[idx] = _real_float(v)
        elif isinstance(v, (complex,)):
            a[idx] = complex(v)
        elif isinstance(v, str):
            a[idx] = float_(v)
        elif isinstance(v, (list, tuple)):
            raise ValueError("setting an array element with a sequence.")
        elif v is None:
            a[idx] = _real_float("nan")          # as numpy does
        else:
            raise TypeError(f"float() argument must be a string or a real number, not '{type(v).__name__}'")
    return a.view(SymArray)


def _map(f, x, *rest):
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        a = np.asarray(x, dtype=object).view(np.ndarray)
        if rest:
            bs = np.broadcast_arrays(a, *[np.asarray(r, dtype=object).view(np.ndarray) for r in rest])
            out = np.empty(bs[0].shape, dtype=object)
            for idx in np.ndindex(out.shape):
                out[idx] = f(*[b[idx] for b in bs])
        else:
            out = np.empty(a.shape, dtype=object)
            for idx in np.ndindex(a.shape):
                out[idx] = f(a[idx])
        if out.shape == ():
            return out[()]
        return out.view(SymArray)
    if rest and any(isinstance(r, (np.ndarray, list, tuple)) for r in rest):
        bs = np.broadcast_arrays(*[np.asarray(r, dtype=object).view(np.ndarray) for r in (x,) + rest])
        out = np.empty(bs[0].shape, dtype=object)
        for idx in np.ndindex(out.shape):
            out[idx] = f(*[b[idx] for b in bs])
        return out.view(SymArray)
    return f(x, *rest)


def unary(realf, symf):
    def g(x, *a, **kw):
        kw.pop("dtype", None)
        if not has_sym(x):
            if isinstance(x, np.ndarray) and x.dtype == object:
                return _map(lambda v: _native(realf(v)), x)
            return realf(x, *a, **kw)
        return _map(lambda v: symf(v) if isinstance(v, (Sym, CSym)) else _native(realf(v)), x)
    return g


def _native(v):
    if isinstance(v, np.floating):
        return _real_float(v)
    if isinstance(v, np.complexfloating):
        return complex(v)
    return v


# ---------------------------------------------------------------------------------------------- float / int shims
def float_(x=0.0):
    if isinstance(x, Sym):
        return x
    if isinstance(x, CSym):
        raise TypeError("can't convert complex to float")
    if isinstance(x, np.ndarray) and x.shape == ():
        return float_(x[()])
    if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object:
        return float_(x.reshape(-1)[0])
    if isinstance(x, str) and S.CTX is not None:
        w = S.CTX.world.words.get(x.strip().lower()) if S.CTX.world.words else None
        if w is not None:
            return w.as_float()
        t = S.CTX.parse_token(x)
        if t is not None:
            return t
    return _real_float(x)


def int_(x=0, *a):
    if isinstance(x, Sym):
        if x.p.is_const():
            return _real_int(x.p.const_value())
        if x.is_integer_valued():
            return x
        return x.__trunc__()
    if isinstance(x, SymBool):
        return _real_int(bool(x))
    if isinstance(x, str) and S.CTX is not None:
        w = S.CTX.world.words.get(x.strip().lower()) if S.CTX.world.words else None
        if w is not None:
            return w.as_int()
        t = S.CTX.parse_token(x)
        if t is not None:
            if not t.is_integer_valued():
                raise ValueError(f"invalid literal for int() with base 10: {x!r}")
            return t
    return _real_int(x, *a)


class _FloatMeta(type):
    def __call__(cls, *a):
        return float_(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, (_real_float, Sym))

    def __eq__(cls, o):
        return o is cls or o is _real_float

    def __hash__(cls):
        return hash(_real_float)


class FloatShim(metaclass=_FloatMeta):
    fromhex = staticmethod(_real_float.fromhex)


class _IntMeta(type):
    def __call__(cls, *a):
        return int_(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, _real_int) or (isinstance(x, Sym) and x.is_integer_valued())

    def __eq__(cls, o):
        return o is cls or o is _real_int

    def __hash__(cls):
        return hash(_real_int)


class IntShim(metaclass=_IntMeta):
    pass


# ---------------------------------------------------------------------------------------------- numpy functions
def _real_dtype(d):
    if d is FloatShim:
        return _real_float
    if d is IntShim:
        return _real_int
    return d


def np_array(x, dtype=None, copy=True, **kw):
    if dtype is not None and _is_num_dtype(dtype):
        if _is_int_dtype(dtype) and not has_sym(x):
            return np.array(x, dtype=_real_int)
        a = _stored(arr(x).copy(), dtype)
        if not _is_complex_dtype(dtype) and any(isinstance(v, (complex, CSym)) for v in a.flat):
            if not isinstance(x, np.ndarray):
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            return _map(lambda v: v.real, a)
        return a
    if dtype is None and not has_sym(x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array(x, dtype=object).view(SymArray)
        r = np.array(x, **kw)
        if r.dtype.kind in "fc":
            return arr(r)
        return r
    if dtype is None:
        return arr(x).copy()
    return np.array(x, dtype=_real_dtype(dtype), **kw)


def np_asarray(x, dtype=None, **kw):
    if isinstance(x, SymArray) and (dtype is None or _narrow(dtype) is None and not _is_int_dtype(dtype)):
        return x
    return np_array(x, dtype=dtype)


def _filled(shape, v, dtype):
    if dtype is None or _is_num_dtype(dtype):
        out = np.empty(shape, dtype=object)
        if _is_int_dtype(dtype) if dtype is not None else False:
            return np.full(shape, v, dtype=_real_int)
        out[...] = v
        return out.view(SymArray)
    return np.full(shape, v, dtype=_real_dtype(dtype))


def np_zeros(shape, dtype=None, **kw):
    return _filled(shape, 0.0, dtype)


def np_ones(shape, dtype=None, **kw):
    return _filled(shape, 1.0, dtype)


def np_full(shape, v, dtype=None, **kw):
    return _filled(shape, v, dtype)


def np_eye(n, m=None, dtype=None, **kw):
    out = _filled((n, m or n), 0.0, float)
    for i in range(min(n, m or n)):
        out[i, i] = 1.0
    return out


def np_zeros_like(x, dtype=None, **kw):
    return _filled(np.shape(x), 0.0, dtype)


def np_ones_like(x, dtype=None, **kw):
    return _filled(np.shape(x), 1.0, dtype)


def _sq(v):
    if isinstance(v, (CSym, complex, np.complexfloating)):
        c = S.clift(v)
        return c.re * c.re + c.im * c.im
    return v * v


def _root(v):
    return S.sqrt(v, square_sum=True) if isinstance(v, Sym) else math.sqrt(v)


def norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        return np.linalg.norm(np.array(np.asarray(x).tolist(), dtype=_real_float if not _has_complex(x) else complex), ord=ord, axis=axis, keepdims=keepdims)
    if ord not in (None, 2, "fro"):
        unsupported("norm of this order")
    a = arr(x)
    if axis is None:
        if a.ndim > 1 and ord == 2:
            unsupported("matrix 2-norm")
        t = 0.0
        for v in a.flat:
            t = t + _sq(v)
        return _root(t)
    if keepdims:
        unsupported("norm keepdims")
    s = np.ndarray.sum(_map(_sq, a), axis=axis)
    return _map(_root, s)


def _has_complex(x):
    return any(isinstance(v, (complex, np.complexfloating)) for v in np.asarray(x, dtype=object).flat)


def det(m):
    m = arr(m)
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    if n == 3:
        return (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
                + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))
    if not has_sym(m):
        return np.linalg.det(np.array(m.tolist(), dtype=_real_float))
    unsupported("determinant of a large symbolic matrix")


def adj3(m):
    c = np.empty((3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            r = [k for k in range(3) if k != i]
            s = [k for k in range(3) if k != j]
            minor = m[r[0], s[0]] * m[r[1], s[1]] - m[r[0], s[1]] * m[r[1], s[0]]
            c[j, i] = minor if (i + j) % 2 == 0 else -minor
    return c.view(SymArray)


def inv(m):
    m = arr(m)
    if not has_sym(m):
        return arr(np.linalg.inv(np.array(m.tolist(), dtype=complex if _has_complex(m) else _real_float)))
    if "inv" in S.CTX.linalg:
        return S.CTX.linalg["inv"](m)
    if m.shape == (2, 2):
        d = det(m)
        a = arr([[m[1, 1], -m[0, 1]], [-m[1, 0], m[0, 0]]])
        return _map(lambda v: S.clift(v) / S.clift(d) if isinstance(d, CSym) or lift(v) is None else lift(v) / d, a)
    if m.shape != (3, 3):
        unsupported("inverse of a symbolic matrix that is not 2x2 or 3x3")
    d = det(m)
    return _map(lambda v: lift(v) / d if lift(v) is not None else S.clift(v) / d, adj3(m))


def solve(a, b):
    if not has_sym(a) and not has_sym(b):
        return arr(np.linalg.solve(np.array(np.asarray(a).tolist(), dtype=_real_float), np.array(np.asarray(b).tolist(), dtype=_real_float)))
    a, b = arr(a), arr(b)
    if a.shape != (3, 3):
        return inv(a) @ b
    d = det(a)
    r = adj3(a) @ b
    return _map(lambda v: lift(v) / d, r)


def _close(a, b, rtol, atol):
    if isinstance(a, (CSym, complex)) or isinstance(b, (CSym, complex)):
        ca, cb = S.clift(a), S.clift(b)
        return conj([_close(ca.re, cb.re, rtol, atol), _close(ca.im, cb.im, rtol, atol)])
    a, b = lift(a), lift(b)
    lim = atol + rtol * S.sabs(b) if rtol else lift(atol)
    lim = lift(lim)
    d = a - b
    return conj([d <= lim, d >= -lim])


def isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    if not has_sym(a) and not has_sym(b):
        return np.isclose(_num(a), _num(b), rtol=rtol, atol=atol)
    r = _map(lambda x, y: _close(x, y, rtol, atol), a if isinstance(a, np.ndarray) else np.asarray(a, dtype=object) if isinstance(a, (list, tuple)) else a, b)
    return r


def _num(x):
    a = np.asarray(x)
    if a.dtype == object:
        return np.array(a.tolist(), dtype=complex if _has_complex(a) else _real_float)
    return a


def _length_excludes(a, b, rtol, atol):
    """a has a constant length larger than anything close to the constant b can have"""
    if has_sym(b) or not has_sym(a) or np.ndim(a) != 1 or _has_complex(a):
        return False
    top = [abs(Fraction(_real_float(y))) * (1 + Fraction(rtol)) + Fraction(atol) for y in np.broadcast_to(_num(b), np.shape(a)).flat]
    p = sum((lift(x) * lift(x) for x in np.asarray(a, dtype=object).flat), S.ZERO).p
    p = S.CTX.simplify(S.CTX.subst(p))
    limit = sum(t * t for t in top)
    if p.is_const():
        return p.const_value() > limit
    for q, low in S.CTX.long_vectors:  # sums of squares with a known lower bound, up to a factor
        q = S.CTX.simplify(S.CTX.subst(q))
        m = next((m for m in q.t if m in p.t and m), None)
        if m is not None and len(q.t) == len(p.t):
            k = p.t[m] / q.t[m]
            rest = p - q.scale(k)
            if k > 0 and not rest.t and k * low > limit:
                return True
    return False


def allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    if _length_excludes(a, b, rtol, atol):
        return False
    r = isclose(a, b, rtol, atol)
    if isinstance(r, np.ndarray):
        return conj([x if isinstance(x, SymBool) else bool(x) for x in r.flat])
    return r if isinstance(r, SymBool) else bool(r)


def array_equal(a, b, **kw):
    if np.shape(a) != np.shape(b):
        return False
    if not has_sym(a) and not has_sym(b):
        return bool(np.array_equal(_num(a), _num(b)))
    return (arr(a) == arr(b)).all() if isinstance(arr(a) == arr(b), SymArray) else bool((arr(a) == arr(b)).all())


def clip(x, a_min=None, a_max=None, **kw):
    if not has_sym(x):
        return np.clip(x, a_min, a_max)

    def f(v):
        if not isinstance(v, Sym):
            return min(max(v, a_min if a_min is not None else v), a_max if a_max is not None else v)
        if a_min is not None:
            c = v < a_min
            if c is True or (c is not False and bool(c)):
                return a_min
        if a_max is not None:
            c = v > a_max
            if c is True or (c is not False and bool(c)):
                return a_max
        return v
    return _map(f, x)


def np_divide(a, b, out=None, where=True, **kw):
    if where is True or (isinstance(where, (bool, np.bool_)) and bool(where)):
        return _map(lambda x, y: (lift(x) if not isinstance(x, CSym) else x) / y, a, b)
    if isinstance(where, (SymBool, bool, np.bool_)):
        if bool(where):
            return _map(lambda x, y: lift(x) / y, a, b)
        return out
    unsupported("divide with an array mask")


def einsum(spec, *ops, **kw):
    spec = spec.replace(" ", "")
    ops = [o if isinstance(o, np.ndarray) else np.asarray(o, dtype=object) for o in ops]
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = sorted(set(ins.replace(",", "")))
        out = "".join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(",")
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string does not match the operand")
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n:
                raise ValueError("operands could not be broadcast together in einsum")
    # contract left to right
    cur, curs = ops[0], ins[0]
    for k in range(1, len(ops)):
        rest = "".join(ins[k + 1:]) + out
        s2 = ins[k]
        keep = [c for c in dict.fromkeys(curs + s2) if c in rest]
        summed = [c for c in dict.fromkeys(curs + s2) if c not in rest]
        cur = _einsum2(cur, curs, ops[k], s2, keep, summed, dims)
        curs = "".join(keep)
    if len(ops) == 1:
        summed = [c for c in dict.fromkeys(curs) if c not in out]
        keep = [c for c in dict.fromkeys(curs) if c in out]
        one = np.asarray(1.0, dtype=object)
        cur = _einsum2(cur, curs, one, "", keep, summed, dims)
        curs = "".join(keep)
    if curs != out:
        cur = np.transpose(cur, [curs.index(c) for c in out])
    if out == "":
        return cur[()] if isinstance(cur, np.ndarray) else cur
    return cur.view(SymArray)


def _einsum2(a, sa, b, sb, keep, summed, dims):
    out = np.empty([dims[c] for c in keep], dtype=object)
    for idx in np.ndindex(out.shape):
        env = dict(zip(keep, idx))
        tot = 0.0
        for sidx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, sidx))
            tot = tot + a[tuple(env[c] for c in sa)] * b[tuple(env[c] for c in sb)]
        out[idx] = tot
    return out


def cross(a, b, **kw):
    a, b = arr(a), arr(b)
    if a.shape[-1] != 3 or b.shape[-1] != 3 or a.ndim != 1 or b.ndim != 1:
        return np.cross(a, b, **kw).view(SymArray)
    return arr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def dot(a, b, **kw):
    a, b = (arr(a) if not np.isscalar(a) else a), (arr(b) if not np.isscalar(b) else b)
    return np.dot(a, b)


def np_sum(x, *a, **kw):
    if isinstance(x, (list, tuple)) and has_sym(x):
        x = arr(x)
    kw.pop("dtype", None)
    return np.sum(x, *a, **kw)


def np_all(x, *a, **kw):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (list, tuple)):
        return conj(x)
    return x.all(*a, **kw)


def np_any(x, *a, **kw):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (list, tuple)):
        return disj(x)
    return x.any(*a, **kw)


def np_where(c, *xy):
    if not xy:
        return np.where(c)
    x, y = xy
    return _map(lambda cc, a, b: a if bool(cc) else b, c, x, y)


def _max2(a, b):
    return a if bool(a >= b) else b


def _min2(a, b):
    return a if bool(a <= b) else b


def np_sign(x):
    if not has_sym(x):
        return np.sign(_num(x))
    return _map(lambda v: 1.0 if bool(v > 0) else (-1.0 if bool(v < 0) else 0.0), x)


def np_wrap(name):
    realf = getattr(np, name)

    def g(*a, **kw):
        kw = {k: _real_dtype(v) for k, v in kw.items()}
        if has_sym(a):
            a = tuple(arr(x) if isinstance(x, (list, tuple)) and has_sym(x) and name not in _SEQ else x for x in a)
        r = realf(*a, **kw)
        if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SymArray):
            r = r.view(SymArray)
        elif isinstance(r, np.ndarray) and r.dtype.kind in "fc":
            r = arr(r)
        return r
    return g


_SEQ = {"concatenate", "stack", "vstack", "hstack", "column_stack", "block"}


class _Random:
    @staticmethod
    def random(size=None):
        c = S.CTX
        if c is None:
            return np.random.random(size)

        def one():
            s = c.fresh("random", nonneg=True)
            c.assume(s < 1)
            return s
        if size is None:
            return one()
        out = np.empty(size, dtype=object)
        for idx in np.ndindex(out.shape):
            out[idx] = one()
        return out.view(SymArray)

    random_sample = random
    ranf = random

    @staticmethod
    def rand(*shape):
        return _Random.random(shape if shape else None)

    def __getattr__(self, n):
        unsupported(f"numpy.random.{n}")


class Proxy(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)
        for k in ("__path__", "__spec__", "__file__", "__version__"):
            if hasattr(real, k):
                self.__dict__[k] = getattr(real, k)

    def __getattr__(self, n):
        if n in ("__wrapped__",):
            raise AttributeError(n)
        return getattr(self.__dict__["_real"], n)


def _only_real(name):
    realf = getattr(np.linalg, name)

    def g(*a, **kw):
        if any(has_sym(x) for x in a):
            h = S.CTX.linalg.get(name)
            if h is not None:
                return h(*a)
            if name == "cholesky" and not kw:
                return sym_cholesky(*a)
            if name == "eigh" and not kw:
                return sym_eigh(*a)
            return S.CTX.world.linalg_hook(name, *a, **kw)
        a = [_num(x) if isinstance(x, (np.ndarray, list, tuple)) else x for x in a]
        r = realf(*a, **kw)
        if isinstance(r, tuple):
            return tuple(arr(x) if isinstance(x, np.ndarray) else x for x in r)
        return arr(r) if isinstance(r, np.ndarray) else r
    return g


def _dec(c):
    return c is True or (c is not False and bool(c))


def sym_cholesky(a):
    """contract of numpy.linalg.cholesky: the lower triangle with positive diagonal, LinAlgError when a pivot is not positive"""
    a = arr(a)
    n = a.shape[0]
    L = np_zeros((n, n), dtype=complex)
    for j in range(n):
        d = S.clift(a[j][j]).re
        for k in range(j):
            z = S.clift(L[j][k])
            d = d - (z.re * z.re + z.im * z.im)
        if _dec(lift(d) <= 0):
            raise np.linalg.LinAlgError("Matrix is not positive definite")
        r = S.sqrt(d, square_sum=True)
        L[j][j] = S.CSym(r, S.ZERO)
        for i in range(j + 1, n):
            t = S.clift(a[i][j])
            for k in range(j):
                t = t - S.clift(L[i][k]) * S.clift(L[j][k]).conjugate()
            L[i][j] = t / S.CSym(r, S.ZERO)
    return L


def sym_eigh(a):
    """contract of numpy.linalg.eigh for 2x2 Hermitian matrices: ascending eigenvalues, orthonormal eigenvectors"""
    a = arr(a)
    if a.shape != (2, 2):
        unsupported("eigenvectors of a symbolic matrix larger than 2x2")
    x, y, c = S.clift(a[0][0]).re, S.clift(a[1][1]).re, S.clift(a[1][0])
    cc = c.re * c.re + c.im * c.im
    V = np_zeros((2, 2), dtype=complex)
    if _dec(lift(cc) == 0):
        if _dec(lift(x) <= y):
            V[0][0] = V[1][1] = S.clift(1)
            return arr([x, y]), V
        V[0][1] = V[1][0] = S.clift(1)
        return arr([y, x]), V
    h = (x - y) / 2
    disc = S.sqrt(h * h + cc, square_sum=True)
    for k, lam in enumerate((-disc, disc)):
        # (M - l) v = 0 for v = (l - y, c), with l - y = h +- disc
        p = h + lam
        n = S.sqrt(p * p + cc, square_sum=True)
        V[0][k] = S.CSym(p / n, S.ZERO)
        V[1][k] = c / S.CSym(n, S.ZERO)
    m = (x + y) / 2
    return arr([m - disc, m + disc]), V


def _trig_deg(f):
    return f


def make_numpy():
    lin = Proxy("numpy.linalg", np.linalg, dict(
        norm=norm, det=det, inv=inv, solve=solve,
        cholesky=_only_real("cholesky"), eigh=_only_real("eigh"), eig=_only_real("eig"),
        eigvals=_only_real("eigvals"), eigvalsh=_only_real("eigvalsh"), svd=_only_real("svd"), qr=_only_real("qr"),
        matrix_rank=_only_real("matrix_rank"), pinv=_only_real("pinv")))
    over = dict(
        array=np_array, asarray=np_asarray, zeros=np_zeros, ones=np_ones, empty=np_zeros, full=np_full, eye=np_eye,
        identity=lambda n, dtype=None, **kw: np_eye(n), zeros_like=np_zeros_like, empty_like=np_zeros_like, ones_like=np_ones_like,
        linalg=lin, sqrt=unary(np.sqrt, S.sqrt), cos=unary(np.cos, S.cos), sin=unary(np.sin, S.sin),
        exp=unary(np.exp, S.exp), arccos=unary(np.arccos, S.arccos), abs=unary(np.abs, S.sabs),
        absolute=unary(np.abs, S.sabs), fabs=unary(np.fabs, S.sabs),
        conjugate=unary(np.conjugate, lambda v: v.conjugate()), conj=unary(np.conjugate, lambda v: v.conjugate()),
        real=unary(np.real, lambda v: v.real), imag=unary(np.imag, lambda v: v.imag),
        square=unary(np.square, lambda v: v * v), negative=unary(np.negative, lambda v: -v),
        tan=unary(np.tan, lambda v: S.sin(v) / S.cos(v)),
        arcsin=unary(np.arcsin, lambda v: lift(math.pi / 2) - S.arccos(v)),
        deg2rad=unary(np.deg2rad, lambda v: v * (math.pi / 180)), radians=unary(np.radians, lambda v: v * (math.pi / 180)),
        rad2deg=unary(np.rad2deg, lambda v: v * (180 / math.pi)), degrees=unary(np.degrees, lambda v: v * (180 / math.pi)),
        arctan2=lambda y, x: (_map(lambda a, b: S.arctan2(a, b), y, x) if has_sym(y) or has_sym(x) else np.arctan2(y, x)),
        hypot=lambda x, y: _map(lambda a, b: _root(a * a + b * b), x, y),
        allclose=allclose, isclose=isclose, array_equal=array_equal, clip=clip, divide=np_divide, true_divide=np_divide,
        einsum=einsum, cross=cross, dot=dot, sum=np_sum, all=np_all, any=np_any, where=np_where, sign=np_sign,
        maximum=lambda a, b: _map(_max2, a, b) if has_sym(a) or has_sym(b) else np.maximum(a, b),
        minimum=lambda a, b: _map(_min2, a, b) if has_sym(a) or has_sym(b) else np.minimum(a, b),
        finfo=lambda d=float: np.finfo(_real_float), random=_Random(),
        isnan=unary(np.isnan, lambda v: False), isfinite=unary(np.isfinite, lambda v: True), isinf=unary(np.isinf, lambda v: False),
        float64=FloatShim, float_=FloatShim,
    )
    for n in ("trace", "diag", "concatenate", "stack", "vstack", "hstack", "outer", "inner", "vdot", "matmul", "multiply",
              "add", "subtract", "power", "transpose", "tensordot", "kron", "mean", "prod", "cumsum", "append", "diagonal",
              "block", "column_stack", "reshape", "ravel", "atleast_1d", "atleast_2d", "copy", "flip", "roll", "tile",
              "repeat", "max", "min", "amax", "amin", "argmax", "argmin", "argsort", "sort", "triu", "tril", "expand_dims",
              "squeeze", "moveaxis", "swapaxes", "broadcast_to", "apply_along_axis", "nansum", "split", "array_split",
              "fill_diagonal", "unique", "count_nonzero", "isscalar", "shape", "ndim", "size", "full_like", "linspace", "arange"):
        if n not in over:
            over[n] = np_wrap(n)
    p = Proxy("numpy", np, over)
    return p, lin


def make_math():
    def u(realf, symf):
        def g(x, *a):
            return symf(x) if isinstance(x, Sym) else realf(x, *a)
        return g
    return Proxy("math", math, dict(
        sqrt=u(math.sqrt, S.sqrt), cos=u(math.cos, S.cos), sin=u(math.sin, S.sin), acos=u(math.acos, S.arccos),
        fabs=u(math.fabs, S.sabs), radians=u(math.radians, lambda v: v * (math.pi / 180)),
        degrees=u(math.degrees, lambda v: v * (180 / math.pi)),
        atan2=lambda y, x: S.arctan2(y, x) if isinstance(y, Sym) or isinstance(x, Sym) else math.atan2(y, x),
        isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: _close(a, b, rel_tol, abs_tol) if isinstance(a, Sym) or isinstance(b, Sym) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol),
        hypot=lambda *a: _root(sum(x * x for x in a)) if has_sym(a) else math.hypot(*a),
        isnan=u(math.isnan, lambda v: False), isfinite=u(math.isfinite, lambda v: True),
        pow=lambda a, b: a ** b,
    ))


class RotationShim:
    """scipy Rotation contract: the matrix of a rotation vector is Rodrigues' formula; of an identity, the unit matrix"""

    def __init__(self, m):
        self.m = m

    @classmethod
    def from_rotvec(cls, v, degrees=False):
        v = arr(v)
        if degrees:
            v = v * (math.pi / 180)
        if not has_sym(v):
            from scipy.spatial.transform import Rotation
            return cls(arr(Rotation.from_rotvec(_num(v)).as_matrix()))
        th = norm(v)
        z = lift(th) == 0
        if z is True or (z is not False and bool(z)):
            return cls(np_eye(3))
        n = _map(lambda x: lift(x) / th, v)
        c, s = S.cos(th), S.sin(th)
        K = arr([[0.0, -n[2], n[1]], [n[2], 0.0, -n[0]], [-n[1], n[0], 0.0]])
        m = np_eye(3) + K * s + (K @ K) * (1 - c)
        return cls(m)

    def as_matrix(self):
        return self.m.copy()

    def apply(self, v):
        v = arr(v)
        return self.m @ v if v.ndim == 1 else v @ self.m.T


# ---------------------------------------------------------------------------------------------- h5py
class H5Dataset:
    def __init__(self, data, dtype):
        self.attrs = {}
        if isinstance(data, str):
            self.data = data.encode("utf-8")
        elif isinstance(data, bytes):
            self.data = data
        elif _is_int_dtype(dtype):
            if isinstance(data, (list, tuple, np.ndarray)):
                self.data = tuple(int_(x) for x in data)
            else:
                self.data = int_(data)
        else:
            a = _stored(arr(data), dtype) if dtype is not None else arr(data)
            self.data = a.copy() if a.shape != () else a[()]

    def __getitem__(self, k):
        if k == ():
            return self.data.copy() if isinstance(self.data, np.ndarray) else self.data
        if isinstance(self.data, tuple):
            r = self.data[k]
            return list(r) if isinstance(r, tuple) else r
        if not isinstance(self.data, np.ndarray):
            raise ValueError("Illegal slicing argument for scalar dataspace")
        r = self.data[k]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return iter(self.data)

    def __array__(self, dtype=None):
        return np.asarray(self.data, dtype=object)


class H5Group:
    def __init__(self):
        self.items_ = {}
        self.attrs = {}

    def _walk(self, name):
        cur = self
        for part in [p for p in name.split("/") if p]:
            if not isinstance(cur, H5Group) or part not in cur.items_:
                raise KeyError(f"Unable to synchronously open object (object '{part}' doesn't exist)")
            cur = cur.items_[part]
        return cur

    def __getitem__(self, name):
        return self._walk(name)

    def __contains__(self, name):
        try:
            self._walk(name)
            return True
        except KeyError:
            return False

    def __iter__(self):
        return iter(sorted(self.items_))      # h5py iterates in alphabetical (byte) order by default

    def keys(self):
        return sorted(self.items_)

    def values(self):
        return [self.items_[k] for k in sorted(self.items_)]

    def items(self):
        return [(k, self.items_[k]) for k in sorted(self.items_)]

    def __len__(self):
        return len(self.items_)

    def __delitem__(self, name):
        parts = [p for p in name.split("/") if p]
        del self._walk("/".join(parts[:-1])).items_[parts[-1]]

    def create_group(self, name):
        cur = self
        parts = [p for p in name.split("/") if p]
        for i, part in enumerate(parts):
            if i == len(parts) - 1:
                if part in cur.items_:
                    raise ValueError("Unable to synchronously create group (name already exists)")
                cur.items_[part] = H5Group()
            elif part not in cur.items_:
                cur.items_[part] = H5Group()
            cur = cur.items_[part]
        return cur

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        if data is None:
            raise TypeError("One of data, shape or dtype must be specified")
        known = {"compression", "compression_opts", "chunks", "shuffle", "fletcher32", "track_times"}
        if set(kw) - known or (_is_int_dtype(dtype) and not (dtype is IntShim or dtype is _real_int or dtype in ("int", "int64", "i8") or dtype is np.int64)):
            unsupported("options or type of a dataset")
        d = H5Dataset(data, dtype)
        self.items_[name] = d
        return d

    def visit(self, f, prefix=""):
        for k in sorted(self.items_):
            n = prefix + k
            r = f(n)
            if r is not None:
                return r
            if isinstance(self.items_[k], H5Group):
                r = self.items_[k].visit(f, n + "/")
                if r is not None:
                    return r


class H5File(H5Group):
    STORE = {}

    def __new__(cls, name, mode="r", **kw):
        name = os.path.abspath(name)
        if mode in ("r", "r+") and name not in cls.STORE:
            raise FileNotFoundError(name)
        if mode in ("w", "w-", "x") or name not in cls.STORE:
            f = H5Group.__new__(cls)
            H5Group.__init__(f)
            cls.STORE[name] = f
        return cls.STORE[name]

    def __init__(self, *a, **kw):
        pass

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class SymWord:
    """an arbitrary word of a text file: only its predicates (is a number, is an integer) are known"""

    def __init__(self, ctx, name):
        z3 = ctx.z3
        self.ctx = ctx
        self.f = SymBool(z3.Bool(f"{name}.isfloat"))
        self.i = SymBool(z3.Bool(f"{name}.isint"))
        e = z3.Implies(self.i.e, self.f.e)
        ctx.solver.add(e)
        ctx.pc.append(e)
        self.val = None

    def as_float(self):
        if not bool(self.f):
            raise ValueError("could not convert string to float")
        if self.val is None:
            self.val = self.ctx.fresh("word")
        return self.val

    def as_int(self):
        if not bool(self.i):
            raise ValueError("invalid literal for int()")
        return self.ctx.fresh("wordint", integer=True)
