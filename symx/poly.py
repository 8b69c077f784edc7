"""Exact Laurent polynomials over named generators, with defining relations.

A value is a finite sum of rational coefficients times monomials in generators.
Generators are either free (inputs of a scenario) or defined:

  sqrt   r >= 0 with r**2 = q
  def    d = p (introduced by a division by the non-monomial p; d != 0)
  cos/sin c, s with c**2 + s**2 = 1, both keyed by the (sign-normalised) argument
  abs    m >= 0 with m**2 = p**2
  fun    an uninterpreted function value with extra facts (arccos, arctan2, ...)

`normal(p)` clears the negative powers (all of non-zero generators) and rewrites with the
defining relations, the latest generator first; it is zero iff p is zero in the fraction field
of the extension (for generators whose radicands are not squares), so `is_zero` never
answers yes wrongly.
"""
import math
from fractions import Fraction


class Gen:
    __slots__ = ("idx", "name", "kind", "data", "nonzero", "integer", "nonneg")

    def __init__(self, idx, name, kind, data=None, nonzero=False, integer=False, nonneg=False):
        self.idx, self.name, self.kind, self.data = idx, name, kind, data
        self.nonzero, self.integer, self.nonneg = nonzero, integer, nonneg

    def __repr__(self):
        return self.name


class Space:
    """Generator table of one execution path."""

    def __init__(self):
        self.gens = []
        self.by_key = {}

    def new(self, name, kind="var", data=None, key=None, **kw):
        if key is not None and key in self.by_key:
            return self.by_key[key]
        g = Gen(len(self.gens), name, kind, data, **kw)
        self.gens.append(g)
        if key is not None:
            self.by_key[key] = g
        return g


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        if a[i][0] == b[j][0]:
            e = a[i][1] + b[j][1]
            if e:
                out.append((a[i][0], e))
            i += 1
            j += 1
        elif a[i][0] < b[j][0]:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, terms):
        self.t = terms
        self._h = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def gen(g, e=1):
        return Poly({((g.idx, e),): Fraction(1)})

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), Fraction(0))

    def __add__(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def scale(self, c):
        if not c:
            return Poly({})
        return Poly({m: v * c for m, v in self.t.items()})

    def __neg__(self):
        return Poly({m: -v for m, v in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        a, b = self.t, o.t
        if not a or not b:
            return Poly({})
        if len(a) == 1 and () in a:
            return o.scale(a[()])
        if len(b) == 1 and () in b:
            return self.scale(b[()])
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = _mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    def pow(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            b = b * b
            n >>= 1
        return r

    def gens(self):
        s = set()
        for m in self.t:
            for g, _ in m:
                s.add(g)
        return s

    def degree_in(self, gi):
        return max((e for m in self.t for g, e in m if g == gi), default=0)

    def show(self, space):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items())[:12]:
            cc = f"{float(c):.6g}"
            out.append("*".join([cc] + [space.gens[g].name + (f"^{e}" if e != 1 else "") for g, e in m]))
        if len(self.t) > 12:
            out.append(f"...({len(self.t)} terms)")
        return " + ".join(out)


def _rewrite_gen(p, gi, fn):
    """Replace gi**e in each monomial by fn(e) (a Poly)."""
    r = {}
    cache = {}
    for m, c in p.t.items():
        e = 0
        rest = m
        for k, (g, ex) in enumerate(m):
            if g == gi:
                e = ex
                rest = m[:k] + m[k + 1:]
                break
        if e == 0:
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
            continue
        q = cache.get(e)
        if q is None:
            q = cache[e] = fn(e)
        for m2, c2 in q.t.items():
            mm = _mmul(rest, m2)
            v = r.get(mm, 0) + c * c2
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return Poly(r)


def normal(p, space):
    """Numerator of p in normal form (see module docstring)."""
    work = sorted(p.gens(), reverse=True)
    done = set()
    while work:
        gi = work.pop(0)
        if gi in done:
            continue
        done.add(gi)
        g = space.gens[gi]
        mn = min((e for m in p.t for gg, e in m if gg == gi), default=0)
        # monomials without the generator count as exponent 0
        if mn < 0:
            k = -mn
            if g.kind == "sqrt" and k % 2:
                k += 1
            p = p * Poly({((gi, k),): Fraction(1)})
        if g.kind == "sqrt":
            q = g.data
            p = _rewrite_gen(p, gi, lambda e: q.pow(e // 2) * (Poly.gen(g) if e % 2 else Poly.const(1)))
        elif g.kind == "abs":
            q = g.data * g.data
            p = _rewrite_gen(p, gi, lambda e: q.pow(e // 2) * (Poly.gen(g) if e % 2 else Poly.const(1)))
        elif g.kind == "def":
            q = g.data
            p = _rewrite_gen(p, gi, lambda e: q.pow(e))
        elif g.kind == "sin":
            c = space.by_key[("cos", g.data.key())]
            one = Poly.const(1) - Poly.gen(c).pow(2)
            p = _rewrite_gen(p, gi, lambda e: one.pow(e // 2) * (Poly.gen(g) if e % 2 else Poly.const(1)))
        for x in p.gens():
            if x not in done and x not in work:
                work.append(x)
        work.sort(reverse=True)
    return p


def approx_zero_pair(a, b, space, tol):
    """Is a == b (coefficient-wise, relative tol after normalisation)?

    Returns (ok, difference)."""
    if a.t == b.t:
        return True, Poly({})
    N = len(space.gens)
    # two marker generators, beyond every real one, are treated as plain variables
    ta, tb = (N, 1), (N + 1, 1)
    merged = {}
    for m, c in a.t.items():
        merged[m + (ta,)] = c
    for m, c in b.t.items():
        merged[m + (tb,)] = c
    space.gens.append(Gen(N, "<lhs>", "var"))
    space.gens.append(Gen(N + 1, "<rhs>", "var"))
    try:
        p = normal(Poly(merged), space)
    finally:
        space.gens.pop()
        space.gens.pop()
    ok, bad = _close_parts(p, N, tol)
    roots = [] if ok else [g for g in p.gens() if g < N and space.gens[g].kind == "sqrt" and space.gens[g].data.is_const()]
    if roots:                             # exact roots of constants meet rounded ones
        for g in roots:
            v = Fraction(math.sqrt(space.gens[g].data.const_value()))
            p = _rewrite_gen(p, g, lambda e: Poly.const(v ** e))
        ok, bad = _close_parts(p, N, tol)
    return ok, bad


def _close_parts(p, N, tol):
    la, lb = {}, {}
    for m, c in p.t.items():
        if m and m[-1][0] == N + 1:
            lb[m[:-1]] = c
        else:
            assert m and m[-1][0] == N, m
            la[m[:-1]] = c
    scale = max([abs(c) for c in la.values()] + [abs(c) for c in lb.values()], default=0)
    d = Poly(la) - Poly(lb)
    lim = Fraction(tol) * scale
    bad = {m: c for m, c in d.t.items() if abs(c) > lim}
    return (not bad), Poly(bad)
