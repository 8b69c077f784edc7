"""Path explorer and the two scenario contexts (symbolic: obligations; concrete: replay and runtime contract check)."""
import contextlib
import math
import os
import random
import re
import shutil
import subprocess
import tempfile
import time
import traceback
from fractions import Fraction

import numpy as _np

from .poly import Poly, Space, normal, approx_zero_pair, _mmul


def _text(e):
    try:
        return str(e)
    except Exception:            # some exception classes fail to print themselves
        return type(e).__name__


class Skip(Exception):
    """assume() is false on this input"""


class PathEnd(Exception):
    """path is infeasible or over budget"""


# =============================================================================================== shared vocabulary
class BaseCtx:
    symbolic = False

    def vec(self, name, n=3, **kw):
        return self.array([self.real(f"{name}_{i}", **kw) for i in range(n)])

    def mat(self, name, **kw):
        return self.array([[self.real(f"{name}_{i}{j}", **kw) for j in range(3)] for i in range(3)])

    def ivec(self, name, **kw):
        return tuple(self.int(f"{name}_{i}", **kw) for i in range(3))

    def array(self, x):
        return self.np.array(x, dtype=float)

    def assume_longer(self, v, bound):
        """precondition: the vector has at least the given length"""
        n = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
        self.assume(n >= bound * bound)
        if self.symbolic and hasattr(n, "p"):
            self.long_vectors.append((n.p, Fraction(bound) ** 2))

    def bool(self, name):
        return self.choice(name, [False, True])

    def eqs(self, label, a, b, **kw):
        """element-wise equality of nested sequences / arrays / numbers"""
        fa, sa = _flat(a)
        fb, sb = _flat(b)
        if sa != sb:
            self.ensure(label + " (shape)", False, detail=f"{sa} != {sb}")
            return
        self._eq_many(label, fa, fb, **kw)

    eq = eqs

    def raises(self, label, exc, fn, *a, **kw):
        try:
            fn(*a, **kw)
        except exc:
            self.ensure(label, True)
            return
        self.ensure(label, False, detail="no exception")

    def unsupported(self, msg):
        """the contract does not apply to this form of the code: neither proved nor refuted"""
        if self.symbolic:
            self.sym.unsupported(msg)
        raise Skip()

    def private(self, owner, name, *args, **kw):
        """call an internal function of the code; out of reach (not wrong) when it is gone or has other arguments"""
        import inspect
        f = getattr(owner, name, None)
        if f is None:
            self.unsupported(f"internal function {name} is gone")
        try:
            inspect.signature(f).bind(*args, **kw)
        except TypeError:
            self.unsupported(f"internal function {name} takes other arguments")
        return f(*args, **kw)

    def call(self, label, fn, *a, **kw):
        return fn(*a, **kw)

    def per_term(self, label, put, get, items, contribution, empty):
        """for any number of terms: `get` grows by `contribution` when `items` are added to the terms that `put` stores

        The step of an induction over the loop of the code (symx/loops.py); `empty` is the value without terms.  The run on the
        real libraries leaves the stored terms alone (the code may have prepared other things from them): there, it is the value
        for the terms of the model that counts, and the scenarios with large models.
        """
        if not self.symbolic:
            self.eq(label + ": any number of terms", _flat(get())[0], [a + b for a, b in zip(_flat(contribution)[0], _flat(empty)[0])])
            return
        from .loops import Induction
        ind = Induction(self)
        put(ind.open(items))
        get()
        if not ind.used:
            self.unsupported("induction: no loop over the terms was met")
        ind.run()
        put(ind.open([]))
        r0 = get()
        ind.run()
        put(ind.open(items))
        r1 = get()
        f0, s0 = _flat(r0)
        f1, s1 = _flat(r1)
        fc, sc = _flat(contribution)
        self.eq(label + ": any number of terms and one more", f1, [a + b for a, b in zip(f0, fc)])
        self.ensure(label + ": any number of terms: form of the result", s0 == s1 == sc, detail=f"{s0} {s1} {sc}")
        put([])
        self.eq(label + ": any number of terms: none", _flat(get())[0], _flat(empty)[0])


def _flat(x):
    if isinstance(x, _np.ndarray):
        return list(x.reshape(-1)), tuple(x.shape)
    if isinstance(x, (list, tuple)):
        out, shapes = [], []
        for y in x:
            f, s = _flat(y)
            out += f
            shapes.append(s)
        if shapes and any(s != shapes[0] for s in shapes):
            return out, ("ragged", tuple(shapes))
        return out, (len(x),) + (shapes[0] if shapes else ())
    return [x], ()


# =============================================================================================== symbolic
class Obligation:
    __slots__ = ("label", "status", "backend", "time", "detail", "model")

    def __init__(self, label, status, backend, t, detail="", model=None):
        self.label, self.status, self.backend, self.time, self.detail, self.model = label, status, backend, t, detail, model


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, explorer, prefix):
        import z3
        from . import sym
        self.z3, self.sym = z3, sym
        self.ex = explorer
        self.world = explorer.world
        self.np = explorer.world.np
        self.prefix = prefix
        self.pos = 0
        self.trail = []          # (taken, options_left)
        self.space = Space()
        self.solver = z3.Solver()
        self.solver.set("timeout", explorer.fork_timeout)
        self.pc = []
        self.zv = {}
        self.eqmap = {}
        self.trigmap = {}
        self.noted = {}
        self.known = {}
        self.fatal = None
        self.undef = None
        self.obligations = []
        self.inputs = {}         # name -> gen or choice value
        self.tokens = {}
        self.scratch_dirs = []
        self.keep = []
        self.exact_text = False  # printed numbers keep all digits (contracts that leave the precision to the run-time check)
        self.nonzero_polys = []  # polynomials known not to vanish on this path
        self.long_vectors = []  # (sum of squares, its lower bound)
        self.roundings = {}
        self.linalg = {}         # contracts of numpy.linalg functions supplied by the scenario

    # ------------------------------------------------------------------ inputs
    def _newvar(self, name, **kw):
        if name in self.inputs:
            raise RuntimeError(f"input {name} declared twice")
        g = self.space.new(name, "var", key=("var", name), **kw)
        self.inputs[name] = g
        return self.sym.Sym(Poly.gen(g))

    def real(self, name, nonzero=False, pos=False, nonneg=False, lo=None, hi=None, **_):
        s = self._newvar(name, nonzero=nonzero or pos, nonneg=pos or nonneg or (lo is not None and lo >= 0))
        if lo is not None:
            self.assume(s >= lo)
        if hi is not None:
            self.assume(s <= hi)
        return s

    def int(self, name, lo=None, hi=None, **_):
        s = self._newvar(name, integer=True, nonneg=lo is not None and lo >= 0, nonzero=lo is not None and lo > 0)
        if lo is not None:
            self.assume(s >= lo)
        if hi is not None:
            self.assume(s <= hi)
        return s

    def choice(self, name, options, weights=None):
        options = list(options)
        k = self._decide_n(len(options))
        self.inputs[name] = ("choice", k)
        return options[k]

    def fresh(self, hint, **kw):
        return self._newvar(f"{hint}#{len(self.space.gens)}", **kw)

    def round_error(self, bound):
        s = self._newvar(f"rnd#{len(self.space.gens)}")
        g = self.space.gens[-1]
        g.data = Fraction(bound)
        v = self.zvar(g)
        b = self.z3.RealVal(str(Fraction(bound)))
        self.solver.add(v <= b, v >= -b)
        self.pc += [v <= b, v >= -b]
        return s

    def _define(self, *cs):
        """what a fresh symbol stands for (always satisfiable)"""
        for c in cs:
            c = self.z3.simplify(c)
            self.solver.add(c)
            self.pc.append(c)
            self.keep.append(c)

    def rounded(self, x, digits):
        """a multiple of 10^-digits at most half a digit away from x (ties may go either way)"""
        key = (x.p.key(), digits)
        if key not in self.roundings:
            n = self._newvar(f"round#{len(self.space.gens)}", integer=True)
            d = x * Fraction(10) ** digits - n
            self._define((d <= Fraction(1, 2)).e, (d >= -Fraction(1, 2)).e)
            self.roundings[key] = n * Fraction(10) ** -digits
        return self.roundings[key]

    def floored(self, x):
        key = (x.p.key(), "floor")
        if key not in self.roundings:
            n = self._newvar(f"floor#{len(self.space.gens)}", integer=True)
            self._define((x - n >= 0).e, (x - n < 1).e)
            self.roundings[key] = n
        return self.roundings[key]

    def narrowed(self, x, bits):
        """a number stored with a mantissa of so many bits"""
        key = (x.p.key(), "narrow", bits)
        if key not in self.roundings:
            n = self._newvar(f"narrow#{len(self.space.gens)}")
            d, e, z = x - n, x * Fraction(1, 2 ** bits), self.z3
            self._define(z.Or(z.And((d <= e).e, (-d <= e).e), z.And((d <= -e).e, (-d <= -e).e)))
            self.roundings[key] = n
        return self.roundings[key]

    # ------------------------------------------------------------------ path
    def _decide_n(self, n):
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos][0]
            left = self.prefix[self.pos][1]
        else:
            k, left = 0, list(range(1, n))
        self.pos += 1
        self.trail.append((k, left))
        return k

    def decide(self, e):
        z3 = self.z3
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = self.known.get(e.get_id())
        if k is not None:
            return k
        ne = z3.simplify(z3.Not(e))
        if self.pos < len(self.prefix):
            v, left = self.prefix[self.pos]
        else:
            if self.ex.deadline and time.time() > self.ex.deadline:
                raise PathEnd("time budget")
            rt = self._sat(e)
            rf = self._sat(ne)
            if not rt and not rf:
                raise PathEnd("infeasible")
            if rt and rf:
                v, left = 1, [0]
            else:
                v, left = (1, []) if rt else (0, [])
        self.pos += 1
        self.trail.append((v, left))
        lit = e if v else ne
        self.solver.add(lit)
        self.pc.append(lit)
        self.keep += [e, ne]
        self.known[e.get_id()] = bool(v)
        self.known[ne.get_id()] = not v
        self._learn(e, bool(v))
        return bool(v)

    def _sat(self, e):
        self.ex.queries += 1
        t = time.time()
        self.solver.push()
        try:
            self.solver.add(e)
            r = self.solver.check()
        finally:
            self.solver.pop()
        self.ex.solver_time += time.time() - t
        return r != self.z3.unsat

    def assume(self, cond):
        if isinstance(cond, self.sym.SymBool):
            e = self.z3.simplify(cond.e)
            self.solver.add(e)
            self.pc.append(e)
            self.keep.append(e)
            self.known[e.get_id()] = True
            ne = self.z3.simplify(self.z3.Not(e))
            self.keep.append(ne)
            self.known[ne.get_id()] = False
            if self.pos >= len(self.prefix):
                if not self._sat(self.z3.BoolVal(True)):
                    raise Skip()
            self._learn(e, True)
        elif not cond:
            raise Skip()

    def note_eq(self, e, d, op):
        """remember the polynomial behind an (in)equality"""
        e2 = self.z3.simplify(e)
        self.keep += [e, e2]
        self.noted[e2.get_id()] = (d, op)

    def _learn(self, e, v):
        z3 = self.z3
        d = None
        k = self.noted.get(e.get_id())
        if k is None and z3.is_not(e):
            k = self.noted.get(e.arg(0).get_id())
            v = not v
        if k is None:
            if z3.is_and(e) and v:
                for c in e.children():
                    self._learn(c, True)
            elif z3.is_or(e) and not v:
                for c in e.children():
                    self._learn(c, False)
            return
        d, op = k
        is_eq = (op == "==") == v
        if is_eq:
            self._learn_eq(d)
        elif len(d.t) == 1:
            (m, _), = d.t.items()
            for g, _e in m:
                self.space.gens[g].nonzero = True
        elif len(d.t) < 40:
            self.nonzero_polys.append(d)

    def _learn_eq(self, d):
        self._learn_trig_eq(d)
        d = self.subst(d)
        best = None
        for m, c in d.t.items():
            if len(m) == 1 and m[0][1] == 1:
                g = m[0][0]
                gen = self.space.gens[g]
                if gen.kind != "var":
                    continue
                if all(g != gg for mm in d.t for gg, _ in mm if mm != m):
                    if any(ee < 0 for mm in d.t for _, ee in mm):
                        continue
                    if best is None or g > best[0]:
                        best = (g, c, m)
        if best is None:
            if len(d.t) == 1:
                (m, _), = d.t.items()
                cand = [g for g, _ in m if not self.space.gens[g].nonzero]
                if len(cand) == 1 and self.space.gens[cand[0]].kind == "var":
                    self._add_subst(cand[0], Poly({}))
            return
        g, c, m = best
        rest = Poly({mm: -cc / c for mm, cc in d.t.items() if mm != m})
        self._add_subst(g, rest)

    def _add_subst(self, g, q):
        # defined generators (sqrt, def, trig) keep their own definition over the unsubstituted variables, so only
        # substitute variables that no defined generator mentions
        for gg in self.space.gens:
            dat = gg.data
            if isinstance(dat, Poly) and any(x == g for x in dat.gens()):
                return
            if isinstance(dat, dict):
                for key in ("cos", "sin"):
                    if key in dat and g in dat[key].p.gens():
                        return
        self.eqmap = {k: _subst1(v, g, q) for k, v in self.eqmap.items()}
        self.eqmap[g] = q

    def _learn_trig_eq(self, d):
        """all linear equalities of the path, used only inside the arguments of sines and cosines (trig_subst)"""
        for g, q in self.trigmap.items():
            d = _subst1(d, g, q)
        if not d.t or any(len(m) > 1 or any(e != 1 for _, e in m) for m in d.t):
            return
        lin = [(m[0][0], c) for m, c in d.t.items() if m and self.space.gens[m[0][0]].kind == "var"]
        if not lin:
            return
        g, c = max(lin)
        rest = Poly({mm: -cc / c for mm, cc in d.t.items() if mm != ((g, 1),)})
        self.trigmap = {k: _subst1(v, g, rest) for k, v in self.trigmap.items()}
        self.trigmap[g] = rest

    def trig_subst(self, *ps):
        """ps with the sines and cosines whose arguments vanish or coincide (up to sign) on this path identified"""
        seen = {}
        for gi in sorted({g for p in ps for g in p.gens()}):
            gen = self.space.gens[gi]
            if gen.kind not in ("cos", "sin") or not isinstance(gen.data, Poly):
                continue
            arg = gen.data
            for g, q in self.trigmap.items():
                if any(gg == g and e < 0 for m in arg.t for gg, e in m):
                    continue
                arg = _subst1(arg, g, q)
            odd = gen.kind == "sin"
            if not arg.t:
                new = Poly({}) if odd else Poly.const(1)
            elif (gen.kind, arg.key()) in seen:
                new = seen[gen.kind, arg.key()]
            elif (gen.kind, (-arg).key()) in seen:
                new = seen[gen.kind, (-arg).key()]
                new = -new if odd else new
            else:
                seen[gen.kind, arg.key()] = Poly.gen(gen)
                continue
            if any(gg == gi and e < 0 for p in ps for m in p.t for gg, e in m):
                continue
            ps = [_subst1(p, gi, new) for p in ps]
        return ps

    def subst(self, p):
        if not self.eqmap:
            return p
        for g, q in self.eqmap.items():
            if any(gg == g for m in p.t for gg, _ in m):
                if any(gg == g and e < 0 for m in p.t for gg, e in m):
                    continue
                p = _subst1(p, g, q)
        return p

    def simplify(self, p):
        return _simplify(p, self)

    def undefined(self, msg):
        self.undef = self.undef or msg

    # ------------------------------------------------------------------ z3
    def zvar(self, g):
        v = self.zv.get(g.idx)
        if v is not None:
            return v
        z3 = self.z3
        v = z3.Int(f"{g.name}") if g.integer else z3.Real(f"{g.name}")
        self.zv[g.idx] = v
        facts = []
        if g.nonneg:
            facts.append(v >= 0)
        if g.nonzero:
            facts.append(v != 0)
        if g.kind == "sqrt":
            facts.append(v * v == self._zp(g.data, real=True))
        elif g.kind == "def":
            facts.append(v == self._zp(g.data, real=True))
        elif g.kind in ("cos", "sin"):
            other = self.space.by_key[("sin" if g.kind == "cos" else "cos", g.data.key())]
            if other.idx not in self.zv:
                self.zv[other.idx] = z3.Real(other.name)
            w = self.zv[other.idx]
            facts.append(v * v + w * w == 1)
            facts += [v <= 1, v >= -1, w <= 1, w >= -1]
        elif g.kind == "fun":
            facts += g.data["facts"](v)
        for f in facts:
            self.solver.add(f)
            self.pc.append(f)
        return v

    def _zp(self, p, real=False):
        """z3 term of a polynomial without negative exponents"""
        z3 = self.z3
        is_int = not real and all(c.denominator == 1 for c in p.t.values()) and all(
            self.space.gens[g].integer for m in p.t for g, _ in m)
        terms = []
        for m, c in p.t.items():
            fs = []
            for g, e in m:
                v = self.zvar(self.space.gens[g])
                if self.space.gens[g].integer and not is_int:
                    v = z3.ToReal(v)
                fs += [v] * e
            if is_int:
                t = z3.IntVal(int(c))
            else:
                t = z3.RealVal(str(c))
            if fs:
                prod = fs[0]
                for f in fs[1:]:
                    prod = prod * f
                t = prod if c == 1 else t * prod
            terms.append(t)
        if not terms:
            return z3.IntVal(0) if is_int else z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def z3_poly(self, p):
        """z3 term with the sign of p (negative powers cleared by even powers of non-zero generators), and zero"""
        mins = {}
        for m in p.t:
            for g, e in m:
                if e < 0:
                    mins[g] = min(mins.get(g, 0), e)
        if mins:
            mul = tuple(sorted((g, -e + (-e) % 2) for g, e in mins.items()))
            p = p * Poly({mul: Fraction(1)})
        e = self._zp(p)
        return e, (self.z3.IntVal(0) if e.is_int() else self.z3.RealVal(0))

    # ------------------------------------------------------------------ obligations
    def _record(self, label, status, backend, t0, detail="", model=None):
        self.obligations.append(Obligation(label, status, backend, time.time() - t0, detail, model))
        if status != "discharged":
            self.ex.bad += 1

    def _eq_many(self, label, fa, fb, tol=1e-9, atol=None, **_):
        t0 = time.time()
        sym = self.sym
        n = 0
        for a, b in zip(fa, fb):
            if isinstance(a, sym.CSym) or isinstance(b, sym.CSym) or isinstance(a, complex) or isinstance(b, complex):
                a, b = sym.clift(a), sym.clift(b)
                pairs = [(a.re, b.re), (a.im, b.im)]
            else:
                la, lb = sym.lift(a), sym.lift(b)
                if la is None or lb is None:
                    if not (a == b):
                        self._false(label, t0, f"{a!r} != {b!r}")
                        return
                    continue
                pairs = [(la, lb)]
            for x, y in pairs:
                n += 1
                ok, d = self._eq_one(x, y, tol, atol)
                if ok is not True:
                    st, detail, model = ok
                    self._record(label, st, "z3", t0, f"element {n}: {detail}", model)
                    return
        self._record(label, "discharged", self._be, t0)
        return

    _be = "normal-form"

    def _eq_one(self, x, y, tol, atol=None):
        self._be = "normal-form"
        p, q = self.subst(x.p), self.subst(y.p)
        d = p - q
        if d.t and any(self.space.gens[g].name.startswith("rnd#") for g in d.gens()):
            return self._eq_rounded(d, atol), d
        ok, diff = approx_zero_pair(p, q, self.space, tol)
        if ok:
            return True, diff
        if atol is not None and diff.is_const() and abs(diff.const_value()) <= atol:
            return True, diff
        if self.trigmap:
            ok, diff2 = approx_zero_pair(*self.trig_subst(p, q), self.space, tol)
            if ok:
                return True, diff2
        self._be = "z3"
        e, zero = self.z3_poly(normal(d, self.space) if len(d.t) < 4000 else d)
        if atol is None:
            goal = e == zero
        else:
            e, zero = self.z3_poly(d)
            return self._prove(self.z3.And(e <= self.z3.RealVal(str(atol)), e >= -self.z3.RealVal(str(atol))), Poly(diff.t).show(self.space)), diff
        return self._prove(goal, diff.show(self.space)), diff

    def holds_eq(self, a, b, tol=1e-9):
        """equality by normal form alone (no obligation); False when it cannot be shown"""
        fa, sa = _flat(a)
        fb, sb = _flat(b)
        if sa != sb:
            return False
        for x, y in zip(fa, fb):
            ok, _ = approx_zero_pair(self.subst(self.sym.lift(x).p), self.subst(self.sym.lift(y).p), self.space, tol)
            if not ok:
                return False
        return True

    def _eq_rounded(self, d, atol):
        """|d| <= atol by interval reasoning over rounding errors, when d is linear in them; else z3"""
        n = normal(d, self.space)
        if any(e < 0 for m in d.t for _, e in m):
            n = None
        tot = Fraction(0)
        okf = atol is not None
        if okf:
            for m, c in d.t.items():
                if len(m) == 1 and m[0][1] == 1 and isinstance(self.space.gens[m[0][0]].data, Fraction) and self.space.gens[m[0][0]].name.startswith("rnd#"):
                    tot += abs(c) * self.space.gens[m[0][0]].data
                else:
                    if m == () and abs(c) < Fraction(1, 10 ** 9):
                        tot += abs(c)
                    elif abs(c) < Fraction(1, 10 ** 12):
                        continue
                    else:
                        okf = False
        if okf and tot <= Fraction(atol) * (1 + Fraction(1, 10 ** 6)):
            self._be = "interval"
            return True
        z3 = self.z3
        if atol is None:
            e, zero = self.z3_poly(d)
            return self._prove(e == zero, d.show(self.space))
        self._be = "z3"
        a = self.sym.Sym(d)
        le = self.sym.compare(a, self.sym.lift(Fraction(atol)), "<=")
        ge = self.sym.compare(a, self.sym.lift(-Fraction(atol)), ">=")
        g = self.sym.conj([le, ge])
        if g is True:
            return True
        return self._prove(self.sym.zb(g), d.show(self.space))

    def _prove(self, goal, detail):
        """True | (status, detail, model)"""
        z3 = self.z3
        self.ex.queries += 1
        t = time.time()
        s = z3.Solver()
        s.set("timeout", self.ex.prove_timeout)
        s.add(*self.pc)
        # facts registered while converting the goal are in pc already
        s.add(z3.Not(goal))
        r = s.check()
        self.ex.solver_time += time.time() - t
        if r == z3.unsat:
            self._be = "z3"
            return True
        if r == z3.sat:
            return ("refuted", detail, self._extract(s.model()))
        r2 = self.ex.second_opinion(s)
        if r2 == "unsat":
            self._be = "cvc5"
            return True
        if r2 == "sat":
            return ("refuted", detail + " (no model)", self._model())
        return ("unknown", detail, self._model())

    def ensure(self, label, cond, detail=""):
        t0 = time.time()
        if isinstance(cond, self.sym.SymBool):
            r = self._prove(cond.e, detail or str(cond.e)[:300])
            if r is True:
                self._record(label, "discharged", self._be, t0)
            else:
                self._record(label, r[0], "z3", t0, r[1], r[2])
        elif cond:
            self._record(label, "discharged", "evaluation", t0)
        else:
            self._false(label, t0, str(detail))

    def _false(self, label, t0, detail):
        """a clause that is plainly false on this path: refuted when the path is feasible"""
        r = self._prove(self.z3.BoolVal(False), detail)
        if r is True:
            raise PathEnd("infeasible")
        self._record(label, r[0], "z3", t0, detail, r[2])

    def le(self, label, a, b):
        self.ensure(label, self.sym.lift(a) <= self.sym.lift(b))

    def _model(self):
        s = self.z3.Solver()
        s.set("timeout", 3000)
        s.add(*self.pc)
        if s.check() == self.z3.sat:
            return self._extract(s.model())
        return self._extract(None)

    def _extract(self, m):
        z3 = self.z3
        out = {}
        for name, g in self.inputs.items():
            if isinstance(g, tuple):
                out[name] = ["choice", g[1]]
            elif "#" in name:
                continue
            elif m is not None and g.idx in self.zv:
                v = m.eval(self.zv[g.idx], model_completion=True)
                try:
                    if z3.is_int_value(v):
                        out[name] = v.as_long()
                    elif z3.is_rational_value(v):
                        out[name] = float(v.as_fraction())
                    else:
                        out[name] = float(v.approx(20).as_fraction())
                except Exception:
                    pass
        return out

    # ------------------------------------------------------------------ conditions usable in both modes
    def both(self, *c):
        return self.sym.conj(c)

    def either(self, *c):
        return self.sym.disj(c)

    def neg(self, c):
        return ~c if isinstance(c, self.sym.SymBool) else (not c)

    def same(self, a, b):
        """equality as a condition (for assume / ensure)"""
        fa, sa = _flat(a)
        fb, sb = _flat(b)
        if sa != sb:
            return False
        return self.sym.conj([self.sym.lift(x) == self.sym.lift(y) for x, y in zip(fa, fb)])

    def sqrt(self, x):
        return self.sym.sqrt(x)

    def norm(self, v):
        return self.sym.sqrt(sum(x * x for x in v), square_sum=True)

    def cos(self, x):
        return self.sym.cos(x)

    def sin(self, x):
        return self.sym.sin(x)

    # ------------------------------------------------------------------ text tokens
    def format_token(self, s, spec):
        sym = self.sym
        p = self.subst(s.p)
        if p.is_const():
            c = p.const_value()
            if c.denominator == 1 and (not spec or spec[-1] not in "feg"):
                return format(int(c), spec)
            if self.exact_text and spec and spec[-1] in "fe":
                return repr(float(c))
            return format(float(c), spec)
        spec = spec or ""
        mm = re.match(r"^([<>^]?)(\d*)(?:\.(\d+))?([feg]?)$", spec)
        if not mm:
            sym.unsupported(f"format specification {spec!r}")
        _, _, prec, kind = mm.groups()
        val = sym.Sym(p)
        if kind in ("f", "e") and self.exact_text:
            pass
        elif kind == "f":
            val = val + self.round_error(Fraction(1, 2 * 10 ** int(prec or 6)))
        elif kind == "e":
            val = val + val * self.round_error(Fraction(1, 2 * 10 ** int(prec or 6)))
        elif kind == "g" or prec:
            sym.unsupported(f"format specification {spec!r}")
        integer = s.is_integer_valued() and kind == ""
        n = len(self.tokens) + 1
        t = f"7{n:06d}77" if integer else f"7.{n:07d}0577"
        self.tokens[t] = val
        self.tokens[t.lower()] = val
        return t

    def token(self, s):
        """exact textual form of a value, for input files"""
        if isinstance(s, self.sym.Sym):
            return self.format_token(s, "")
        return repr(s)

    def parse_token(self, text):
        """Sym for a token, None for an ordinary string"""
        t = text.strip()
        if t in self.tokens:
            return self.tokens[t]
        for k in self.tokens:
            if k in t:
                self.sym.unsupported("arithmetic on the text of a symbolic number")
        return None

    def scratch(self):
        d = tempfile.mkdtemp(prefix="symx_")
        self.scratch_dirs.append(d)
        return d

    def cleanup(self):
        for d in self.scratch_dirs:
            shutil.rmtree(d, ignore_errors=True)


def _subst1(p, g, q):
    r = {}
    cache = {}
    for m, c in p.t.items():
        e = 0
        rest = m
        for k, (gg, ex) in enumerate(m):
            if gg == g:
                e, rest = ex, m[:k] + m[k + 1:]
                break
        if e == 0:
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
            continue
        if e < 0:
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
            continue
        if e not in cache:
            cache[e] = q.pow(e)
        for m2, c2 in cache[e].t.items():
            mm = _mmul(rest, m2)
            v = r.get(mm, 0) + c * c2
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return Poly(r)


def _exact_div(n, q):
    """n / q when q divides n exactly (both without negative exponents), else None"""
    if len(q.t) > 60 or len(n.t) > 3000:
        return None

    def order(m):
        return sorted(((g, e) for g, e in m), key=lambda x: x[0])

    def keyf(m, gens):
        d = dict(m)
        return tuple(d.get(g, 0) for g in gens)

    gens = sorted(n.gens() | q.gens())
    lq = max(q.t, key=lambda m: keyf(m, gens))
    cq = q.t[lq]
    dq = dict(lq)
    out = {}
    steps = 0
    rem = n
    while rem.t:
        steps += 1
        if steps > 2000:
            return None
        lm = max(rem.t, key=lambda m: keyf(m, gens))
        dm = dict(lm)
        quo = []
        for g in set(dm) | set(dq):
            e = dm.get(g, 0) - dq.get(g, 0)
            if e < 0:
                return None
            if e:
                quo.append((g, e))
        quo = tuple(sorted(quo))
        c = rem.t[lm] / cq
        out[quo] = out.get(quo, 0) + c
        rem = rem - q * Poly({quo: c})
    return Poly({m: c for m, c in out.items() if c})


def _simplify(p, ctx):
    """canonicalise sqrt exponents and cancel denominators that divide exactly"""
    from . import sym
    sp = ctx.space
    if len(p.t) > 3000:
        return p
    for _ in range(6):
        before = p.t
        for gi in sorted(p.gens(), reverse=True):
            g = sp.gens[gi]
            if g.kind == "sqrt":
                es = {e for m in p.t for gg, e in m if gg == gi}
                if all(e in (0, 1) for e in es):
                    continue
                q = g.data

                def fn(e, q=q, g=g):
                    k, r = divmod(e, 2)
                    base = Poly.gen(g) if r else Poly.const(1)
                    if k >= 0:
                        return base * q.pow(k)
                    if len(q.t) == 1:
                        return base * sym._inv_monomial(q).pow(-k)
                    d, c, mono = sym.def_gen(q)
                    inv = sym._inv_monomial(Poly({mono: c})) * Poly({((d.idx, -1),): Fraction(1)})
                    return base * inv.pow(-k)
                from .poly import _rewrite_gen
                p = _rewrite_gen(p, gi, fn)
        for gi in sorted(p.gens(), reverse=True):
            g = sp.gens[gi]
            if g.kind != "def":
                continue
            es = [dict(m).get(gi, 0) for m in p.t]
            q = g.data
            if any(e > 0 for e in es):
                from .poly import _rewrite_gen
                p = _rewrite_gen(p, gi, lambda e: q.pow(e) if e > 0 else Poly({((gi, e),): Fraction(1)}))
                es = [dict(m).get(gi, 0) for m in p.t]
            K = -min(es, default=0)
            if K <= 0:
                continue
            num = Poly({})
            for m, c in p.t.items():
                e = dict(m).get(gi, 0)
                rest = tuple((gg, ee) for gg, ee in m if gg != gi)
                num = num + Poly({rest: c}) * q.pow(K + e)
            # clear other negative exponents
            mins = {}
            for m in num.t:
                for gg, ee in m:
                    if ee < 0:
                        mins[gg] = min(mins.get(gg, 0), ee)
            mul = Poly({tuple(sorted((gg, -ee) for gg, ee in mins.items())): Fraction(1)})
            back = Poly({tuple(sorted((gg, ee) for gg, ee in mins.items())): Fraction(1)})
            num = num * mul
            while K > 0:
                d = _exact_div(num, q)
                if d is None:
                    break
                num, K = d, K - 1
            p = num * back * Poly({((gi, -K),) if K else (): Fraction(1)})
        if p.t == before:
            break
    return p


class Explorer:
    """Runs a scenario on every feasible path."""

    def __init__(self, world, fn, budget=60.0, max_paths=4000, fork_timeout=400, prove_timeout=8000):
        self.world, self.fn = world, fn
        self.budget, self.max_paths = budget, max_paths
        self.fork_timeout, self.prove_timeout = fork_timeout, prove_timeout
        self.queries = 0
        self.solver_time = 0.0
        self.bad = 0
        self.deadline = None

    def second_opinion(self, s):
        try:
            txt = "(set-logic ALL)\n" + s.to_smt2()
            r = subprocess.run(["cvc5", "--tlimit=8000", "-"], input=txt, capture_output=True, text=True, timeout=12)
            o = r.stdout.strip().splitlines()
            return o[0] if o else "unknown"
        except Exception:
            return "unknown"

    def run(self):
        from . import sym
        t0 = time.time()
        self.deadline = t0 + self.budget
        res = {"paths": 0, "complete": True, "obl": [], "unsupported": [], "exceptions": [], "skipped": 0, "ended": 0,
               "undefined": []}
        stack = [[]]
        while stack:
            if time.time() > self.deadline or res["paths"] >= self.max_paths:
                res["complete"] = False
                break
            prefix = stack.pop()
            ctx = SymCtx(self, prefix)
            sym.set_ctx(ctx)
            self.world.begin_path(ctx)
            status = "ok"
            try:
                self.fn(ctx)
            except Skip:
                status = "skip"
            except PathEnd as e:
                status = "end"
                if "budget" in str(e):
                    res["complete"] = False
            except sym.Unsupported as e:
                res["unsupported"].append(str(e))
                status = "unsupported"
            except RecursionError as e:
                res["unsupported"].append("recursion limit")
                status = "unsupported"
            except Exception as e:
                status = "exception"
                tb = traceback.format_exc(limit=-6)
                if ctx.undef:
                    res["undefined"].append({"what": ctx.undef, "trace": tb, "model": ctx._model()})
                elif ctx.fatal:
                    res["unsupported"].append(ctx.fatal)
                else:
                    res["exceptions"].append({"type": type(e).__name__, "msg": _text(e)[:300], "trace": tb,
                                              "model": ctx._model()})
            finally:
                ctx.cleanup()
                self.world.end_path()
                sym.set_ctx(None)
            if ctx.fatal and status == "ok":
                res["unsupported"].append(ctx.fatal)
            res["paths"] += 1
            if status == "skip":
                res["skipped"] += 1
            elif status == "end":
                res["ended"] += 1
            if status in ("ok", "exception") and not ctx.fatal:
                res["obl"] += ctx.obligations
            elif status in ("unsupported",) or ctx.fatal:
                # obligations met before the unsupported operation still count as explored, not as proved
                res["obl"] += [o for o in ctx.obligations if o.status == "refuted" and not ctx.fatal]
            # schedule alternatives
            tr = ctx.trail
            for i in range(len(tr) - 1, len(prefix) - 1, -1):
                k, left = tr[i]
                for alt in left:
                    stack.append([(a, []) for a, _ in tr[:i]] + [(alt, [])])
            if len(prefix) and len(tr) < len(prefix):
                res["unsupported"].append("non-deterministic replay")
            if self.bad >= 12 or len(res["exceptions"]) >= 6 or len(res["unsupported"]) >= 6 or len(res["undefined"]) >= 6:
                res["complete"] = False
                break
        res["wall"] = time.time() - t0
        res["queries"] = self.queries
        res["solver_time"] = self.solver_time
        return res


# =============================================================================================== concrete
class Failure(Exception):
    def __init__(self, label, detail):
        super().__init__(f"{label}: {detail}")
        self.label, self.detail = label, detail


class ConcCtx(BaseCtx):
    symbolic = False

    def __init__(self, world, rng, values=None, mode="random"):
        self.world = world
        self.np = world.np
        self.rng = rng
        self.values = values or {}
        self.used = {}
        self.checked = []
        self.scratch_dirs = []
        self.exact_text = False
        self.mode = mode
        self.shrunk = {}

    def _val(self, name, gen):
        if name in self.used:
            raise RuntimeError(f"input {name} declared twice")
        v = self.values.get(name)
        if v is None:
            v = gen()
        self.used[name] = v
        return v

    def real(self, name, nonzero=False, pos=False, nonneg=False, lo=None, hi=None, special=True, **_):
        r = self.rng

        def gen():
            a, b = (-3.0, 3.0)
            if lo is not None:
                a = lo
            if hi is not None:
                b = hi
            if pos or nonneg:
                a = max(a, 0.0)
            if a >= b:
                b = a + 3
            for _ in range(50):
                u = r.random()
                if special and u < 0.12:
                    x = r.choice([0.0, 1.0, -1.0, 0.5, 2.0])
                else:
                    x = round(r.uniform(a, b), 3 if u < 0.6 else 7)
                    if self.mode == "small":
                        x *= self.shrink(name)
                if x < a or x > b:
                    continue
                if (nonzero or pos) and abs(x) < (0.05 if self.mode == "random" else 1e-7):
                    continue
                return float(x)
            return 1.0
        v = float(self._val(name, gen))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        return v

    def shrink(self, name):
        """search for a failing input only: the components of some of the vectors are small together"""
        g = name.split("_")[0]
        if g not in self.shrunk:
            self.shrunk[g] = self.rng.choice([1, 1, 1e-1, 3e-3, 1e-3, 1e-4, 1e-5])
        return self.shrunk[g]

    def int(self, name, lo=None, hi=None, **_):
        a = -2 if lo is None else lo
        b = max(2, a + 4) if hi is None else hi
        return int(self._val(name, lambda: self.rng.randint(a, b)))

    def choice(self, name, options, weights=None):
        options = list(options)
        v = self.values.get(name)
        if isinstance(v, (list, tuple)) and v and v[0] == "choice":
            k = v[1]
        else:
            k = self.rng.randrange(len(options))
        self.used[name] = ["choice", k]
        return options[k]

    def assume(self, c):
        if not c:
            raise Skip()

    def _eq_many(self, label, fa, fb, tol=1e-7, atol=None, exact=False, **_):
        # (search for a failing input of a refuted obligation: numbers below one are compared more closely)
        scale = 1e-4 if self.mode == "small" and tol == 1e-7 else 1.0
        for x in list(fa) + list(fb):
            if isinstance(x, (int, float, complex, _np.number)) and not isinstance(x, bool):
                scale = max(scale, abs(x)) if abs(x) < 1e300 else scale
        lim = max(1e-7 * scale, tol * scale)
        if atol is not None:
            lim = float(atol) * (1 + 1e-6) + 1e-9 * scale
        if exact:
            lim = 1e-14 * scale
        for i, (a, b) in enumerate(zip(fa, fb)):
            if isinstance(a, (int, float, complex, _np.number)) and isinstance(b, (int, float, complex, _np.number)):
                if a != a and b != b:
                    continue
                if not abs(a - b) <= lim:
                    raise Failure(label, f"element {i}: {a!r} != {b!r}")
            elif not (a == b):
                raise Failure(label, f"element {i}: {a!r} != {b!r}")
        self.checked.append(label)

    def ensure(self, label, cond, detail=""):
        if not cond:
            raise Failure(label, detail() if callable(detail) else detail)
        self.checked.append(label)

    def le(self, label, a, b):
        if not a <= b + 1e-9 * max(1.0, abs(a), abs(b)):
            raise Failure(label, f"{a!r} > {b!r}")
        self.checked.append(label)

    def both(self, *c):
        return all(bool(x) for x in c)

    def either(self, *c):
        return any(bool(x) for x in c)

    def neg(self, c):
        return not c

    def same(self, a, b):
        fa, sa = _flat(a)
        fb, sb = _flat(b)
        return sa == sb and all(x == y for x, y in zip(fa, fb))

    def sqrt(self, x):
        return math.sqrt(x)

    def norm(self, v):
        return math.sqrt(sum(x * x for x in v))

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def token(self, s):
        return repr(int(s)) if isinstance(s, (int, _np.integer)) else repr(float(s))

    def scratch(self):
        d = tempfile.mkdtemp(prefix="symx_")
        self.scratch_dirs.append(d)
        return d

    def cleanup(self):
        for d in self.scratch_dirs:
            shutil.rmtree(d, ignore_errors=True)


def run_concrete(world, fn, seed, n, budget, values=None, stop_at=1, mode="random"):
    """Run the scenario on n random inputs (or completions of `values`).  Returns counts and the first failures."""
    out = {"evaluations": 0, "passed": 0, "skipped": 0, "failures": [], "checked": 0, "distinct": 0, "samples": [],
           "labels": {}}
    seen = set()
    t0 = time.time()
    k = 0
    while out["evaluations"] < n and time.time() - t0 < budget and k < 30 * n:
        rng = random.Random(f"{seed}:{k}")
        ctx = ConcCtx(world, rng, values=dict(values or {}), mode=mode)
        k += 1
        try:
            with warnings_off():
                fn(ctx)
            out["passed"] += 1
        except Skip:
            out["skipped"] += 1
            continue
        except Failure as e:
            out["failures"].append({"label": e.label, "detail": str(e.detail)[:600], "inputs": _js(ctx.used)})
        except Exception as e:
            out["failures"].append({"label": "no-exception", "detail": f"{type(e).__name__}: {e}"[:600],
                                    "trace": traceback.format_exc(limit=-5), "inputs": _js(ctx.used)})
        finally:
            ctx.cleanup()
        out["evaluations"] += 1
        out["checked"] += len(ctx.checked)
        for l in set(ctx.checked):
            out["labels"][l] = out["labels"].get(l, 0) + 1
        key = repr(sorted(_js(ctx.used).items(), key=lambda x: x[0]))
        if key not in seen and ctx.checked:
            seen.add(key)
        if len(out["samples"]) < 2:
            out["samples"].append(_js(ctx.used))
        if len(out["failures"]) >= stop_at:
            break
    out["distinct"] = len(seen)
    out["wall"] = time.time() - t0
    return out


@contextlib.contextmanager
def warnings_off():
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with _np.errstate(all="ignore"):
            yield


def _js(d):
    return {k: (v if not isinstance(v, _np.generic) else v.item()) for k, v in d.items()}
