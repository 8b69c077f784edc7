"""Spec functions shared by the contracts (written from the property statements, not from the code)."""
import sys

import copy
import math


class Absent(Exception):
    pass


def cross(u, v):
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


def matvec(m, v):
    return [dot(m[i], v) for i in range(3)]


def vecmat(v, m):
    return [sum(v[i] * m[i][j] for i in range(3)) for j in range(3)]


def bilinear(u, m, v):
    return sum(u[i] * m[i][j] * v[j] for i in range(3) for j in range(3))


def rows(m):
    return [[m[i][j] for j in range(3)] for i in range(3)]


def tr(m):
    return [[m[j][i] for j in range(3)] for i in range(3)]


def scale(c, m):
    return [[c * x for x in r] for r in m]


def addm(a, b):
    return [[x + y for x, y in zip(r, s)] for r, s in zip(a, b)]


def subm(a, b):
    return [[x - y for x, y in zip(r, s)] for r, s in zip(a, b)]


def matmul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def trace(m):
    return m[0][0] + m[1][1] + m[2][2]


ID = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
ZERO = [[0, 0, 0]] * 3


def iso_of(m):
    return trace(m) / 3


def aniso_of(m):
    return [[(m[i][j] + m[j][i]) / 2 - (iso_of(m) if i == j else 0) for j in range(3)] for i in range(3)]


def dmi_of(m):
    a = [[(m[i][j] - m[j][i]) / 2 for j in range(3)] for i in range(3)]
    return [a[1][2], a[2][0], a[0][1]]


def dmi_matrix(d):
    return [[0, d[2], -d[1]], [-d[2], 0, d[0]], [d[1], -d[0], 0]]


def sym_traceless(ctx, name):
    """symmetric traceless 3x3"""
    a, b, c, d, e = (ctx.real(f"{name}_{k}") for k in ("xx", "yy", "xy", "xz", "yz"))
    return [[a, c, d], [c, b, e], [d, e, -a - b]]


def symm(ctx, name):
    a, b, z, c, d, e = (ctx.real(f"{name}_{k}") for k in ("xx", "yy", "zz", "xy", "xz", "yz"))
    return [[a, c, d], [c, b, e], [d, e, z]]


# ----------------------------------------------------------------------------------------------- Hamiltonians
def neg3(R):
    return tuple(-x for x in R)


def atom_eq(a, b):
    return a is b or bool(a.name == b.name and a.index == b.index)


def is_key(ctx, e, a, b, R):
    """does the stored entry e = (a1, a2, R1, ...) have the key (a, b, R)?  (decides on symbolic keys)"""
    return bool(atom_eq(e[0], a)) and bool(atom_eq(e[1], b)) and bool(ctx.same(tuple(e[2]), tuple(R)))


def stored(h):
    es = [(a, b, tuple(R), rows(p.matrix)) for a, b, R, p in h.exchange]
    _mixed_keys(es)
    return es


def _mixed_keys(es):
    """symbolic and literal lattice vectors hash differently, so a proof may only mix them where they can not be equal"""
    sym = sys.modules.get("symx.sym")
    if sym is None or sym.CTX is None:
        return
    literal = [e for e in es if not any(isinstance(x, sym.Sym) for x in e[2])]
    for e in es:
        if len(literal) == len(es) or any(e is f for f in literal):
            continue
        for f in literal:
            if e[0] is f[0] and e[1] is f[1]:
                c = sym.CTX.same(e[2], f[2])
                if isinstance(c, sym.SymBool) and sym.CTX._sat(c.e):
                    sym.unsupported("symbolic and literal lattice vectors in one dictionary")


def stored_on_site(h):
    return [(a, rows(p.matrix)) for a, p in h.on_site]


class Orbit:
    """one interaction: bond (a, b, R) and its mirror (b, a, -R)"""

    def __init__(self, a, b, R, M):
        self.a, self.b, self.R, self.M = a, b, tuple(R), M

    def entries(self, ctx, view):
        """entries of the view that belong to this orbit: (+1 | -1, matrix oriented a -> b)"""
        out = []
        for e in view:
            if is_key(ctx, e, self.a, self.b, self.R):
                out.append((+1, e[3]))
            elif is_key(ctx, e, self.b, self.a, neg3(self.R)):
                out.append((-1, tr(e[3])))
        return out


def not_self(ctx, a, b, R):
    if a is b:
        ctx.assume(ctx.neg(ctx.same(tuple(R), (0, 0, 0))))


def different_orbits(ctx, o1, o2):
    """assume that the two orbits are different interactions"""
    if o1.a is o2.a and o1.b is o2.b:
        ctx.assume(ctx.neg(ctx.same(o1.R, o2.R)))
    if o1.a is o2.b and o1.b is o2.a:
        ctx.assume(ctx.neg(ctx.same(o1.R, neg3(o2.R))))


NAMING = {"distinct": (("A", 1), ("B", 2), ("C", 3)), "same name": (("A", 1), ("A", 2), ("A", 3)),
          "same index": (("A", 1), ("B", 1), ("C", 1)), "reversed": (("B", 3), ("A", 2), ("C", 1))}

MORE = {"distinct": lambda k: (f"X{k}", k + 1), "same name": lambda k: ("A", k + 1), "same index": lambda k: (f"X{k}", 1), "reversed": lambda k: (f"X{k}", 40 - k)}


def make_atoms(ctx, n=2, naming="distinct", spin="vector", pos=True, **kw):
    """n magnetic atoms with symbolic positions and non-zero spins"""
    out = []
    for k in range(n):
        name, idx = NAMING[naming][k] if k < 3 else MORE[naming](k)
        if spin == "vector":
            s = ctx.vec(f"S{k}")
            ctx.assume(s[0] * s[0] + s[1] * s[1] + s[2] * s[2] > 0)
            if not ctx.symbolic:
                ctx.assume(dot(s, s) > (0.01 if ctx.mode == "random" else 1e-12))
        elif spin == "number":
            s = ctx.real(f"S{k}", pos=True)
        else:
            s = None
        p = ctx.vec(f"p{k}") if pos else [0.125 * k, 0.25 * k, 0.375]
        out.append(ctx.world.Atom(name, p, spin=s, index=idx, **{q: v[k] for q, v in kw.items()}))
    return out


CELL = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]


def make_ham(ctx, atoms, notation=None, cell=None):
    h = ctx.world.SpinHamiltonian(cell=CELL if cell is None else cell, notation=notation)
    for a in atoms:
        h.add_atom(a)
    return h


def sym_cell(ctx):
    c = ctx.mat("cell", special=False)
    det = dot(c[0], cross(c[1], c[2]))
    ctx.assume(ctx.neg(ctx.same(det, 0)))
    if not ctx.symbolic:
        ctx.assume(abs(det) > 0.5)
    return c


def start_notation(ctx, tag="n0"):
    return (ctx.bool(tag + "_dc"), ctx.bool(tag + "_sn"), ctx.real(tag + "_f", nonzero=True), ctx.real(tag + "_fo", nonzero=True))


def eff_orbit(ctx, h, o, view=None):
    """coefficient matrix of unit spins e_a(0), e_b(R) in the energy, read off the stored bonds and the notation"""
    es = o.entries(ctx, stored(h) if view is None else view)
    c = h.exchange_factor
    if not h.spin_normalized:
        c = c * o.a.spin * o.b.spin
    tot = ZERO
    for _, m in es:
        tot = addm(tot, m)
    return scale(c, tot)


def eff_on_site(h, a, view=None):
    c = h.on_site_factor
    if not h.spin_normalized:
        c = c * a.spin * a.spin
    tot = ZERO
    for b, m in (stored_on_site(h) if view is None else view):
        if atom_eq(a, b):
            tot = addm(tot, m)
    return scale(c, tot)


# ----------------------------------------------------------------------------------------------- states of bonds
def put(h, o, way, M=None):
    """store the interaction o in the given way (literally, no notation involved when it is undeclared)"""
    M = o.M if M is None else M
    if way in ("fwd", "both"):
        h.add_exchange(o.a, o.b, o.R, matrix=M)
    if way in ("rev", "both"):
        h.add_exchange(o.b, o.a, neg3(o.R), matrix=tr(M))


LETTERS = "abcdefghijklmnop"


def orbit(ctx, at, s, tag):
    a, b = at[LETTERS.index(s[0])], at[LETTERS.index(s[1])]
    R = ctx.ivec(f"R{tag}")
    not_self(ctx, a, b, R)
    return Orbit(a, b, R, rows(ctx.mat(f"M{tag}")))


def invariant(ctx, h, dc, label):
    """the double-counting invariant, on the public view"""
    v = stored(h)
    for e in v:
        mirror = [f for f in v if is_key(ctx, f, e[1], e[0], neg3(e[2]))]
        if dc:
            ctx.ensure(f"{label}: mirrored bond is stored once", len(mirror) == 1, detail=len(mirror))
            if mirror:
                ctx.eq(f"{label}: mirrored bond has the transposed matrix", mirror[0][3], tr(e[3]))
        else:
            ctx.ensure(f"{label}: no mirrored bond is stored", len(mirror) == 0)


def holds(ctx, h, o, dc, value, label):
    """orbit o is stored with this value (None: absent), in the number of orientations that dc asks for"""
    es = o.entries(ctx, stored(h))
    if value is None:
        ctx.ensure(f"{label}: interaction is absent", len(es) == 0)
        return
    want = 2 if dc else 1
    ctx.ensure(f"{label}: interaction is stored in the right number of orientations", len(es) == want, detail=f"{len(es)} for {want}")
    for _, m in es:
        ctx.eq(f"{label}: value of the interaction", m, value)


def total(ctx, h, n, label):
    ctx.ensure(f"{label}: number of stored bonds", len(stored(h)) == n, detail=f"{len(stored(h))} for {n}")


# ----------------------------------------------------------------------------------------------- energies
def norm(ctx, v):
    return ctx.norm(v)


def unit(ctx, v):
    n = norm(ctx, v)
    return [x / n for x in v]


def nonzero_vec(ctx, name):
    return nonzero(ctx, ctx.vec(name))


def shift(ctx):
    """the difference of two states that are looked at one after another: any, at run time also small ones"""
    v, s = ctx.vec("delta"), 1 if ctx.symbolic else ctx.choice("size of delta", [1, 1, 3e-6, 1e-6])
    return [s * x for x in v]


def nonzero(ctx, v):
    ctx.assume(dot(v, v) > 0)
    if not ctx.symbolic:
        ctx.assume(dot(v, v) > (0.01 if ctx.mode == "random" else 1e-12))
    return v


class Model:
    """a Hamiltonian together with what it means: terms (i, j, R, coefficient matrix of the unit spins of magnetic atoms i, j)"""

    def __init__(self, ctx, atoms, dc, sn, orbits, on_site, cell=None, f=None, fo=None, partial=False):
        """partial: leave the part of the notation undefined that no parameter of the Hamiltonian needs (what reading such a file gives)"""
        self.ctx, self.atoms, self.dc, self.sn = ctx, atoms, dc, sn
        self.f = ctx.real("f", nonzero=True) if f is None else f
        self.fo = ctx.real("fo", nonzero=True) if fo is None else fo
        if partial:
            self.h = make_ham(ctx, atoms, cell=cell)
            self.h.spin_normalized = sn
            if orbits:
                self.h.double_counting = dc
                self.h.exchange_factor = self.f
            if on_site:
                self.h.on_site_factor = self.fo
        else:
            self.h = make_ham(ctx, atoms, notation=(dc, sn, self.f, self.fo), cell=cell)
        self.os = orbits
        for k, o in enumerate(orbits):
            for p in orbits[:k]:
                different_orbits(ctx, p, o)
            put(self.h, o, "fwd")
        self.A = on_site
        for k, m in on_site.items():
            self.h.add_on_site(atoms[k], matrix=m)
        used = [a for k, a in enumerate(atoms) if k in on_site or any(a is o.a or a is o.b for o in orbits)]
        used = self.mag = sorted(used, key=lambda a: a.index)      # documented order of the magnetic atoms
        self.S = [a.spin for a in used]
        self.g = [a.g_factor for a in used]

    def idx(self, a):
        return next(k for k, x in enumerate(self.mag) if x is a)

    def terms(self):
        """every term of the energy per cell, each interaction once: (i, j, R, M) meaning  e_i(0) . M e_j(R)"""
        out = []
        for o in self.os:
            i, j = self.idx(o.a), self.idx(o.b)
            c = self.f * (2 if self.dc else 1)
            if not self.sn:
                c = c * self.S[i] * self.S[j]
            out.append((i, j, o.R, scale(c, o.M)))
        for k, m in self.A.items():
            i = self.idx(self.atoms[k])
            c = self.fo * (1 if self.sn else self.S[i] * self.S[i])
            out.append((i, i, (0, 0, 0), scale(c, m)))
        return out


TWINS = ("element", "transposed", "on-site", "lattice vector", "spin", "g factor", "factors", "notation", "cell", "position")


def twins(ctx, what, spins, others, on_site, cell=None):
    """two models that differ in one thing only: (Model, cell) of each"""
    p = dict(M=rows(ctx.mat("M")), A=on_site("A"), R=ctx.ivec("R"), f=ctx.real("f", nonzero=True), fo=ctx.real("fo", nonzero=True), S=spins, g=[2.0, ctx.real("g")],
             pos=[[0.0, 0.0, 0.0], [0.25, 0.5, 0.125]], cell=rows(sym_cell(ctx)) if cell is None else cell, dc=True, sn=False)
    q = dict(p)
    if what == "element":
        x, k = ctx.real("x"), ctx.choice("place", [(0, 1), (1, 2), (2, 0), (0, 0), (2, 2)])
        q["M"] = [[z + x if (i, j) == k else z for j, z in enumerate(r)] for i, r in enumerate(p["M"])]
    elif what == "transposed":
        q["M"] = tr(p["M"])
    elif what == "on-site":
        q["A"] = on_site("A2")
    elif what == "lattice vector":
        q["R"] = ctx.ivec("R2")
    elif what == "spin":
        q["S"] = others
    elif what == "g factor":
        q["g"] = [2.0, ctx.real("g2")]
    elif what == "factors":
        q["f"], q["fo"] = ctx.real("f2", nonzero=True), ctx.real("fo2", nonzero=True)
    elif what == "notation":
        q["dc"], q["sn"] = False, True
    elif what == "cell":
        q["cell"] = rows(ctx.mat("cell2", special=False)) if cell is None else [[2.0, 0, 0], [0.5, 1.0, 0], [0, 0, 3.0]]
        if cell is None:
            ctx.assume(abs(det3(q["cell"])) > 0.1)
    else:
        q["pos"] = [[0.0, 0.0, 0.0], [0.25, 0.25, 0.375]]
    out = []
    for r in (p, q):
        at = [ctx.world.Atom(n, x, spin=s, index=i, g_factor=g) for n, x, s, i, g in zip("AB", r["pos"], r["S"], (1, 2), r["g"])]
        out.append(Model(ctx, at, r["dc"], r["sn"], [Orbit(at[0], at[1], r["R"], r["M"])], {0: r["A"]}, cell=r["cell"], f=r["f"], fo=r["fo"]))
    return out


def crowd(ctx, n):
    """number of atoms and largest number of interactions of a large model (concrete mode): now and then many of them"""
    return ctx.choice("crowd", [(3, n), (3, n), (3, n), (12, 2 * n), (4, 8 * n)])


def wild(ctx, tag, x):
    """the number(s) with all their digits and, now and then, of a large or small size (concrete mode)"""
    k = math.pi / 3 * 10.0 ** ctx.choice(f"size_{tag}", [0, 0, -6, 2, 5])
    return [wild_with(k, y) for y in x] if isinstance(x, (list, tuple)) else x * k


def wild_with(k, x):
    return [wild_with(k, y) for y in x] if isinstance(x, (list, tuple)) else x * k


def reach(ctx, near=12):
    """largest component of a lattice vector (concrete mode)"""
    return ctx.choice("reach", [near, near, 200, 40000])


def random_orbits(ctx, at, n):
    """up to n different interactions (concrete mode)"""
    os = []
    l = LETTERS[:len(at)]
    kinds = ["ab", "bc", "ca", "aa", "bb", "cc"] if len(at) == 3 else [a + b for a in l for b in l]
    for k in range(ctx.int("n_orbits", lo=1, hi=n)):
        o = orbit(ctx, at, ctx.choice(f"s{k}", kinds), k)
        if not any((o.a is p.a and o.b is p.b and o.R == p.R) or (o.a is p.b and o.b is p.a and o.R == neg3(p.R)) for p in os):
            os.append(o)
    return os
