"""C12: the magnon matrix is the Hermitian quadratic form of the Hamiltonian around the spin vectors."""
from symx.run import Registry
from .common import *
from .c06 import full_view, same_view

REG = Registry()
REG.assumptions = ["on-site matrices are symmetric; spin vectors of magnetic atoms are non-zero; factors are non-zero",
                   "spin directions within 1e-5 of +-z may be replaced by +-z",
                   "exp, cos, sin: only exp(i x) = cos x + i sin x, angle addition and parity are used"]
BOUND = "Hamiltonians with up to two magnetic atoms (three at run time), two interactions and two on-site terms; any cell, positions, lattice vectors, values, notations and wave vectors"


class Cx:
    """complex number as a pair (so that the specification uses real arithmetic only)"""

    def __init__(self, re, im=0):
        self.re, self.im = re, im

    def __add__(self, o):
        o = cx(o)
        return Cx(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __mul__(self, o):
        o = cx(o)
        return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def conj(self):
        return Cx(self.re, -self.im)


def cx(x):
    if isinstance(x, Cx):
        return x
    if isinstance(x, complex):
        return Cx(x.real, x.imag)
    re, im = getattr(x, "real", x), getattr(x, "imag", 0)
    return Cx(re, im)


def cpl(m):
    """nested list of (re, im) of a complex matrix"""
    return [[[cx(x).re, cx(x).im] for x in r] for r in m]


def model(ctx, shape, on, dc=None, sn=None, n=2, cell=None, pos=True, spin=None, naming="distinct", partial=False):
    dc = ctx.bool("dc") if dc is None else dc
    sn = ctx.bool("sn") if sn is None else sn
    cell = sym_cell(ctx) if cell is None else cell
    at = make_atoms(ctx, n, naming, spin=None, pos=pos)
    for k, a in enumerate(at):
        a.spin = spin[k] if spin is not None else [0.0, 0.0, ctx.real(f"S{k}", pos=True)]
    m = Model(ctx, at, dc, sn, [orbit(ctx, at, s, k) for k, s in enumerate(shape)], {k: symm(ctx, f"A{k}") for k in on}, cell=rows(cell), partial=partial)
    return m, cell


def pairs(ctx, m, cell):
    """terms in both orientations, for unit spins: (i, j, vector from i to j, coefficient matrix)"""
    out = []
    for i, j, R, M in m.terms():
        a, b = m.mag[i], m.mag[j]
        if i == j and all(isinstance(x, int) and x == 0 for x in R):
            out.append((i, i, None, M))
            continue
        d = vecmat([R[t] + b.position[t] - a.position[t] for t in range(3)], cell)
        out.append((i, j, d, scale(0.5, M)))
        out.append((j, i, [-x for x in d], scale(0.5, tr(M))))
    return out


def expand(ctx, m, cell, u, v, k, X):
    """second-order part of the energy per cell, averaged over the lattice, for
         S_i(R) = v_i (S_i - |b|^2) + sqrt(S_i/2) (u_i conj(b) + conj(u_i) b),   b = x_i e^{i k r} + conj(y_i) e^{-i k r}
       (x = first, y = second half of X), written out for each pair; the magnon matrix gives  X^+ h X (modes k and -k together)"""
    N = len(m.mag)
    x, y = X[:N], X[N:]
    q = 0
    for i, j, d, M in pairs(ctx, m, cell):
        if d is None:
            ph = Cx(1)
        else:
            a = dot(k, d)
            ph = Cx(ctx.cos(a), ctx.sin(a))
        Si, Sj = m.S[i], m.S[j]
        c = 1 / (ctx.sqrt(Si) * ctx.sqrt(Sj)) / 2            # M is per unit spin: divide by Si Sj, times sqrt(Si Sj) / 2
        # transverse-transverse: <w_i M w_j> with w = u conj(b) + conj(u) b at r_i = 0 and r_j = d
        # Fourier components of w: e^{ikr}: u y + conj(u) x;   e^{-ikr}: u conj(x) + conj(u) conj(y)
        def comp(l):
            uu = [cx(z) for z in u[l]]
            return [uu[t] * y[l] + uu[t].conj() * x[l] for t in range(3)]
        pi, pj = comp(i), comp(j)
        t = Cx(0)
        for a_ in range(3):
            for b_ in range(3):
                t = t + M[a_][b_] * (pi[a_].conj() * pj[b_] * ph)
        q = q + 2 * c * t.re
        # longitudinal: - (|b_i|^2 S_j + |b_j|^2 S_i) v_i M v_j per (Si Sj)
        vv = bilinear([cx(z).re for z in v[i]], M, [cx(z).re for z in v[j]])
        for l, S in ((i, Si), (j, Sj)):
            q = q - vv / S * (x[l].re * x[l].re + x[l].im * x[l].im + y[l].re * y[l].re + y[l].im * y[l].im)
    return q


def frames(ctx, d, N):
    """arbitrary transverse and longitudinal vectors (their properties are the contract of the frames, below)"""
    np = ctx.np
    u, v = [], []
    for i in range(N):
        e1, e2, e3 = ctx.vec(f"e1_{i}"), ctx.vec(f"e2_{i}"), ctx.vec(f"e3_{i}")
        if not ctx.symbolic:
            e3 = ctx.array(unit(ctx, e3)) if dot(e3, e3) > 0.01 else ctx.array([0.0, 0.0, 1.0])
        for j in range(3):
            d.u[i][j] = e1[j] + 1j * e2[j]
            d.v[i][j] = e3[j] + 0j
        u.append([Cx(e1[j], e2[j]) for j in range(3)])
        v.append([e3[j] for j in range(3)])
    return u, v


SHAPES = [(("ab",), ()), (("aa",), ()), (("ab",), (0,)), ((), (0,)), (("ba",), (1, 0))]
NOT = [(a, b) for a in (True, False) for b in (True, False)]


def attrs(ctx, d):
    for n in ("u", "v", "S"):
        if not hasattr(d, n):
            ctx.unsupported(f"attribute {n} is gone")


@REG.scenario("quadratic form", bound=BOUND, conc=15, budget=60, variants=[dict(shape=s, on=o, dc=a, sn=b) for s, o in SHAPES for a, b in NOT])
def form(ctx, shape, on, dc, sn):
    m, cell = model(ctx, shape, on, dc, sn, pos=len(shape) > 0)
    d = ctx.world.disp.MagnonDispersion(m.h)
    N = len(m.mag)
    ctx.ensure("one mode per magnetic atom", d.N == N)
    attrs(ctx, d)
    u, v = frames(ctx, d, N)
    k = ctx.vec("k")
    h = d.h(k)
    ctx.ensure("shape", h.shape == (2 * N, 2 * N))
    ctx.eq("Hermitian", cpl(h), [[[cx(h[j][i]).re, -cx(h[j][i]).im] for j in range(2 * N)] for i in range(2 * N)])
    X = [Cx(ctx.real(f"x{i}"), ctx.real(f"y{i}")) for i in range(2 * N)]
    got = Cx(0)
    for i in range(2 * N):
        for j in range(2 * N):
            got = got + X[i].conj() * cx(h[i][j]) * X[j]
    ctx.eq("quadratic form", got.re, expand(ctx, m, cell, u, v, k, X))


LISTS = ("J_matrices", "indices_i", "indices_j", "dis_vectors")


@REG.scenario("any number of terms", bound="up to two magnetic atoms; any number of terms (induction over the loop)", conc=15, budget=60,
              variants=[dict(shape=s, on=o, dc=a) for s, o, a in ((("ab",), (), True), (("aa",), (), True), ((), (1,), False), (("ba",), (), False))])
def any_number(ctx, shape, on, dc):
    """the matrix of any number of terms is the sum of the matrices of the terms (those are in the contract "quadratic form")"""
    m, cell = model(ctx, shape, on, dc, False, pos=len(shape) > 0)
    d = ctx.world.disp.MagnonDispersion(m.h)
    attrs(ctx, d)
    frames(ctx, d, len(m.mag))
    k = ctx.vec("k")
    if not all(isinstance(getattr(d, x, None), list) for x in LISTS) or not hasattr(d, "_C"):
        ctx.unsupported("the list of terms of MagnonDispersion is gone")
    terms = list(zip(*(getattr(d, x) for x in LISTS)))
    alone = cpl(d.h(k))

    def put(ts):
        open_ = getattr(ts, "columns", None)
        for c, x in enumerate(LISTS):
            setattr(d, x, open_(c) if open_ else [t[c] for t in ts])
        d._C = None
    ctx.per_term("matrix", put, lambda: cpl(d.h(k)), terms, alone, [[[0, 0]] * len(r) for r in alone])


@REG.scenario("notation that is defined as far as the parameters need it", bound=BOUND, conc=15, budget=60, variants=[dict(shape=s, on=o) for s, o in ((("ab",), ()), (("aa",), ()), ((), (0,)))])
def partial(ctx, shape, on):
    m, cell = model(ctx, shape, on, pos=len(shape) > 0, partial=True)
    d = ctx.world.disp.MagnonDispersion(m.h)
    N = len(m.mag)
    attrs(ctx, d)
    u, v = frames(ctx, d, N)
    k = ctx.vec("k")
    h = d.h(k)
    X = [Cx(ctx.real(f"x{i}"), ctx.real(f"y{i}")) for i in range(2 * N)]
    got = Cx(0)
    for i in range(2 * N):
        for j in range(2 * N):
            got = got + X[i].conj() * cx(h[i][j]) * X[j]
    ctx.eq("quadratic form", got.re, expand(ctx, m, cell, u, v, k, X))


@REG.scenario("blocks of k and -k", bound=BOUND, conc=15, budget=60, variants=[dict(shape=s, on=o) for s, o in (SHAPES[0], SHAPES[1], SHAPES[2])])
def blocks(ctx, shape, on):
    m, cell = model(ctx, shape, on, True, False)
    d = ctx.world.disp.MagnonDispersion(m.h)
    N = len(m.mag)
    attrs(ctx, d)
    frames(ctx, d, N)
    k = ctx.vec("k")
    p, q = cpl(d.h(k)), cpl(d.h([-x for x in k]))

    def cj(z):
        return [z[0], -z[1]]
    ctx.eq("second diagonal block", [[p[N + i][N + j] for j in range(N)] for i in range(N)], [[cj(q[i][j]) for j in range(N)] for i in range(N)])
    ctx.eq("off-diagonal blocks", [[p[i][N + j] for j in range(N)] for i in range(N)], [[q[j][N + i] for j in range(N)] for i in range(N)])
    ctx.eq("off-diagonal blocks are adjoint", [[p[N + i][j] for j in range(N)] for i in range(N)], [[cj(p[j][N + i]) for j in range(N)] for i in range(N)])


@REG.scenario("two interactions", bound=BOUND, conc=8, budget=90, variants=[dict(t=t, i=i, j=j) for t in ("ab", "bb") for i in range(4) for j in range(i + 1, 4)])
def two(ctx, t, i, j):
    """amplitudes on two modes at a time: all elements of the matrix"""
    cell = ctx.array([[1.0, 0, 0], [0.25, 1.5, 0], [0, 0, 2.0]])
    m, cell = model(ctx, ("ab", t), (), False, False, cell=cell, pos=False)
    d = ctx.world.disp.MagnonDispersion(m.h)
    attrs(ctx, d)
    u, v = frames(ctx, d, 2)
    k = ctx.vec("k")
    h = d.h(k)
    X = [Cx(0)] * 4
    X[i], X[j] = Cx(ctx.real("x")), Cx(ctx.real("y"), ctx.real("z"))
    got = Cx(0)
    for a in (i, j):
        for b in (i, j):
            got = got + X[a].conj() * cx(h[a][b]) * X[b]
    ctx.eq("quadratic form", got.re, expand(ctx, m, cell, u, v, k, X))


@REG.scenario("frame of a spin", bound="one atom with any spin vector", conc=40)
def frame(ctx):
    s = nonzero_vec(ctx, "s")
    m, cell = model(ctx, ("aa",), (), True, False, n=1, cell=ctx.array(CELL), pos=False, spin=[s])
    d = ctx.world.disp.MagnonDispersion(m.h)
    attrs(ctx, d)
    ctx.eq("spin vector", list(d.S[0]), list(s))
    e1 = [cx(z).re for z in d.u[0]]
    e2 = [cx(z).im for z in d.u[0]]
    e3 = [cx(z).re for z in d.v[0]]
    ctx.eq("longitudinal axis is real", [cx(z).im for z in d.v[0]], [0, 0, 0])
    ctx.eq("orthogonal", [dot(e1, e2), dot(e2, e3), dot(e3, e1)], [0, 0, 0])
    ctx.eq("normalised", [dot(e1, e1), dot(e2, e2), dot(e3, e3)], [1, 1, 1])
    ctx.eq("right-handed", cross(e1, e2), e3)
    mz = unit(ctx, s)
    if ctx.np.allclose(ctx.array(mz), [0, 0, 1]) or ctx.np.allclose(ctx.array(mz), [0, 0, -1]):
        for i in range(3):
            ctx.ensure("third axis is along the spin (close to a pole)", ctx.both(e3[i] - mz[i] <= 3e-5, mz[i] - e3[i] <= 3e-5))
    else:
        ctx.eq("third axis is along the spin", e3, mz)


SPINS = [([0.0, 0.0, 1.5], [1.5, 0.0, 0.0]), ([0.0, 1.0, 0.0], [0.0, 0.0, -2.0]), ([1.0, 2.0, 2.0], [-2.0, 1.0, 2.0])]


@REG.scenario("quadratic form with the real frames", bound="two atoms, one interaction, one on-site term; symbolic: spins along fixed directions", conc=40,
              variants=[dict(k=k) for k in range(len(SPINS))])
def real_frames(ctx, k):
    spin = [list(s) for s in SPINS[k]]
    m, cell = model(ctx, ("ab",), (0,), ctx.bool("dc"), ctx.bool("sn"), cell=ctx.array([[1.0, 0, 0], [0.25, 1.5, 0], [0, 0, 2.0]]), pos=False, spin=spin)
    d = ctx.world.disp.MagnonDispersion(m.h)
    attrs(ctx, d)
    kk = ctx.vec("k")
    h = d.h(kk)
    X = [Cx(ctx.real(f"x{i}"), ctx.real(f"y{i}")) for i in range(4)]
    got = Cx(0)
    for i in range(4):
        for j in range(4):
            got = got + X[i].conj() * cx(h[i][j]) * X[j]
    v = [unit(ctx, s) for s in spin]
    ctx.eq("quadratic form", got.re, expand(ctx, m, cell, d.u, v, kk, X))


@REG.scenario("notation", bound="two atoms, one interaction, one on-site term: the same matrix from every notation", conc=15, variants=[dict(dc=a, sn=b) for a, b in NOT])
def notation(ctx, dc, sn):
    m, cell = model(ctx, ("ab",), (0,), True, False, pos=False, cell=ctx.array(CELL))
    k = ctx.vec("k")
    ref = cpl(ctx.world.disp.MagnonDispersion(m.h).h(k))
    m.h.notation = (dc, sn, ctx.real("f2", nonzero=True), ctx.real("fo2", nonzero=True))
    ctx.eq("matrix", cpl(ctx.world.disp.MagnonDispersion(m.h).h(k)), ref)


@REG.scenario("the Hamiltonian is left alone", bound=BOUND, conc=15, variants=[dict(shape=s, on=o) for s, o in (SHAPES[0], SHAPES[2], SHAPES[4])])
def leave(ctx, shape, on):
    m, cell = model(ctx, shape, on, pos=False, cell=ctx.array(CELL))
    before = full_view(m.h)
    k = ctx.vec("k")
    kk = ctx.np.array(list(k))
    d = ctx.world.disp.MagnonDispersion(m.h)
    same_view(ctx, full_view(m.h), before, "after construction")
    r = cpl(d.h(kk))
    same_view(ctx, full_view(m.h), before, "after h()")
    ctx.eq("wave vector is intact", list(kk), list(k))
    ctx.eq("the same matrix the second time", cpl(d.h(kk)), r)
    if m.os:
        o = m.os[0]
        m.h[o.a, o.b, o.R].matrix = rows(ctx.mat("N"))
    m.h.double_counting = not m.dc
    m.h.atoms[0].spin = [1.0, 0.0, 0.0]
    ctx.eq("later changes of the Hamiltonian do not matter", cpl(d.h(kk)), r)
    new = ctx.world.disp.MagnonDispersion
    ctx.eq("a new dispersion is one of the changed Hamiltonian", cpl(new(m.h).h(kk)), cpl(new(m.h.copy()).h(kk)))


def parts(z):
    """nested list of (re, im)"""
    return [parts(x) for x in z] if getattr(z, "shape", ()) else [cx(z).re, cx(z).im]


@REG.scenario("one wave vector after another", bound="two atoms, one interaction, one on-site term; any two wave vectors; symbolic: spins along fixed directions", conc=20, budget=60, variants=[dict(name=n) for n in ("h", "J", "A", "B")])
def sequence(ctx, name):
    """no matrix depends on what was evaluated before, and the matrices are the caller's"""
    spin = [list(s) for s in SPINS[ctx.choice("spins", range(len(SPINS)))]]
    m, cell = model(ctx, ("ab",), (0,), True, False, pos=False, cell=ctx.array(CELL), spin=spin)
    new = ctx.world.disp.MagnonDispersion
    d = new(m.h)
    f = getattr(d, name, None)
    if f is None:
        ctx.unsupported(f"method {name} is gone")
    k, delta = ctx.vec("k"), shift(ctx)
    k2 = [x + y for x, y in zip(k, delta)]
    second = parts(getattr(new(m.h), name)(k2))
    a = f(k)
    first = parts(a)
    b = f(k2)
    ctx.eq("second wave vector", parts(b), second)
    ctx.eq("the first result is left as it was", parts(a), first)
    if not hasattr(b, "flags") or b.flags.writeable:
        b[...] = 7
    ctx.eq("first wave vector again", parts(f(k)), first)


@REG.scenario("one model after another", bound="two atoms, one interaction, one on-site term: two models that differ in one thing; symbolic: spins along fixed directions", conc=15, budget=60, variants=[dict(what=w) for w in TWINS if w != "g factor"])
def twin_models(ctx, what):
    """no matrix depends on the models that were evaluated before"""
    M1, M2 = twins(ctx, what, [list(s) for s in SPINS[2]], [[0.0, 2.0, 0.0], [-2.0, 1.0, 2.0]], lambda name: symm(ctx, name), CELL)
    new = ctx.world.disp.MagnonDispersion
    k = ctx.vec("k")
    X = [Cx(ctx.real(f"x{i}"), ctx.real(f"y{i}")) for i in range(4)]
    d1 = new(M1.h)
    first = cpl(d1.h(k))
    d2 = new(M2.h)
    attrs(ctx, d2)
    h = d2.h(k)
    got = Cx(0)
    for i in range(4):
        for j in range(4):
            got = got + X[i].conj() * cx(h[i][j]) * X[j]
    v = [unit(ctx, a.spin_vector) for a in M2.mag]
    ctx.eq("quadratic form of the second model", got.re, expand(ctx, M2, ctx.array(M2.h.cell), d2.u, v, k, X))
    ctx.eq("first model again", cpl(d1.h(k)), first)


@REG.scenario("larger models", sym=False, conc=40, conc_thorough=1500, bound="run-time check with up to 12 atoms and up to 64 interactions")
def large(ctx):
    cell = sym_cell(ctx)
    N, size = crowd(ctx, 8)
    at = make_atoms(ctx, N, ctx.choice("naming", ["distinct", "same name", "reversed"]), spin=None)
    for k, a in enumerate(at):
        a.spin = nonzero_vec(ctx, f"s{k}")
    m = Model(ctx, at, ctx.bool("dc"), ctx.bool("sn"), random_orbits(ctx, at, size), {k: symm(ctx, f"A{k}") for k in range(N) if ctx.bool(f"on{k}")}, cell=rows(cell))
    d = ctx.world.disp.MagnonDispersion(m.h)
    attrs(ctx, d)
    N = len(m.mag)
    k = ctx.vec("k")
    h = d.h(k)
    ctx.eq("Hermitian", cpl(h), cpl(h.conj().T))
    X = [Cx(ctx.real(f"x{i}"), ctx.real(f"y{i}")) for i in range(2 * N)]
    got = Cx(0)
    for i in range(2 * N):
        for j in range(2 * N):
            got = got + X[i].conj() * cx(h[i][j]) * X[j]
    v = [unit(ctx, a.spin_vector) for a in m.mag]
    e = expand(ctx, m, cell, d.u, v, k, X)
    ctx.eq("quadratic form", got.re, e, tol=1e-6)
