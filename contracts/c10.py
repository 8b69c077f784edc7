"""C10: energies of cone states are lattice averages of rotated spins."""
from symx.run import Registry
from .common import *
from .c06 import full_view, same_view
from .c09 import spec as ferro_spec, model as fixed_cell_model, bonds_of

REG = Registry()
REG.assumptions = ["directions and the cone axis are non-zero; factors are non-zero",
                   "the average over the phase is written as the average over 0, pi/2, pi, 3 pi/2 (antiferro: 0, pi): the energy of a cell is a "
                   "trigonometric polynomial of degree two in the phase, for which the two averages coincide",
                   "cos, sin: only the identities cos^2+sin^2=1, angle addition and parity are used"]
BOUND = "Hamiltonians with up to two atoms, two interactions and two on-site terms; any cell, lattice vectors, values, notations, directions, axes, wave vectors and fields"
PHASES = ((1, 0), (0, 1), (-1, 0), (0, -1))


def rot(n, v, c, s):
    """v rotated about the unit vector n by the angle of cosine c and sine s"""
    x = cross(n, v)
    p = dot(n, v)
    return [v[i] * c + x[i] * s + n[i] * p * (1 - c) for i in range(3)]


def spec(ctx, m, cell, dirs, axis, q, B, phases=PHASES, trig=None):
    u = [unit(ctx, d) for d in dirs]
    n = unit(ctx, axis)
    e = 0
    for c0, s0 in phases:
        for i, j, R, M in m.terms():
            if all(isinstance(x, int) and x == 0 for x in R):
                c, s = c0, s0
            else:
                c1, s1 = (trig or (lambda d: (ctx.cos(dot(q, d)), ctx.sin(dot(q, d)))))(vecmat(R, cell))
                c, s = c0 * c1 - s0 * s1, s0 * c1 + c0 * s1
            e = e + bilinear(rot(n, u[i], c0, s0), M, rot(n, u[j], c, s))
        if B is not None:
            for i in range(len(u)):
                e = e + ctx.world.energy.BOHR_MAGNETON * m.g[i] * m.S[i] * dot(rot(n, u[i], c0, s0), B)
    return e / len(phases)


def model(ctx, shape, on, dc=None, sn=None, n=2, spin="number", partial=False):
    dc = ctx.bool("dc") if dc is None else dc
    sn = ctx.bool("sn") if sn is None else sn
    cell = sym_cell(ctx)
    at = make_atoms(ctx, n, spin=spin, pos=False, g_factor=[ctx.real(f"g{k}") for k in range(n)])
    return Model(ctx, at, dc, sn, [orbit(ctx, at, s, k) for k, s in enumerate(shape)], {k: rows(ctx.mat(f"A{k}")) for k in on}, cell=rows(cell), partial=partial), cell


def state(ctx, m):
    return [nonzero_vec(ctx, f"d{k}") for k in range(len(m.mag))], nonzero_vec(ctx, "n"), ctx.vec("q")


SHAPES = [(("ab",), ()), (("aa",), ()), (("ba",), (0,)), ((), (0,))]
NOT = [(a, b) for a in (True, False) for b in (True, False)]


@REG.scenario("spiral", bound=BOUND, conc=20, budget=60, variants=[dict(shape=s, on=o, dc=a, sn=b) for s, o in SHAPES for a, b in NOT])
def spiral(ctx, shape, on, dc, sn):
    m, cell = model(ctx, shape, on, dc, sn)
    E = ctx.world.Energy(m.h)
    dirs, n, q = state(ctx, m)
    B = ctx.vec("B") if ctx.bool("field") else None
    E.magnetic_field = B
    ctx.eq("spiral energy", E.spiral(dirs, n, q), spec(ctx, m, cell, dirs, n, q, B))


@REG.scenario("antiferro", bound=BOUND, conc=20, budget=60, variants=[dict(shape=s, on=o, dc=a, sn=b) for s, o in SHAPES for a, b in NOT])
def antiferro(ctx, shape, on, dc, sn):
    """q.d is a multiple of pi for every lattice vector: sin(q.d) = 0 and cos(q.d) = +1 or -1"""
    m, cell = model(ctx, shape, on, dc, sn)
    E = ctx.world.Energy(m.h)
    dirs, n, q, = state(ctx, m)
    sgn = {}
    if ctx.symbolic:
        for o in m.os:
            d = dot(q, vecmat(o.R, cell))
            ctx.assume(ctx.same(ctx.sin(d), 0))
        trig = None
    else:
        # half a reciprocal lattice vector
        import math
        G = ctx.np.linalg.inv(cell) @ ctx.array([ctx.int(f"h{k}", lo=0, hi=1) for k in range(3)]) * math.pi
        q = G
        trig = None
    B = ctx.vec("B") if ctx.bool("field") else None
    E.magnetic_field = B
    ctx.eq("antiferro energy", E.antiferro(dirs, n, q), spec(ctx, m, cell, dirs, n, q, B, phases=((1, 0), (-1, 0)), trig=trig))


@REG.scenario("any number of terms", bound="up to two magnetic atoms; any number of terms (induction over the loop)", conc=20, budget=60,
              variants=[dict(kind=k, shape=s, on=o, dc=a) for k in ("spiral", "antiferro") for s, o, a in ((("ab",), (), True), (("ba",), (), False), (("aa",), (), True), ((), (0,), False))])
def any_number(ctx, kind, shape, on, dc):
    """each interaction adds its contribution to the energy of any number of others"""
    m, cell = model(ctx, shape, on, dc, False)
    E = ctx.world.Energy(m.h)
    dirs, n, q = state(ctx, m)
    if kind == "antiferro":
        if ctx.symbolic:
            for o in m.os:
                ctx.assume(ctx.same(ctx.sin(dot(q, vecmat(o.R, cell))), 0))
        else:
            import math
            q = ctx.np.linalg.inv(cell) @ ctx.array([ctx.int(f"h{k}", lo=0, hi=1) for k in range(3)]) * math.pi
    ph = PHASES if kind == "spiral" else ((1, 0), (-1, 0))
    B = ctx.vec("B") if ctx.bool("field") else None
    E.magnetic_field = B
    terms = list(bonds_of(ctx, E))
    alone = spec(ctx, m, cell, dirs, n, q, None, phases=ph)
    zeeman = spec(ctx, m, cell, dirs, n, q, B, phases=ph) - alone
    ctx.per_term("energy", lambda x: setattr(E, "_bonds", x), lambda: getattr(E, kind)(dirs, n, q), terms, alone, zeeman)


@REG.scenario("notation that is defined as far as the parameters need it", bound=BOUND, conc=20, budget=60, variants=[dict(kind=k, shape=s, on=o) for k in ("spiral", "antiferro") for s, o in ((("ab",), ()), ((), (0,)))])
def partial(ctx, kind, shape, on):
    m, cell = model(ctx, shape, on, ctx.bool("dc"), ctx.bool("sn"), partial=True)
    E = ctx.world.Energy(m.h)
    dirs, n, q = state(ctx, m)
    if kind == "antiferro":
        if ctx.symbolic:
            for o in m.os:
                ctx.assume(ctx.same(ctx.sin(dot(q, vecmat(o.R, cell))), 0))
        else:
            import math
            q = ctx.np.linalg.inv(cell) @ ctx.array([ctx.int(f"h{k}", lo=0, hi=1) for k in range(3)]) * math.pi
    ph = PHASES if kind == "spiral" else ((1, 0), (-1, 0))
    ctx.eq(f"{kind} energy", getattr(E, kind)(dirs, n, q), spec(ctx, m, cell, dirs, n, q, None, phases=ph))


@REG.scenario("two interactions", bound=BOUND, conc=20, budget=60, variants=[dict(kind=k, t=t) for k in ("spiral", "antiferro") for t in ("ab", "bb")])
def two(ctx, kind, t):
    m, cell = model(ctx, ("ab", t), (1,), False, False)
    E = ctx.world.Energy(m.h)
    dirs, n, q = state(ctx, m)
    if kind == "antiferro":
        if ctx.symbolic:
            for o in m.os:
                ctx.assume(ctx.same(ctx.sin(dot(q, vecmat(o.R, cell))), 0))
        else:
            import math
            q = ctx.np.linalg.inv(cell) @ ctx.array([ctx.int(f"h{k}", lo=0, hi=1) for k in range(3)]) * math.pi
    ph = PHASES if kind == "spiral" else ((1, 0), (-1, 0))
    ctx.eq(f"{kind} energy", getattr(E, kind)(dirs, n, q), spec(ctx, m, cell, dirs, n, q, None, phases=ph))


@REG.scenario("spins along the axis, q = 0", bound=BOUND, conc=20, variants=[dict(kind=k) for k in ("spiral", "antiferro")])
def along(ctx, kind):
    m = fixed_cell_model(ctx, ("ab",), (0,))
    E = ctx.world.Energy(m.h)
    n = nonzero_vec(ctx, "n")
    a = [ctx.real("a0", nonzero=True), ctx.real("a1", nonzero=True)]
    dirs = [[x * y for y in n] for x in a]
    B = ctx.vec("B")
    E.magnetic_field = B
    e = getattr(E, kind)(dirs, n, [0.0, 0.0, 0.0])
    ctx.eq("coincides with the single-cell energy", e, E.ferro(dirs))
    ctx.eq("value", e, ferro_spec(ctx, m, dirs, B))


@REG.scenario("one magnetic atom, both shapes", bound="one atom, one interaction, one on-site term", conc=20, variants=[dict(kind=k) for k in ("spiral", "antiferro")])
def single(ctx, kind):
    m, cell = model(ctx, ("aa",), (0,), False, False, n=1)
    E = ctx.world.Energy(m.h)
    (d,), n, q = state(ctx, m)
    f = getattr(E, kind)
    ctx.eq("(3,) and (1, 3) directions", f(d, n, q), f([d], n, q))


@REG.scenario("arguments are left alone", bound=BOUND, conc=20, variants=[dict(kind=k, shape=s, on=o) for k in ("spiral", "antiferro") for s, o in (SHAPES[0], SHAPES[2])])
def frame(ctx, kind, shape, on):
    np = ctx.np
    m, cell = model(ctx, shape, on)
    before = full_view(m.h)
    E = ctx.world.Energy(m.h)
    dirs, n, q = state(ctx, m)
    B = ctx.vec("B")
    E.magnetic_field = B
    given, gn, gq = np.array([list(d) for d in dirs]), np.array(list(n)), np.array(list(q))
    f = getattr(E, kind)
    e = f(given, gn, gq)
    ctx.eq("directions are intact", [list(r) for r in given], [list(d) for d in dirs])
    ctx.eq("axis is intact", list(gn), list(n))
    ctx.eq("wave vector is intact", list(gq), list(q))
    ctx.eq("field is intact", list(E.magnetic_field), list(B))
    same_view(ctx, full_view(m.h), before, "Hamiltonian")
    ctx.eq("the same energy the second time", f(given, gn, gq), e)


@REG.scenario("one evaluation after another", bound="two atoms, one interaction; any two states that differ in the directions, the axis or the wave vector", conc=30, budget=60,
              variants=[dict(kind=k, what=w) for k, w in (("spiral", "spins"), ("spiral", "axis"), ("spiral", "wave vector"), ("antiferro", "spins"), ("antiferro", "axis"))])
def sequence(ctx, kind, what):
    """no energy depends on what was evaluated before"""
    m, cell = model(ctx, ("ab",), (), False, False)
    E = ctx.world.Energy(m.h)
    dirs, n, q = state(ctx, m)
    if kind == "antiferro":
        q = [0.0, 0.0, 0.0]
    delta = shift(ctx)
    dirs2, n2, q2 = dirs, n, q
    if what == "spins":
        dirs2 = [dirs[0], [x + y for x, y in zip(dirs[1], delta)]]
        nonzero(ctx, dirs2[1])
    elif what == "axis":
        n2 = [x + y for x, y in zip(n, delta)]
        nonzero(ctx, n2)
    else:
        q2 = [x + y for x, y in zip(q, delta)]
    f = getattr(E, kind)
    ph = PHASES if kind == "spiral" else ((1, 0), (-1, 0))
    for label, a in (("first state", (dirs, n, q)), ("second state", (dirs2, n2, q2)), ("first state again", (dirs, n, q))):
        ctx.eq(label, f(*a), spec(ctx, m, cell, *a, None, phases=ph))


@REG.scenario("one model after another", bound="two atoms, one interaction, one on-site term: two models that differ in one thing", conc=15, budget=60,
              variants=[dict(kind="spiral", what=w) for w in TWINS] + [dict(kind="antiferro", what=w) for w in ("element", "spin", "factors")])
def twin_models(ctx, kind, what):
    """no energy depends on the models that were evaluated before"""
    M1, M2 = twins(ctx, what, [ctx.real("S0", pos=True), ctx.real("S1", pos=True)], [ctx.real("T0", pos=True), ctx.real("T1", pos=True)], lambda name: rows(ctx.mat(name)), CELL)
    dirs, n, q = state(ctx, M1)
    if kind == "antiferro":
        q = [0.0, 0.0, 0.0]
    ph = PHASES if kind == "spiral" else ((1, 0), (-1, 0))
    E1 = ctx.world.Energy(M1.h)
    ctx.eq("energy of the first model", getattr(E1, kind)(dirs, n, q), spec(ctx, M1, M1.h.cell, dirs, n, q, None, phases=ph))
    E2 = ctx.world.Energy(M2.h)
    ctx.eq("energy of the second model", getattr(E2, kind)(dirs, n, q), spec(ctx, M2, M2.h.cell, dirs, n, q, None, phases=ph))
    ctx.eq("energy of the first model again", getattr(E1, kind)(dirs, n, q), spec(ctx, M1, M1.h.cell, dirs, n, q, None, phases=ph))


@REG.scenario("independence from later changes of the Hamiltonian", bound=BOUND, conc=20, variants=[dict(kind=k, what=w) for k in ("spiral", "antiferro") for w in ("cell", "notation", "value")])
def later(ctx, kind, what):
    m, cell = model(ctx, ("ab",), (0,), False, False)
    E = ctx.world.Energy(m.h)
    dirs, n, q = state(ctx, m)
    f = getattr(E, kind)
    e = f(dirs, n, q)
    o = m.os[0]
    if what == "cell":
        m.h.cell = [[2.0, 0, 0], [0, 3.0, 0], [0, 0, 5.0]]
    elif what == "notation":
        m.h.notation = "SpinW"
    else:
        m.h[o.a, o.b, o.R].matrix = rows(ctx.mat("N"))
    ctx.eq("energy", f(dirs, n, q), e)


@REG.scenario("only the directions count", bound="two atoms, one interaction; lengths of the directions and of the axis", conc=20, variants=[dict(kind=k) for k in ("spiral", "antiferro")])
def lengths(ctx, kind):
    m, cell = model(ctx, ("ab",), (), False, False)
    E = ctx.world.Energy(m.h)
    dirs, n, q = state(ctx, m)
    B = ctx.vec("B")
    E.magnetic_field = B
    f = getattr(E, kind)
    a, b, c = (ctx.real(x, pos=True) for x in "abc")
    ctx.eq("energy", f([[a * x for x in dirs[0]], [b * x for x in dirs[1]]], [c * x for x in n], q), f(dirs, n, q))


@REG.scenario("wrong arguments are refused", bound="two atoms", conc=10, variants=[dict(kind=k) for k in ("spiral", "antiferro")])
def refuse(ctx, kind):
    m = fixed_cell_model(ctx, ("ab",), (0,))
    E = ctx.world.Energy(m.h)
    f = getattr(E, kind)
    d, n, q = [[1.0, 2.0, 3.0], [0.0, 1.0, 0.0]], [0.0, 0.0, 1.0], [0.1, 0.2, 0.3]
    for bad in (d[:1], d + d, d[0], [[1.0, 2.0], [1.0, 2.0]], "spins", [d[0], ["a", "b", "c"]]):
        ctx.raises("wrong directions are refused", ValueError, f, bad, n, q)
    for bad in ([1.0, 2.0], [1.0, 2.0, 3.0, 4.0], [[1.0, 0.0, 0.0]], "z", 1.0, ["a", "b", "c"]):
        ctx.raises("a wrong axis is refused", ValueError, f, d, bad, q)
        ctx.raises("a wrong wave vector is refused", ValueError, f, d, n, bad)


@REG.scenario("supercells", sym=False, conc=40, conc_thorough=1500, bound="run-time check: explicit sum over an L-cell period, 2 <= L <= 7, up to 12 atoms and up to 64 interactions")
def supercells(ctx):
    """independent oracle: the energy of L explicit cells along the period of q"""
    import math
    np = ctx.np
    dc, sn = ctx.bool("dc"), ctx.bool("sn")
    cell = sym_cell(ctx)
    N, size = crowd(ctx, 8)
    at = make_atoms(ctx, N, spin="number", pos=False, g_factor=[ctx.real(f"g{k}") for k in range(N)])
    m = Model(ctx, at, dc, sn, random_orbits(ctx, at, size), {k: rows(ctx.mat(f"A{k}")) for k in range(N) if ctx.bool(f"on{k}")}, cell=rows(cell))
    E = ctx.world.Energy(m.h)
    dirs = [nonzero_vec(ctx, f"d{k}") for k in range(len(m.mag))]
    n, B = nonzero_vec(ctx, "n"), ctx.vec("B")
    E.magnetic_field = B
    L = ctx.choice("L", [2, 3, 4, 5, 7])
    hkl = [ctx.int(f"h{k}", lo=0, hi=L - 1) for k in range(3)]
    ctx.assume(math.gcd(L, *hkl) == 1)            # the phases of the cells run over all multiples of 2 pi / L
    q = np.linalg.inv(cell) @ np.array(hkl) * 2 * math.pi / L
    u, ax = [unit(ctx, d) for d in dirs], unit(ctx, n)
    e = 0.0
    for k in range(L):
        p0 = 2 * math.pi * k / L
        for i, j, R, M in m.terms():
            p1 = p0 + 2 * math.pi / L * sum(a * b for a, b in zip(hkl, R))
            e += bilinear(rot(ax, u[i], math.cos(p0), math.sin(p0)), M, rot(ax, u[j], math.cos(p1), math.sin(p1)))
        for i in range(len(u)):
            e += ctx.world.energy.BOHR_MAGNETON * m.g[i] * m.S[i] * dot(rot(ax, u[i], math.cos(p0), math.sin(p0)), B)
    f = E.antiferro if L == 2 else E.spiral
    ctx.eq("energy per cell", f(dirs, n, q), e / L)
