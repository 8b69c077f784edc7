"""C09: the single-cell energy is the Hamiltonian evaluated on the spins, plus the Zeeman energy."""
from symx.run import Registry
from .common import *
from .c06 import full_view, same_view

REG = Registry()
REG.assumptions = ["spin directions and spins of magnetic atoms are non-zero", "factors are non-zero", "magnetic atoms have different indices (their order is by index)"]
BOUND = "Hamiltonians with up to three atoms, two interactions and two on-site terms; any cell-independent values, notations, directions and fields"


def spec(ctx, m, dirs, B, S=None, g=None):
    u = [unit(ctx, d) for d in dirs]
    S = m.S if S is None else S
    g = m.g if g is None else g
    e = 0
    for i, j, _, M in m.terms():
        e = e + bilinear(u[i], M, u[j])
    if B is not None:
        for i in range(len(u)):
            e = e + ctx.world.energy.BOHR_MAGNETON * g[i] * S[i] * dot(u[i], B)
    return e


def model(ctx, shape, on, dc=None, sn=None, n=2, spin="number"):
    dc = ctx.bool("dc") if dc is None else dc
    sn = ctx.bool("sn") if sn is None else sn
    at = make_atoms(ctx, n, spin=spin, pos=False, g_factor=[ctx.real(f"g{k}") for k in range(n)])
    return Model(ctx, at, dc, sn, [orbit(ctx, at, s, k) for k, s in enumerate(shape)], {k: rows(ctx.mat(f"A{k}")) for k in on})


SHAPES = [(("ab",), ()), (("ab",), (0,)), (("ab",), (1, 0)), (("aa",), (1,)), (("ab", "bb"), ()), (("ab", "ba"), (0,)), (("ba",), ())]


@REG.scenario("energy", bound=BOUND, conc=20, variants=[dict(shape=s, on=o) for s, o in SHAPES])
def energy(ctx, shape, on):
    m = model(ctx, shape, on)
    E = ctx.world.Energy(m.h)
    dirs = [nonzero_vec(ctx, f"d{k}") for k in range(len(m.mag))]
    B = ctx.vec("B") if ctx.bool("field") else None
    if B is not None:
        E.magnetic_field = B
    ctx.eq("energy", E.ferro(dirs), spec(ctx, m, dirs, B))


def bonds_of(ctx, E):
    """the terms that an Energy sums over (internal: without them the induction is out of reach)"""
    b = getattr(E, "_bonds", None)
    if not isinstance(b, list):
        ctx.unsupported("the list of terms of Energy is gone")
    return b


@REG.scenario("any number of terms", bound="up to two magnetic atoms; any number of terms (induction over the loop)", conc=20, variants=[dict(shape=s, on=o) for s, o in ((("ab",), ()), (("ba",), ()), (("aa",), (0,)), (("ab",), (1,)))])
def any_number(ctx, shape, on):
    """each interaction adds its contribution to the energy of any number of others"""
    m = model(ctx, shape, on)
    E = ctx.world.Energy(m.h)
    dirs = [nonzero_vec(ctx, f"d{k}") for k in range(len(m.mag))]
    B = ctx.vec("B") if ctx.bool("field") else None
    if B is not None:
        E.magnetic_field = B
    terms = list(bonds_of(ctx, E))
    zeeman = spec(ctx, m, dirs, B) - spec(ctx, m, dirs, None)
    ctx.per_term("energy", lambda x: setattr(E, "_bonds", x), lambda: E.ferro(dirs), terms, spec(ctx, m, dirs, None), zeeman)


@REG.scenario("notation that is defined as far as the parameters need it", bound="two atoms, one interaction or one or two on-site terms; the factors of the absent kind of parameters (and the double counting without interactions) are undefined, as after reading a file", conc=20,
              variants=[dict(shape=s, on=o) for s, o in ((("ab",), ()), (("aa",), ()), (("ab", "bb"), ()), ((), (1,)), ((), (0, 1)))])
def partial(ctx, shape, on):
    at = make_atoms(ctx, 2, spin="number", pos=False, g_factor=[ctx.real(f"g{k}") for k in range(2)])
    m = Model(ctx, at, ctx.bool("dc"), ctx.bool("sn"), [orbit(ctx, at, s, k) for k, s in enumerate(shape)], {k: rows(ctx.mat(f"A{k}")) for k in on}, partial=True)
    dirs = [nonzero_vec(ctx, f"d{k}") for k in range(len(m.mag))]
    B = ctx.vec("B") if ctx.bool("field") else None
    E = ctx.world.Energy(m.h)
    if B is not None:
        E.magnetic_field = B
    ctx.eq("energy", E.ferro(dirs), spec(ctx, m, dirs, B))
    for name in ("exchange_factor", "double_counting", "on_site_factor"):
        if name == "on_site_factor" and not on or name != "on_site_factor" and not shape:
            ctx.raises(f"{name} of the Hamiltonian stays undefined", ctx.world.exceptions.NotationError, getattr, m.h, name)


@REG.scenario("spins given as vectors", bound=BOUND, conc=20)
def vectors(ctx):
    m = model(ctx, ("ab",), (0,), spin="vector")
    E = ctx.world.Energy(m.h)
    dirs = [nonzero_vec(ctx, f"d{k}") for k in range(2)]
    B = ctx.vec("B")
    E.magnetic_field = B
    ctx.eq("energy", E.ferro(dirs), spec(ctx, m, dirs, B))


@REG.scenario("non-magnetic atoms are skipped", bound="three atoms of which two are magnetic", conc=20, variants=[dict(free=k) for k in range(3)])
def nonmag(ctx, free):
    dc, sn = ctx.bool("dc"), ctx.bool("sn")
    at = make_atoms(ctx, 3, spin="number", pos=False, g_factor=[ctx.real(f"g{k}") for k in range(3)])
    pair = [a for k, a in enumerate(at) if k != free]
    m = Model(ctx, at, dc, sn, [orbit(ctx, pair, "ab", 0)], {at.index(pair[1]): rows(ctx.mat("A"))})
    E = ctx.world.Energy(m.h)
    dirs = [nonzero_vec(ctx, f"d{k}") for k in range(2)]
    B = ctx.vec("B")
    E.magnetic_field = B
    ctx.eq("energy", E.ferro(dirs), spec(ctx, m, dirs, B))
    ctx.eq("spins", list(E.spins), m.S)
    ctx.eq("g factors", list(E.g_factors), m.g)


@REG.scenario("three atoms", bound="three atoms, three interactions, one on-site term", conc=20, variants=[dict(dc=d, sn=s) for d in (True, False) for s in (True, False)])
def three(ctx, dc, sn):
    m = model(ctx, ("ab", "bc", "ca"), (1,), dc=dc, sn=sn, n=3)
    E = ctx.world.Energy(m.h)
    dirs = [nonzero_vec(ctx, f"d{k}") for k in range(3)]
    B = ctx.vec("B")
    E.magnetic_field = B
    ctx.eq("energy", E.ferro(dirs), spec(ctx, m, dirs, B))


@REG.scenario("atoms are ordered by their index", bound="two atoms", conc=20, variants=[dict(naming=n) for n in ("reversed", "same name")])
def order(ctx, naming):
    dc, sn = ctx.bool("dc"), ctx.bool("sn")
    at = make_atoms(ctx, 2, naming, spin="number", pos=False, g_factor=[ctx.real(f"g{k}") for k in range(2)])
    m = Model(ctx, at, dc, sn, [orbit(ctx, at, "ab", 0)], {0: rows(ctx.mat("A"))})
    E = ctx.world.Energy(m.h)
    dirs = [nonzero_vec(ctx, f"d{k}") for k in range(2)]
    B = ctx.vec("B")
    E.magnetic_field = B
    ctx.eq("energy", E.ferro(dirs), spec(ctx, m, dirs, B))


@REG.scenario("one magnetic atom, both shapes of directions", bound="one atom, one interaction, one on-site term", conc=20)
def single(ctx):
    m = model(ctx, ("aa",), (0,), n=1)
    E = ctx.world.Energy(m.h)
    d = nonzero_vec(ctx, "d")
    e = spec(ctx, m, [d], None)
    ctx.eq("energy of (3,) directions", E.ferro(d), e)
    ctx.eq("energy of (1, 3) directions", E.ferro([d]), e)


@REG.scenario("only on-site terms, only a field, empty", bound="two atoms", conc=20)
def onsite_only(ctx):
    m = model(ctx, (), (1,))
    E = ctx.world.Energy(m.h)
    d = nonzero_vec(ctx, "d")
    ctx.eq("energy", E.ferro([d]), spec(ctx, m, [d], None))
    B = ctx.vec("B")
    E.magnetic_field = B
    ctx.eq("energy in a field", E.ferro([d]), spec(ctx, m, [d], B))
    E.magnetic_field = None
    ctx.eq("energy after the field is switched off", E.ferro([d]), spec(ctx, m, [d], None))


@REG.scenario("nothing is changed", bound=BOUND, conc=20, variants=[dict(shape=s, on=o) for s, o in SHAPES[1:5]])
def frame(ctx, shape, on):
    np = ctx.np
    m = model(ctx, shape, on)
    before = full_view(m.h)
    dirs = [nonzero_vec(ctx, f"d{k}") for k in range(len(m.mag))]
    want = spec(ctx, m, dirs, None)
    E = ctx.world.Energy(m.h)
    same_view(ctx, full_view(m.h), before, "Hamiltonian after Energy()")
    given = np.array([list(d) for d in dirs])
    ctx.eq("energy", E.ferro(given), want)
    ctx.eq("directions passed in are intact", [list(r) for r in given], [list(d) for d in dirs])
    same_view(ctx, full_view(m.h), before, "Hamiltonian after ferro()")
    ctx.eq("energy is the same the second time", E.ferro(given), want)


@REG.scenario("one evaluation after another", bound="two atoms, one interaction, one on-site term; any two states", conc=30, variants=[dict(field=f) for f in (True, False)])
def sequence(ctx, field):
    """no energy depends on what was evaluated before"""
    m = model(ctx, ("ab",), (0,))
    E = ctx.world.Energy(m.h)
    d1 = [nonzero_vec(ctx, f"d{k}") for k in range(2)]
    delta = shift(ctx)
    d2 = [d1[0], [x + y for x, y in zip(d1[1], delta)]]
    nonzero(ctx, d2[1])
    e1, e2 = spec(ctx, m, d1, None), spec(ctx, m, d2, None)
    ctx.eq("first state", E.ferro(d1), e1)
    ctx.eq("second state", E.ferro(d2), e2)
    if field:
        B = ctx.vec("B")
        E.magnetic_field = B
        ctx.eq("second state in a field", E.ferro(d2), spec(ctx, m, d2, B))
        E.magnetic_field = [x + y for x, y in zip(B, delta)]
        ctx.eq("second state in another field", E.ferro(d2), spec(ctx, m, d2, [x + y for x, y in zip(B, delta)]))
        E.magnetic_field = None
    ctx.eq("first state again", E.ferro(d1), e1)
    ctx.eq("first state, spins in the other order", E.ferro(d1[::-1]), spec(ctx, m, d1[::-1], None))


@REG.scenario("one model after another", bound="two atoms, one interaction, one on-site term: two models that differ in one thing", conc=15, variants=[dict(what=w) for w in TWINS])
def twin_models(ctx, what):
    """no energy depends on the models that were evaluated before"""
    M1, M2 = twins(ctx, what, [ctx.real("S0", pos=True), ctx.real("S1", pos=True)], [ctx.real("T0", pos=True), ctx.real("T1", pos=True)], lambda name: rows(ctx.mat(name)), CELL)
    dirs = [nonzero_vec(ctx, f"d{k}") for k in range(2)]
    B = ctx.vec("B")
    E1, E2 = ctx.world.Energy(M1.h), None
    E1.magnetic_field = B
    ctx.eq("energy of the first model", E1.ferro(dirs), spec(ctx, M1, dirs, B))
    E2 = ctx.world.Energy(M2.h)
    E2.magnetic_field = B
    ctx.eq("energy of the second model", E2.ferro(dirs), spec(ctx, M2, dirs, B))
    ctx.eq("energy of the first model again", E1.ferro(dirs), spec(ctx, M1, dirs, B))


@REG.scenario("independence from later changes of the Hamiltonian", bound=BOUND, conc=20, variants=[dict(what=w) for w in ("value", "notation", "scale", "remove", "cell", "spin", "onsite")])
def later(ctx, what):
    m = model(ctx, ("ab",), (0,))
    h = m.h
    dirs = [nonzero_vec(ctx, f"d{k}") for k in range(2)]
    B = ctx.vec("B")
    want = spec(ctx, m, dirs, B)
    E = ctx.world.Energy(h)
    E.magnetic_field = B
    o = m.os[0]
    if what == "value":
        h[o.a, o.b, o.R].matrix = rows(ctx.mat("N"))
    elif what == "notation":
        h.double_counting = not m.dc
        h.spin_normalized = not m.sn
        h.exchange_factor = ctx.real("f2", nonzero=True)
    elif what == "scale":
        h[o.a, o.b, o.R].iso = ctx.real("x")
        h.on_site_factor = ctx.real("f2", nonzero=True)
    elif what == "remove":
        h.remove_exchange(o.a, o.b, o.R)
    elif what == "cell":
        h.cell = rows(sym_cell(ctx))
    elif what == "spin":
        h.atoms[0].spin = ctx.real("S9", pos=True)
        h.atoms[1].g_factor = ctx.real("g9")
    else:
        h.remove_on_site(o.a)
    ctx.eq("energy", E.ferro(dirs), want)
    # an equal Hamiltonian that was not evaluated before
    new, other = ctx.world.Energy(h), ctx.world.Energy(h.copy())
    new.magnetic_field = other.magnetic_field = B
    left = dirs[:len(other.spins)]
    ctx.eq("a new evaluation is one of the changed Hamiltonian", new.ferro(left), other.ferro(left))
    ctx.eq("energy of the original Hamiltonian", E.ferro(dirs), want)


@REG.scenario("values that were handed over are the caller's", bound="two atoms, one interaction, one on-site term", conc=20, variants=[dict(form=f) for f in ("array", "list")])
def handed_over(ctx, form):
    """later changes of the field, spins and g-factors passed in do not change the energies; energies leave them as they are"""
    np = ctx.np
    m = model(ctx, ("ab",), (0,), sn=False)
    E = ctx.world.Energy(m.h)
    dirs = [nonzero_vec(ctx, f"d{k}") for k in range(2)]
    B, S, g = ctx.vec("B"), [ctx.real("T0"), ctx.real("T1")], [ctx.real("q0"), ctx.real("q1")]
    conv = (lambda x: np.array([y for y in x], dtype=float)) if form == "array" else list
    given = [conv(x) for x in (B, S, g)]
    E.magnetic_field, E.spins, E.g_factors = given
    m.S = S
    want = spec(ctx, m, dirs, B, g=g)
    ctx.eq("energy", E.ferro(dirs), want)
    for x, y in zip(given, (B, S, g)):
        ctx.eq("values passed in are left as they are", list(x), list(y))
        x[0] = x[0] + 1
        x[-1] = 100.0
    ctx.eq("energy after the values passed in have changed", E.ferro(dirs), want)


@REG.scenario("other spins and g factors", bound="two atoms, one interaction, one on-site term", conc=20)
def setters(ctx):
    m = model(ctx, ("ab",), (0,), sn=False)
    E = ctx.world.Energy(m.h)
    dirs = [nonzero_vec(ctx, f"d{k}") for k in range(2)]
    S = [ctx.real("T0"), ctx.real("T1")]
    g = [ctx.real("q0"), ctx.real("q1")]
    B = ctx.vec("B")
    E.magnetic_field = B
    old = list(m.S)
    e0 = spec(ctx, m, dirs, B)
    gs = tuple(g) if ctx.bool("tuple") else list(g)
    E.g_factors = gs
    ctx.eq("energy with new g factors", E.ferro(dirs), spec(ctx, m, dirs, B, g=g))
    given = list(S)
    E.spins = given
    m.S = S
    ctx.eq("energy with new spins", E.ferro(dirs), spec(ctx, m, dirs, B, g=g))
    given[0] = 100
    ctx.eq("spins are kept by value", list(E.spins), S)
    for bad in (1, [1.0], [1.0, "x"], [1.0, 2.0, 3.0]):
        ctx.raises("wrong spins are refused", ValueError, setattr, E, "spins", bad)
        ctx.raises("wrong g factors are refused", ValueError, setattr, E, "g_factors", bad)
    ctx.eq("spins are kept after a refusal", list(E.spins), S)
    ctx.eq("g factors are kept after a refusal", list(E.g_factors), g)


@REG.scenario("wrong directions are refused", bound="two atoms", conc=10)
def refuse(ctx):
    m = model(ctx, ("ab",), (0,))
    E = ctx.world.Energy(m.h)
    d = [float(x) for x in (1, 2, 3)]
    for bad in ([d], [d, d, d], d, [[1.0, 2.0], [1.0, 2.0]], "spins", [d, ["a", "b", "c"]]):
        ctx.raises("wrong directions are refused", ValueError, E.ferro, bad)


@REG.scenario("large models", sym=False, conc=60, conc_thorough=2000, bound="run-time check with up to 12 atoms and up to 80 interactions")
def large(ctx):
    dc, sn = ctx.bool("dc"), ctx.bool("sn")
    N, size = crowd(ctx, 10)
    at = make_atoms(ctx, N, ctx.choice("naming", ["distinct", "same name", "reversed"]), spin=ctx.choice("spin", ["number", "vector"]), pos=False, g_factor=[ctx.real(f"g{k}") for k in range(N)])
    os = random_orbits(ctx, at, size)
    m = Model(ctx, at, dc, sn, os, {k: rows(ctx.mat(f"A{k}")) for k in range(N) if ctx.bool(f"on{k}")})
    if not m.mag:
        ctx.assume(False)
    E = ctx.world.Energy(m.h)
    dirs = [nonzero_vec(ctx, f"d{k}") for k in range(len(m.mag))]
    B = ctx.vec("B")
    E.magnetic_field = B
    ctx.eq("energy", E.ferro(dirs), spec(ctx, m, dirs, B))
