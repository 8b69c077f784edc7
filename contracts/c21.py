"""C21: standardising the unit cell changes the description of the model, not the model."""
from symx.run import Registry
from .common import *
from .c10 import spec

REG = Registry()
REG.assumptions = ["bonds join distinct sites (a != b or R != 0)",
                   "wulfric's matrix of the standardisation has integer entries and determinant +1 or -1 (any such matrix: products of "
                   "permutations, reflections and shears)"]
BOUND = "Hamiltonians with two atoms, two interactions and one on-site term; any cell, positions, lattice vectors and values"

MATRICES = {
    "identity": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "reversed": [[0, 0, -1], [0, -1, 0], [-1, 0, 0]],
    "cyclic": [[0, 1, 0], [0, 0, 1], [1, 0, 0]],
    "hexagonal": [[1, 0, 0], [-1, 1, 0], [0, 0, 1]],
    "monoclinic": [[0, 0, 1], [-1, 0, 0], [0, -1, 1]],
}


def shear(ctx, k):
    """product of a shear by an arbitrary integer and a permutation"""
    n = ctx.int("n")
    i, j = [(0, 1), (1, 2), (2, 0), (1, 0), (2, 1), (0, 2)][k]
    m = [[0, 1, 0], [0, 0, -1], [1, 0, 0]] if k % 2 else [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    e = [[1 if a == b else 0 for b in range(3)] for a in range(3)]
    e[i][j] = n
    return matmul(e, m)


def with_matrix(ctx, h, m):
    """the Hamiltonian in a cell whose standardisation matrix is m"""
    s = ctx.array(m)
    h.__class__ = type("Hamiltonian", (type(h),), {"S_matrix": property(lambda self: s)})
    return h


def site(a, R, cell):
    return vecmat([a.position[k] + R[k] for k in range(3)], cell)


def snapshot(h):
    cell = rows(h.cell)
    return {"atoms": list(h.atoms), "sites": [site(a, (0, 0, 0), cell) for a in h.atoms],
            "spins": [None if a.spin_vector is None else list(a.spin_vector) for a in h.atoms],
            "bonds": [(a, b, R, site(b, R, cell), m) for a, b, R, m in stored(h)],
            "on": stored_on_site(h)}


def same_model(ctx, h, old, label, basis, tol=None):
    """basis: integer matrix that takes relative coordinates of the old cell to those of the new one"""
    kw = {} if tol is None else {"tol": tol}
    new = snapshot(h)
    ctx.ensure(f"{label}: atoms", len(new["atoms"]) == len(old["atoms"]) and all(x is y for x, y in zip(new["atoms"], old["atoms"])))
    ctx.eq(f"{label}: sites of the atoms", new["sites"], old["sites"], **kw)
    ctx.eq(f"{label}: spins", new["spins"], old["spins"])
    ctx.ensure(f"{label}: number of bonds", len(new["bonds"]) == len(old["bonds"]), detail=f"{len(new['bonds'])} {len(old['bonds'])}")
    ctx.ensure(f"{label}: number of on-site terms", len(new["on"]) == len(old["on"]))
    for (a, m), (b, k) in zip(new["on"], old["on"]):
        ctx.ensure(f"{label}: atom of the on-site term", a is b)
        ctx.eq(f"{label}: on-site term", m, k)
    for a, b, R, q, m in old["bonds"]:
        hit = [e for e in new["bonds"] if is_key(ctx, e, a, b, tuple(matvec(basis, R)))]
        ctx.ensure(f"{label}: the bond is there once", len(hit) == 1, detail=f"{len(hit)} candidates")
        if hit:
            ctx.eq(f"{label}: the bond ends at the same site", hit[0][3], q, **kw)
            ctx.eq(f"{label}: value of the bond", hit[0][4], m)
    for a, b, R, _ in stored(h):
        ctx.ensure(f"{label}: lattice vectors are integers", all(is_integer(ctx, x) for x in R), detail=str(R))


def is_integer(ctx, x):
    return isinstance(x, int) or (ctx.symbolic and hasattr(x, "is_integer_valued") and x.is_integer_valued())


def model(ctx, s, t, dc, cell):
    at = make_atoms(ctx, 2)
    h = make_ham(ctx, at, notation=(dc, False, 0.5, 1.0) if dc is not None else None, cell=rows(cell))
    os = [orbit(ctx, at, s, 0), orbit(ctx, at, t, 1)]
    different_orbits(ctx, *os)
    for o in os:
        put(h, o, "fwd")
    A = rows(ctx.mat("A"))
    h.add_on_site(at[1], matrix=A)
    return at, h, os, A


PAIRS = (("ab", "bb"), ("ab", "ba"))


@REG.scenario("any change of basis", bound=BOUND, conc=15, budget=60,
              variants=[dict(m=m, pair=p, dc=d) for m in list(MATRICES) + list(range(6)) for p, d in ((PAIRS[0], True), (PAIRS[1], False))])
def basis(ctx, m, pair, dc):
    cell = sym_cell(ctx)
    at, h, os, A = model(ctx, *pair, dc, cell)
    S = MATRICES[m] if isinstance(m, str) else shear(ctx, m)
    with_matrix(ctx, h, S)
    q = ctx.vec("q") if ctx.bool("vectors") else None
    if q is not None:
        h.spiral_vector = q
    before = snapshot(h)
    h.standardize()
    same_model(ctx, h, before, "after", S)
    invariant(ctx, h, dc, "after")
    ctx.ensure("notation", h.double_counting == dc and h.spin_normalized is False and h.exchange_factor == 0.5 and h.on_site_factor == 1.0)
    if q is not None:
        ctx.eq("spiral vector", h.spiral_vector, q)
    else:
        ctx.ensure("spiral vector", h.spiral_vector is None)


@REG.scenario("notation not declared", bound=BOUND, conc=15, variants=[dict(m=m) for m in ("reversed", "cyclic", 2)])
def undeclared(ctx, m):
    cell = sym_cell(ctx)
    at, h, os, A = model(ctx, "ab", "aa", None, cell)
    S = MATRICES[m] if isinstance(m, str) else shear(ctx, m)
    with_matrix(ctx, h, S)
    before = snapshot(h)
    h.standardize()
    same_model(ctx, h, before, "after", S)


@REG.scenario("copies are not affected", bound=BOUND, conc=15, variants=[dict(m="cyclic")])
def copies(ctx, m):
    cell = sym_cell(ctx)
    at, h, os, A = model(ctx, "ab", "aa", True, cell)
    with_matrix(ctx, h, MATRICES[m])
    g = h.copy()
    before = snapshot(g)
    h.standardize()
    same_model(ctx, g, before, "copy", MATRICES["identity"])
    ctx.eq("cell of the copy", rows(g.cell), rows(cell))


@REG.scenario("energies stay the same", bound="two atoms, one interaction, one on-site term; symbolic cell and wave vector", conc=15, budget=60,
              variants=[dict(m=m, dc=d) for m in ("reversed", "cyclic", "hexagonal") for d in (True, False)])
def energies(ctx, m, dc):
    cell = sym_cell(ctx)
    at = make_atoms(ctx, 2)
    M = Model(ctx, at, dc, False, [orbit(ctx, at, "ab", 0)], {0: rows(ctx.mat("A"))}, cell=rows(cell))
    with_matrix(ctx, M.h, MATRICES[m])
    q, n = ctx.vec("q"), nonzero_vec(ctx, "n")
    dirs = [nonzero_vec(ctx, f"e{k}") for k in range(2)]
    want = spec(ctx, M, rows(cell), dirs, n, q, None)
    M.h.standardize()
    ctx.eq("spiral energy", ctx.world.Energy(M.h).spiral(dirs, n, q), want)


LATTICES = {
    "CUB": [[3.0, 0, 0], [0, 3.0, 0], [0, 0, 3.0]],
    "TET": [[4.0, 0, 0], [0, 3.0, 0], [0, 0, 3.0]],
    "ORC": [[5.0, 0, 0], [0, 4.0, 0], [0, 0, 3.0]],
    "ORC2": [[0, 3.0, 0], [0, 0, 5.0], [4.0, 0, 0]],
    "HEX": [[0, 5.0, 0], [0, 0, 3.0], [2.598076211353316, 0, -1.5]],
    "HEX2": [[0, 0, 5.0], [3.0, 0, 0], [-1.5, 2.598076211353316, 0]],
    "ORCC": [[1.5, 2.0, 0], [1.5, -2.0, 0], [0, 0, 6.0]],
    "BCT": [[-1.5, 1.5, 2.5], [1.5, -1.5, 2.5], [1.5, 1.5, -2.5]],
    "BCT2": [[1.5, 1.5, -2.5], [-1.5, 1.5, 2.5], [1.5, -1.5, 2.5]],
    "ORCF": [[2.5, 2.0, 0], [2.5, 0, 1.5], [0, 2.0, 1.5]],
    "ORCI": [[2.5, 2.0, -1.5], [-2.5, 2.0, 1.5], [2.5, -2.0, 1.5]],
    "MCL": [[0, 0, 6.0], [5.0, 1.0, 0], [0, 0.75, 0]],
    "TRI": [[3.0, 0.25, 0.125], [0.5, 4.0, 0.25], [0.125, -0.5, 5.0]],
}


@REG.scenario("cells of the Bravais lattices", bound="thirteen cells; two atoms, one interaction with any lattice vector, one on-site term", conc=2,
              variants=[dict(name=n, dc=d) for n in LATTICES for d in (True, False)])
def lattices(ctx, name, dc):
    """wulfric's own matrix: the change of basis is the integer matrix with  cell = basis @ new cell"""
    import numpy
    cell = LATTICES[name]
    at = make_atoms(ctx, 2)
    h = make_ham(ctx, at, notation=(dc, False, 0.5, 1.0), cell=cell)
    o = orbit(ctx, at, "ab", 0)
    put(h, o, "fwd")
    A = rows(ctx.mat("A"))
    h.add_on_site(at[0], matrix=A)
    pos = [list(a.position) for a in at]
    h.standardize()
    new = numpy.array([[float(x) for x in r] for r in rows(h.cell)])
    basis = numpy.array(cell) @ numpy.linalg.inv(new)
    whole = numpy.rint(basis)
    ctx.ensure("the new cell spans the same lattice", bool(abs(basis - whole).max() < 1e-9 and abs(abs(numpy.linalg.det(whole)) - 1) < 1e-9))
    B = [[int(x) for x in r] for r in whole]
    for a, p in zip(at, pos):
        ctx.eq("position of the atom", list(a.position), vecmat(p, B))
    o.R = tuple(vecmat(o.R, B))
    holds(ctx, h, o, dc, o.M, "after")
    total(ctx, h, 2 if dc else 1, "after")
    on = stored_on_site(h)
    ctx.ensure("on-site term", len(on) == 1 and on[0][0] is at[0])
    ctx.eq("on-site term", on[0][1], A)


@REG.scenario("large models", sym=False, conc=40, bound="run-time check with up to 12 atoms and up to 80 interactions; energies and magnon frequencies")
def large(ctx):
    import numpy
    name = ctx.choice("lattice", list(LATTICES))
    N, size = crowd(ctx, 10)
    at = make_atoms(ctx, N)
    cell = LATTICES[name]
    M = Model(ctx, at, ctx.bool("dc"), ctx.bool("sn"), random_orbits(ctx, at, size), {0: symm(ctx, "A")}, cell=cell)
    q = ctx.vec("q")
    n = nonzero_vec(ctx, "n")
    dirs = [nonzero_vec(ctx, f"e{k}") for k in range(len(M.mag))]
    before = snapshot(M.h)
    want = ctx.world.Energy(M.h).spiral(dirs, n, q)
    D = ctx.world.disp.MagnonDispersion(M.h)
    k = ctx.vec("k")
    w1 = D.h(k)
    M.h.standardize()
    new = numpy.array([[float(x) for x in r] for r in rows(M.h.cell)])
    basis = [[int(x) for x in r] for r in numpy.rint(numpy.array(cell) @ numpy.linalg.inv(new)).T]
    same_model(ctx, M.h, before, "after", basis, tol=1e-6)
    ctx.eq("spiral energy", ctx.world.Energy(M.h).spiral(dirs, n, q), want)
    ctx.eq("magnon matrix", ctx.world.disp.MagnonDispersion(M.h).h(k), w1)
