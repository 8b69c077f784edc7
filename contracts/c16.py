"""C16: a Hamiltonian survives writing to and reading from the HDF5 format."""
import math

from symx.run import Registry
from .common import *
from .c06 import full_view, same_view
from .c14 import ENTRIES, notation_entry
from .c15 import BOHR, ENERGY

REG = Registry()
REG.assumptions = ["atom names are unique and spins defined", "h5py stores float64 and int64 arrays, strings and attributes unchanged and lists groups in the order of their names (stand-in checked against h5py by the run-time evaluations)"]
BOUND = "up to two atoms, two interactions, two on-site terms"


def compare(ctx, g, h):
    ctx.eq("cell", rows(g.cell), rows(h.cell), exact=True)
    ctx.ensure("names and order of atoms", [a.name for a in g.atoms] == [a.name for a in h.atoms], detail=str([a.name for a in g.atoms]))
    for a, b in zip(h.atoms, g.atoms):
        ctx.eq("position", list(b.position), list(a.position), exact=True)
        ctx.eq("spin", list(b.spin_vector), list(a.spin_vector), exact=True)
        ctx.eq("g-factor", b.g_factor, a.g_factor, exact=True)
        ctx.eq("charge", attr(b, "charge"), attr(a, "charge"), exact=True)
    ex, ons, ex2, ons2 = stored(h), stored_on_site(h), stored(g), stored_on_site(g)
    if ex or ons:
        ctx.ensure("spin normalisation", g.spin_normalized == h.spin_normalized)
    if ex:
        ctx.ensure("double counting", g.double_counting == h.double_counting)
        ctx.eq("exchange factor", g.exchange_factor, h.exchange_factor, exact=True)
    if ons:
        ctx.eq("on-site factor", g.on_site_factor, h.on_site_factor, exact=True)
    ctx.ensure("number of bonds", len(ex2) == len(ex), detail=f"{len(ex2)} for {len(ex)}")
    for a, b, R, M in ex:
        found = [m for x, y, S, m in ex2 if x.name == a.name and y.name == b.name and bool(ctx.same(tuple(S), tuple(R)))]
        ctx.ensure("bond is there once", len(found) == 1)
        for m in found:
            ctx.eq("matrix of the bond", m, M, exact=True)
    ctx.ensure("number of on-site terms", len(ons2) == len(ons))
    for a, M in ons:
        found = [m for x, m in ons2 if x.name == a.name]
        ctx.ensure("on-site term is there once", len(found) == 1)
        for m in found:
            ctx.eq("matrix of the on-site term", m, M, exact=True)
    for k in ("cone_axis", "spiral_vector"):
        u, v = getattr(h, k), getattr(g, k)
        ctx.ensure(f"{k} is there", (u is None) == (v is None))
        if u is not None and v is not None:
            ctx.eq(k, list(v), list(u))


def attr(a, k):
    try:
        return getattr(a, k)
    except Exception:
        return "undefined"


def dump(ctx, h, f, **kw):
    """writing leaves the Hamiltonian"""
    before, n0 = full_view(h), [notation_entry(h, k) for k in ENTRIES]
    vec = {k: None if getattr(h, k) is None else list(getattr(h, k)) for k in ("cone_axis", "spiral_vector")}
    ctx.world.hdf5.dump_spinham_hdf5(h, filename=f, **kw)
    same_view(ctx, full_view(h), before, "writing leaves the Hamiltonian")
    ctx.eq("writing leaves the notation", [notation_entry(h, k) for k in ENTRIES], n0)
    for k, v in vec.items():
        ctx.ensure(f"writing leaves {k}", (getattr(h, k) is None) == (v is None))
        if v is not None:
            ctx.eq(f"writing leaves {k}", list(getattr(h, k)), v)


def load(ctx, f, group=None):
    kw = {} if group is None else {"groupname": group}
    if ctx.world.hdf5.__name__ and ctx.bool("via io" + str(len(ctx.inputs if ctx.symbolic else ctx.used))):
        return ctx.world.io.load_spinham(f, **kw)
    return ctx.world.hdf5.load_spinham_hdf5(f, **kw)


def atoms_of(ctx, n, charged=True):
    out = []
    for k in range(n):
        kw = {"charge": ctx.real(f"charge{k}")} if charged else {}
        out.append(ctx.world.Atom(["Fe", "Xe_2", "1m"][k], ctx.vec(f"p{k}"), spin=ctx.vec(f"S{k}"), index=k + 1, g_factor=ctx.real(f"g{k}"), **kw))
    return out


@REG.scenario("round trip", bound=BOUND, conc=15, budget=60,
              variants=[dict(dc=d, sn=s, sites=x, on=o) for d in (True, False) for s, x, o in ((True, ("ab",), ()), (False, ("ab", "aa"), (0,)), (True, ("ba", "bb"), (1, 0)), (False, (), (1,)), (True, (), ()))])
def round_trip(ctx, dc, sn, sites, on):
    at = atoms_of(ctx, 2, ctx.bool("charged"))
    notation = (dc, sn, ctx.real("f", nonzero=True), ctx.real("fo", nonzero=True)) if sites or on else None
    h = make_ham(ctx, at, notation=notation, cell=rows(sym_cell(ctx)))
    os = [orbit(ctx, at, s, k) for k, s in enumerate(sites)]
    for k, o in enumerate(os):
        for p in os[:k]:
            different_orbits(ctx, p, o)
        put(h, o, "fwd")
    for k in on:
        h.add_on_site(at[k], matrix=rows(ctx.mat(f"A{k}")))
    f = ctx.scratch() + "/model.hdf5"
    dump(ctx, h, f)
    compare(ctx, load(ctx, f), h)


@REG.scenario("optional parts", bound=BOUND, conc=20, budget=60, variants=[dict(ex=e, on=o) for e in (False, True) for o in (False, True)])
def optional(ctx, ex, on):
    n = ctx.choice("n", [1, 2, 3])
    at = atoms_of(ctx, n)
    h = make_ham(ctx, at, cell=rows(sym_cell(ctx)))
    if ex or on:
        h.spin_normalized = ctx.bool("sn")
    if ex:
        h.double_counting = ctx.bool("dc")
        h.exchange_factor = ctx.real("f", nonzero=True)
        put(h, orbit(ctx, at, "aa" if n == 1 else "ab", 0), "fwd")
    if on:
        h.on_site_factor = ctx.real("fo", nonzero=True)
        h.add_on_site(at[-1], matrix=rows(ctx.mat("A")))
    if ctx.bool("spiral"):
        h.spiral_vector = list(ctx.vec("q"))
    if ctx.bool("axis"):
        v = nonzero_vec(ctx, "v")
        ctx.assume(dot(v, v) >= 2.0 ** -10)
        h.cone_axis = list(v)
    f = ctx.scratch() + "/model.hdf5"
    dump(ctx, h, f)
    compare(ctx, load(ctx, f), h)


def small(ctx, tag):
    """a Hamiltonian that differs from the others in everything"""
    at = [ctx.world.Atom(f"Fe{tag}", ctx.vec(f"p{tag}"), spin=ctx.vec(f"S{tag}"), index=1)]
    h = make_ham(ctx, at, notation=(False, True, ctx.real(f"f{tag}", nonzero=True), 1.0))
    h.add_exchange(at[0], at[0], (1, tag, 0), matrix=rows(ctx.mat(f"M{tag}")))
    if ctx.bool(f"q?{tag}"):
        h.spiral_vector = list(ctx.vec(f"q{tag}"))
    return h


@REG.scenario("several groups", bound="histories of up to three writes to two groups", conc=60, budget=90,
              variants=[dict(names=n) for n in (("spinham", "other"), ("a", "a/b"), ("g/one", "g/two"), ("b", "a"))])
def groups(ctx, names):
    """any history of writing: each group holds what was last written to it, and only overwriting on request replaces"""
    f = ctx.scratch() + "/models.hdf5"
    holds = {}
    for k in range(3):
        h = small(ctx, k)
        g = names[ctx.choice(f"group{k}", [0, 1])]
        over = ctx.bool(f"overwrite{k}")
        taken = g in holds or any(x.startswith(g + "/") for x in holds)
        if taken and not over:
            ctx.raises("an existing group is not replaced silently", FileExistsError, lambda: ctx.world.hdf5.dump_spinham_hdf5(h, filename=f, groupname=g))
        else:
            dump(ctx, h, f, groupname=g, **({"overwrite": True} if over else {}))
            for x in [x for x in holds if x.startswith(g + "/")]:
                del holds[x]
            holds[g] = h
    for g, h in holds.items():
        compare(ctx, load(ctx, f, g), h)
    for g in names:
        if g not in holds and not any(x.startswith(g + "/") for x in holds):
            ctx.raises("a missing group is refused", (KeyError, RuntimeError), lambda: ctx.world.hdf5.load_spinham_hdf5(f, groupname=g))
    if len(holds) == 1:
        compare(ctx, load(ctx, f), list(holds.values())[0])
    else:
        ctx.raises("an ambiguous file is refused", RuntimeError, lambda: ctx.world.hdf5.load_spinham_hdf5(f))


def h5file(ctx, f):
    if ctx.symbolic:
        return ctx.world.shim.H5File(f, "a")
    import h5py
    return h5py.File(f, "a")


@REG.scenario("units of the file", bound="one atom, one bond, one on-site term", conc=30, budget=60,
              variants=[dict(length=a, energy=e) for a, e in (("Angstrom", "milli-electron-Volt"), ("Bohr", "Rydberg"), ("bohr", "Kelvin"), ("Angstrom", "electron-volt"), ("BOHR", "JOULE"))])
def units(ctx, length, energy):
    """a file of the documented layout, with every unit it may declare"""
    f = ctx.scratch() + "/foreign.hdf5"
    c, M, A, q, n = sym_cell(ctx), rows(ctx.mat("M")), rows(ctx.mat("A")), ctx.vec("q"), nonzero_vec(ctx, "n")
    qa, na = ctx.bool("absolute spiral vector"), ctx.bool("absolute axis")
    fp = h5file(ctx, f)
    g = fp.create_group("x/model")
    g.attrs["type"] = "SpinHamiltonian"
    cell = g.create_group("cell")
    cell.attrs["units"] = length
    for k in range(3):
        cell.create_dataset(f"a{k + 1}", data=list(c[k]), dtype=float)
    a = g.create_group("atoms").create_group("1")
    for k, v in (("position", [0.25, 0.5, 0.0]), ("spin", [0.0, 1.0, 0.0]), ("g-factor", 2.5)):
        a.create_dataset(k, data=v, dtype=float)
    a.create_dataset("name", data="Fe")
    note = g.create_group("notation")
    for k, v in (("double-counting", 0), ("spin-normalized", 1)):
        note.create_dataset(k, data=v, dtype=int)
    note.create_dataset("exchange-factor", data=0.5, dtype=float)
    note.create_dataset("on-site-factor", data=2.0, dtype=float)
    e = g.create_group("exchange")
    e.attrs["units"] = energy
    b = e.create_group("1")
    b.create_dataset("atom-1", data="Fe")
    b.create_dataset("atom-2", data="Fe")
    b.create_dataset("ijk", data=(0, 1, -1), dtype=int)
    b.create_dataset("matrix", data=M, dtype=float)
    o = g.create_group("on-site")
    o.attrs["units"] = energy.upper()
    b = o.create_group("1")
    b.create_dataset("atom", data="Fe")
    b.create_dataset("matrix", data=A, dtype=float)
    g.create_dataset("spiral-vector", data=list(q), dtype=float).attrs["units"] = "Absolute" if qa else "Relative"
    g.create_dataset("cone-axis", data=list(n), dtype=float).attrs["units"] = "absolute" if na else "relative"
    fp.close()
    k = BOHR if length.lower() == "bohr" else 1.0
    v = n if na else vecmat(n, c)
    ctx.assume_longer(v, 2.0 ** -5)
    h = load(ctx, f)
    ctx.eq("cell", rows(h.cell), scale(k, c))
    u = ENERGY[energy[0].lower()]
    ctx.eq("exchange", [(R, m) for _, _, R, m in stored(h)], [((0, 1, -1), scale(u, M))])
    ctx.eq("on-site", [m for _, m in stored_on_site(h)], [scale(u, A)])
    ctx.ensure("undefined charge", attr(h.atoms[0], "charge") == "undefined" or h.atoms[0].charge is None)
    r = ctx.sqrt(dot(v, v))
    ctx.eq("cone axis", list(h.cone_axis), [x / r for x in v])
    if qa:
        ctx.eq("absolute spiral vector", [x for x in vecmat(list(h.spiral_vector), rows(h.reciprocal_cell))], list(q))
    else:
        ctx.eq("relative spiral vector", list(h.spiral_vector), list(q))


@REG.scenario("models of any size", sym=False, conc=40, conc_thorough=1500, bound="run-time check: up to 25 atoms and 30 bonds")
def large(ctx):
    w = ctx.world
    n = ctx.choice("n", [1, 3, 10, 12, 25])
    v = lambda tag: wild(ctx, tag, list(ctx.vec(tag)))
    x = lambda tag: wild(ctx, tag, ctx.real(tag))
    far = reach(ctx)
    at = [w.Atom(f"{ctx.choice(f'el{i}', ['Fe', 'X', '1a', 'Mn_2', 'd'])}{i}", v(f"p{i}"), spin=v(f"S{i}"), index=i + 1, g_factor=x(f"g{i}"), charge=x(f"q{i}")) for i in range(n)]
    h = make_ham(ctx, at, notation=(ctx.bool("dc"), ctx.bool("sn"), ctx.real("f", nonzero=True) * math.pi, ctx.real("fo", nonzero=True) * math.pi), cell=wild(ctx, "cell", rows(sym_cell(ctx))))
    for k in range(ctx.int("bonds", lo=0, hi=30)):
        a, b, R = at[ctx.int(f"a{k}", lo=0, hi=n - 1)], at[ctx.int(f"b{k}", lo=0, hi=n - 1)], ctx.ivec(f"R{k}", lo=-far, hi=far)
        if (a is b and R == (0, 0, 0)) or (a, b, R) in h or (b, a, neg3(R)) in h:
            continue
        h.add_exchange(a, b, R, matrix=wild(ctx, f"M{k}", rows(ctx.mat(f"M{k}"))))
    for k in range(ctx.int("sites", lo=0, hi=n)):
        h.add_on_site(at[k], matrix=wild(ctx, f"A{k}", rows(ctx.mat(f"A{k}"))))
    if ctx.bool("axis"):
        h.cone_axis = list(nonzero_vec(ctx, "n_"))
    if ctx.bool("spiral"):
        h.spiral_vector = v("q")
    f = ctx.scratch() + "/model.hdf5"
    dump(ctx, h, f)
    compare(ctx, load(ctx, f), h)
