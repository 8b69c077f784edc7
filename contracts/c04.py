"""C04: changing the notation never changes the energy of any spin configuration.

The energy of all configurations is the same iff for every interaction orbit {(a,b,R), (b,a,-R)} the coefficient matrix of
the spin pair, and for every atom the on-site coefficient matrix, is the same; these are read off the public views."""
from symx.run import Registry
from .common import *

REG = Registry()
REG.assumptions = ["bonds join distinct sites (a != b or R != 0)", "spins are non-zero, factors are non-zero"]
NAMES = {"magnopy": (True, False, 0.5, 1), "tb2j": (True, True, -1, -1), "spinw": (True, False, 1, 1), "vampire": (True, True, -0.5, -1)}

SINGLE = ["double_counting", "spin_normalized", "exchange_factor", "on_site_factor"]
SHAPES = [("ab",), ("aa",), ("ba",), ("ab", "aa"), ("ab", "ab"), ("ab", "ba")]


def build(ctx, shape, naming="distinct", atoms=2, on_site=2, notation=None):
    at = make_atoms(ctx, atoms, naming, pos=False)
    h = make_ham(ctx, at, notation=notation)
    orbits = []
    for k, s in enumerate(shape):
        a, b = at["abc".index(s[0])], at["abc".index(s[1])]
        R = ctx.ivec(f"R{k}")
        not_self(ctx, a, b, R)
        M = rows(ctx.mat(f"M{k}"))
        o = Orbit(a, b, R, M)
        for p in orbits:
            different_orbits(ctx, p, o)
        orbits.append(o)
        h.add_exchange(a, b, R, matrix=M)
    ons = []
    for k in range(on_site):
        A = rows(ctx.mat(f"A{k}"))
        h.add_on_site(at[k], matrix=A)
        ons.append((at[k], A))
    return at, h, orbits, ons


def snapshot(ctx, h, orbits, ons):
    v, w = stored(h), stored_on_site(h)
    return [eff_orbit(ctx, h, o, v) for o in orbits], [eff_on_site(h, a, w) for a, _ in ons]


def check_shape(ctx, h, orbits, ons, label):
    v = stored(h)
    n = 0
    for o in orbits:
        es = o.entries(ctx, v)
        n += len(es)
        ctx.ensure(f"{label}: number of stored orientations", len(es) == (2 if h.double_counting else 1), detail=len(es))
    ctx.ensure(f"{label}: no bond appears from nowhere", n == len(v))
    ctx.ensure(f"{label}: no on-site term appears or is lost", len(stored_on_site(h)) == len(ons))


def target(ctx, how):
    if how in NAMES:
        return {"l": how, "u": how.upper(), "m": how.capitalize()}[ctx.choice("case", ["l", "u", "m"])], NAMES[how]
    dc, sn, f, fo = start_notation(ctx, "n1")
    if how == "three":
        return (dc, sn, f), (dc, sn, f, f)
    if how == "list":
        return [dc, sn, f, fo], (dc, sn, f, fo)
    return (dc, sn, f, fo), (dc, sn, f, fo)


def energy_check(ctx, h, orbits, ons, before, label):
    e1, s1 = snapshot(ctx, h, orbits, ons)
    ctx.eq(f"{label}: exchange energy", e1, before[0])
    ctx.eq(f"{label}: on-site energy", s1, before[1])


def restored(ctx, h, orbits, ons, label):
    v = stored(h)
    for o in orbits:
        for _, m in o.entries(ctx, v):
            ctx.eq(f"{label}: exchange parameter restored", m, o.M)
    for (a, A), (b, m) in zip(ons, stored_on_site(h)):
        ctx.ensure(f"{label}: on-site atom", atom_eq(a, b))
        ctx.eq(f"{label}: on-site parameter restored", m, A)


@REG.scenario("one entry of the notation", conc=15, bound="Hamiltonian with up to two exchange orbits and two on-site terms",
              variants=[dict(what=s, shape=t) for s in SINGLE for t in SHAPES])
def single(ctx, what, shape):
    n0 = start_notation(ctx)
    at, h, orbits, ons = build(ctx, shape, notation=n0, on_site=2 if len(shape) == 1 else 1)
    before = snapshot(ctx, h, orbits, ons)
    new = ctx.bool("new") if what in SINGLE[:2] else ctx.real("new", nonzero=True)
    setattr(h, what, new)
    exp = list(n0)
    exp[SINGLE.index(what)] = new
    ctx.eq("notation reported", list(h.notation), exp)
    check_shape(ctx, h, orbits, ons, "after")
    energy_check(ctx, h, orbits, ons, before, "after")
    setattr(h, what, n0[SINGLE.index(what)])
    ctx.eq("notation reported after the way back", list(h.notation), list(n0))
    check_shape(ctx, h, orbits, ons, "back")
    restored(ctx, h, orbits, ons, "back")


@REG.scenario("whole notation", conc=15, bound="Hamiltonian with up to two exchange orbits and two on-site terms",
              variants=[dict(how=s, shape=t) for s in ["four", "list", "three"] + list(NAMES) for t in (("ab",), ("aa",))]
              , thorough_variants=[dict(how="four", shape=("ab", "aa")), dict(how="four", shape=("ab", "ab")), dict(how="four", shape=("aa", "aa"))], budget=60)
def whole(ctx, how, shape):
    n0 = start_notation(ctx)
    at, h, orbits, ons = build(ctx, shape, notation=n0, on_site=1)
    before = snapshot(ctx, h, orbits, ons)
    arg, exp = target(ctx, how)
    h.notation = arg
    ctx.eq("notation reported", list(h.notation), list(exp))
    check_shape(ctx, h, orbits, ons, "after")
    energy_check(ctx, h, orbits, ons, before, "after")
    h.notation = n0
    ctx.eq("notation reported after the way back", list(h.notation), list(n0))
    restored(ctx, h, orbits, ons, "back")


@REG.scenario("atoms with equal names or indices", conc=15, variants=[dict(naming=n, shape=s) for n in ("same name", "same index", "reversed") for s in (("ab",), ("ba",), ("aa",))],
              bound="one exchange orbit, two on-site terms")
def naming(ctx, naming, shape):
    n0 = start_notation(ctx)
    at, h, orbits, ons = build(ctx, shape, naming=naming, notation=n0)
    before = snapshot(ctx, h, orbits, ons)
    arg, exp = target(ctx, "four")
    h.notation = arg
    check_shape(ctx, h, orbits, ons, "after")
    energy_check(ctx, h, orbits, ons, before, "after")
    h.notation = n0
    restored(ctx, h, orbits, ons, "back")


@REG.scenario("histories of notation changes", conc=30, sym=True, variants=[dict(order=o) for o in ((0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (1, 3, 0, 2))],
              bound="one exchange orbit and one on-site term; four changes in a row (any longer history: every step starts from an arbitrary state, see the one-entry contract)")
def history(ctx, order):
    n0 = start_notation(ctx)
    at, h, orbits, ons = build(ctx, ("ab",), notation=n0, on_site=1)
    before = snapshot(ctx, h, orbits, ons)
    n1 = start_notation(ctx, "n1")
    for k in order:
        setattr(h, SINGLE[k], n1[k])
        energy_check(ctx, h, orbits, ons, before, f"after step {k}")
    ctx.eq("notation reported", list(h.notation), list(n1))


@REG.scenario("later parameters and notation changes", conc=30, variants=[dict(shape=s) for s in (("ab",), ("aa",))],
              bound="one exchange orbit replaced between two changes")
def replaced(ctx, shape):
    n0 = start_notation(ctx)
    at, h, orbits, ons = build(ctx, shape, notation=n0, on_site=1)
    n1 = start_notation(ctx, "n1")
    h.notation = n1
    o = orbits[0]
    N = rows(ctx.mat("N"))
    if ctx.bool("rev"):
        h.add_exchange(o.b, o.a, neg3(o.R), matrix=tr(N))
    else:
        h.add_exchange(o.a, o.b, o.R, matrix=N)
    before = snapshot(ctx, h, orbits, ons)
    h.notation = n0
    energy_check(ctx, h, orbits, ons, before, "after")
    h.notation = n1
    for _, m in o.entries(ctx, stored(h)):
        ctx.eq("replaced parameter restored", m, N)


@REG.scenario("first declaration", conc=15, variants=[dict(way=w, shape=s, order=o) for w, s in (("fwd", "ab"), ("both", "ab"), ("rev", "aa")) for o in ("whole", "name", (0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1))],
              bound="one exchange orbit and one on-site term")
def declared(ctx, way, shape, order):
    """entries that were not declared so far say how to read the stored parameters, they do not rescale them"""
    at = make_atoms(ctx, 2, pos=False)
    h = make_ham(ctx, at)
    o = orbit(ctx, at, shape, "0")
    put(h, o, way)
    A = rows(ctx.mat("A"))
    h.add_on_site(at[0], matrix=A)
    if order == "whole":
        n0 = start_notation(ctx)
        steps = [("notation", n0)]
    elif order == "name":
        how = ctx.choice("name", list(NAMES))
        n0 = NAMES[how]
        steps = [("notation", how)]
    else:
        n0 = start_notation(ctx)
        steps = [(SINGLE[k], n0[k]) for k in order]
    for what, value in steps:
        setattr(h, what, value)
        restored(ctx, h, [o], [(at[0], A)], f"{what} declared")
    ctx.eq("notation reported", list(h.notation), list(n0))
    check_shape(ctx, h, [o], [(at[0], A)], "declared")
    if order not in ("whole", (1, 3, 0, 2)):
        return
    # and once they are declared, the energy is fixed
    before = snapshot(ctx, h, [o], [(at[0], A)])
    n1 = start_notation(ctx, "n1")
    h.notation = n1
    energy_check(ctx, h, [o], [(at[0], A)], before, "changed")


@REG.scenario("large models", sym=False, conc=25, conc_thorough=400, bound="run-time check with up to 3 atoms and 8 orbits")
def large(ctx):
    shape = [ctx.choice(f"s{k}", ["ab", "aa", "ba", "bb", "ac", "ca", "cc", "bc"]) for k in range(ctx.int("n", lo=1, hi=8))]
    n0 = start_notation(ctx)
    at, h, orbits, ons = build(ctx, shape, naming=ctx.choice("naming", list(NAMING)), atoms=3, on_site=ctx.int("k", lo=0, hi=3), notation=n0)
    before = snapshot(ctx, h, orbits, ons)
    arg, exp = target(ctx, ctx.choice("how", ["four", "three", "list"] + list(NAMES)))
    h.notation = arg
    ctx.eq("notation reported", list(h.notation), list(exp))
    check_shape(ctx, h, orbits, ons, "after")
    energy_check(ctx, h, orbits, ons, before, "after")
    h.notation = n0
    restored(ctx, h, orbits, ons, "back")
