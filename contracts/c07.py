"""C07: filtering and atom removal drop exactly what they are asked to drop."""
from symx.run import Registry
from .common import *
from .c06 import full_view, same_view

REG = Registry()
REG.assumptions = ["custom conditions accept a bond and its mirror alike (they are given a threshold on the isotropic value)"]
BOUND = "Hamiltonians with up to two interactions and one or two on-site terms, any cell, positions, keys and values"


def length2(cell, o):
    d = [o.b.position[i] + o.R[i] - o.a.position[i] for i in range(3)]
    v = vecmat(d, cell)
    return dot(v, v)


def build(ctx, s, dc, t=None, cell=None):
    at = make_atoms(ctx, 2, spin=None)
    cell = sym_cell(ctx) if cell is None else cell
    h = make_ham(ctx, at, cell=rows(cell))
    if dc is not None:
        h.double_counting = dc
    os = [orbit(ctx, at, s, 0)]
    if t:
        os.append(orbit(ctx, at, t, 1))
        different_orbits(ctx, *os)
    for o in os:
        put(h, o, "fwd")
    A = rows(ctx.mat("A"))
    h.add_on_site(at[0], matrix=A)
    return at, h, os, A, cell


def options(ctx, use):
    kw = {}
    if "max" in use:
        kw["max_distance"] = ctx.real("dmax", nonneg=True)
    if "min" in use:
        kw["min_distance"] = ctx.real("dmin", nonneg=True)
    if "custom" in use:
        thr = ctx.real("thr")
        kw["custom_filter"] = lambda p: p.iso > thr
    return kw


def expected_bond(ctx, cell, o, kw):
    d = ctx.sqrt(length2(cell, o))
    c = []
    if "max_distance" in kw:
        c.append(d <= kw["max_distance"])
    if "min_distance" in kw:
        c.append(d >= kw["min_distance"])
    if "custom_filter" in kw:
        c.append(kw["custom_filter"](ctx.world.MatrixParameter(matrix=o.M)))
    if not ctx.symbolic and any(abs(d - kw[k]) < 1e-9 for k in ("max_distance", "min_distance") if k in kw):
        ctx.assume(False)          # rounding decides at the very boundary of a non-representable length
    return ctx.both(*c)


def expected_on_site(ctx, A, kw):
    c = []
    if "min_distance" in kw:
        c.append(kw["min_distance"] <= 0)
    if "custom_filter" in kw:
        c.append(kw["custom_filter"](ctx.world.MatrixParameter(matrix=A)))
    return ctx.both(*c)


def check(ctx, h, dc, at, os, A, cell, kw, label):
    n = 0
    for o in os:
        keep = bool(expected_bond(ctx, cell, o, kw))
        holds(ctx, h, o, bool(dc), o.M if keep else None, f"{label}: bond")
        n += keep
    total(ctx, h, n * (2 if dc else 1), label)
    keep = bool(expected_on_site(ctx, A, kw))
    on = stored_on_site(h)
    ctx.ensure(f"{label}: on-site term kept exactly when asked", len(on) == int(keep))
    if on:
        ctx.ensure(f"{label}: on-site atom", atom_eq(on[0][0], at[0]))
        ctx.eq(f"{label}: on-site value", on[0][1], A)
    ctx.ensure(f"{label}: atoms are kept", [a.name for a in h.atoms] == ["A", "B"])
    ctx.eq(f"{label}: cell", rows(h.cell), rows(cell))


USES = [("max",), ("min",), ("custom",), ("max", "min"), ("max", "custom"), ("min", "custom"), ("max", "min", "custom"), ()]


HEAVY = ("max", "min", "custom")


@REG.scenario("filter", bound=BOUND, conc=25, variants=[dict(use=u, s=s, dc=d) for u in USES for s in ("ab", "aa") for d in (True, False) if u != HEAVY or s == "ab"],
              thorough_variants=[dict(use=HEAVY, s="aa", dc=d) for d in (True, False)], budget=40)
def filt(ctx, use, s, dc):
    at, h, os, A, cell = build(ctx, s, dc)
    kw = options(ctx, use)
    r = h.filter(**kw)
    check(ctx, h, dc, at, os, A, cell, kw, "filter")


@REG.scenario("filtered", bound=BOUND, conc=25, variants=[dict(use=u, s=s, dc=d) for u in (("max",), ("min", "custom"), ("max", "min"), ()) for s in ("ab", "aa") for d in (None, True)],
              thorough_variants=[dict(use=HEAVY, s=s, dc=True) for s in ("ab", "aa")], budget=40)
def filtered(ctx, use, s, dc):
    at, h, os, A, cell = build(ctx, s, dc)
    kw = options(ctx, use)
    before = full_view(h)
    r = h.filtered(**kw)
    ctx.ensure("a new Hamiltonian is returned", r is not h and isinstance(r, ctx.world.SpinHamiltonian))
    same_view(ctx, full_view(h), before, "original")
    check(ctx, r, dc, r.atoms, [Orbit(r.atoms[at.index(o.a)], r.atoms[at.index(o.b)], o.R, o.M) for o in os], A, cell, kw, "filtered")


@REG.scenario("filter with two interactions", bound=BOUND, conc=25, variants=[dict(use=u, s=s, t=t, dc=d) for u in (("max",), ("min",), ("custom",)) for s, t in (("ab", "ab"), ("ab", "aa")) for d in (True, False)], budget=60)
def filt2(ctx, use, s, t, dc):
    # fixed cell and positions keep the lengths of both bonds polynomial in the lattice vectors
    cell = ctx.array([[1.0, 0, 0], [0.25, 1.5, 0], [0, 0, 2.0]])
    at = make_atoms(ctx, 2, spin=None, pos=False)
    h = make_ham(ctx, at, cell=rows(cell))
    h.double_counting = dc
    os = [orbit(ctx, at, s, 0), orbit(ctx, at, t, 1)]
    different_orbits(ctx, *os)
    for o in os:
        put(h, o, "fwd")
    A = rows(ctx.mat("A"))
    h.add_on_site(at[0], matrix=A)
    kw = options(ctx, use)
    h.filter(**kw)
    check(ctx, h, dc, at, os, A, cell, kw, "filter")


@REG.scenario("bond exactly at the threshold", bound="one interaction", conc=25, variants=[dict(dc=d, which=w) for d in (True, False) for w in ("max", "min", "both")])
def boundary(ctx, dc, which):
    """ends included: integer lattice along x, the length is exactly |n|"""
    at = make_atoms(ctx, 2, spin=None, pos=False)
    h = make_ham(ctx, at)
    h.double_counting = dc
    n = ctx.int("n", lo=1, hi=9)
    o = Orbit(at[0], at[0], (n, n - n, n - n), rows(ctx.mat("M")))
    put(h, o, "fwd")
    kw = {}
    if which in ("max", "both"):
        kw["max_distance"] = n
    if which in ("min", "both"):
        kw["min_distance"] = n
    h.filter(**kw)
    holds(ctx, h, o, dc, o.M, "bond at the threshold")


@REG.scenario("on-site terms and a zero minimum", bound="one on-site term", conc=10)
def zero_min(ctx):
    at = make_atoms(ctx, 2, spin=None, pos=False)
    h = make_ham(ctx, at)
    A = rows(ctx.mat("A"))
    h.add_on_site(at[0], matrix=A)
    m = ctx.choice("m", [None, 0, 0.0, 1e-9, 1])
    h.filter(min_distance=m)
    ctx.ensure("kept exactly when the minimum is not positive", len(h.on_site) == int(m is None or m <= 0))


@REG.scenario("remove an atom", bound="three atoms, three interactions, two on-site terms, any keys and values", conc=25,
              variants=[dict(dc=d, k=k) for d in (None, True, False) for k in (0, 1, 2)] , budget=60)
def rm(ctx, dc, k):
    at = make_atoms(ctx, 3, spin=None, pos=False)
    h = make_ham(ctx, at)
    if dc is not None:
        h.double_counting = dc
    os = [orbit(ctx, at, s, i) for i, s in enumerate(("ab", "bc", "aa"))]
    for o in os:
        put(h, o, "fwd")
    A = [rows(ctx.mat("A0")), rows(ctx.mat("A1"))]
    h.add_on_site(at[0], matrix=A[0])
    h.add_on_site(at[1], matrix=A[1])
    gone = at[k]
    h.remove_atom(gone if ctx.bool("obj") else gone.name)
    n = 0
    for o in os:
        keep = o.a is not gone and o.b is not gone
        holds(ctx, h, o, bool(dc), o.M if keep else None, "bond")
        n += keep
    total(ctx, h, n * (2 if dc else 1), "after")
    on = stored_on_site(h)
    ctx.ensure("on-site terms", [a.name for a, _ in on] == [a.name for a in at[:2] if a is not gone])
    for a, m in on:
        ctx.eq("on-site value", m, A[at.index(a)])
    ctx.ensure("atoms", [id(a) for a in h.atoms] == [id(a) for a in at if a is not gone])


@REG.scenario("remove an atom that shares its name or index", bound="three atoms", conc=25, variants=[dict(naming=n, dc=d) for n in ("same name", "same index") for d in (True, False)])
def rm_naming(ctx, naming, dc):
    at = make_atoms(ctx, 3, naming, spin=None, pos=False)
    h = make_ham(ctx, at)
    h.double_counting = dc
    os = [orbit(ctx, at, s, i) for i, s in enumerate(("ab", "bc"))]
    for o in os:
        put(h, o, "fwd")
    h.remove_atom(at[0])
    holds(ctx, h, os[0], dc, None, "bond of the removed atom")
    holds(ctx, h, os[1], dc, os[1].M, "other bond")
    ctx.ensure("atoms", [id(a) for a in h.atoms] == [id(a) for a in at[1:]])


@REG.scenario("large models", sym=False, conc=60, conc_thorough=2000, bound="run-time check with up to 3 atoms and 60 interactions")
def large(ctx):
    at = make_atoms(ctx, 3, spin=None)
    cell = sym_cell(ctx)
    h = make_ham(ctx, at, cell=rows(cell))
    dc = ctx.choice("dc", [None, True, False])
    if dc is not None:
        h.double_counting = dc
    os = []
    for k in range(ctx.int("n", lo=1, hi=ctx.choice("most", [12, 12, 12, 60]))):
        o = orbit(ctx, at, ctx.choice(f"s{k}", ["ab", "bc", "ca", "aa", "bb", "cc"]), k)
        if any((o.a is p.a and o.b is p.b and o.R in (p.R,)) or (o.a is p.b and o.b is p.a and o.R == neg3(p.R)) for p in os):
            continue
        os.append(o)
        put(h, o, "fwd")
    on = [(a, rows(ctx.mat(f"A{i}"))) for i, a in enumerate(at) if ctx.bool(f"on{i}")]
    for a, A in on:
        h.add_on_site(a, matrix=A)
    kw = options(ctx, ctx.choice("use", USES))
    exp = [bool(expected_bond(ctx, cell, o, kw)) for o in os]
    eon = [bool(expected_on_site(ctx, A, kw)) for _, A in on]
    g = h.filtered(**kw)
    total(ctx, h, len(os) * (2 if dc else 1), "original")
    h.filter(**kw)
    for x in (h, g):
        total(ctx, x, sum(exp) * (2 if dc else 1), "filter")
        for o, e in zip(os, exp):
            holds(ctx, x, o, bool(dc), o.M if e else None, "filter")
        ctx.ensure("on-site terms", [a.name for a, _ in stored_on_site(x)] == [a.name for (a, _), e in zip(on, eon) if e])


@REG.scenario("atoms of the same name", sym=False, conc=80, conc_thorough=1000, bound="run-time check with up to 4 atoms that share names")
def shared_names(ctx):
    """bonds are told apart by their atoms, not by the names of the atoms"""
    w = ctx.world
    n = ctx.choice("atoms", [2, 3, 4])
    at = [w.Atom(ctx.choice(f"name{k}", ["Fe", "Fe", "Cr"]), ctx.vec(f"p{k}"), index=k + 1) for k in range(n)]
    cell = sym_cell(ctx)
    h = make_ham(ctx, at, cell=rows(cell))
    dc = ctx.choice("dc", [None, True, False])
    if dc is not None:
        h.double_counting = dc
    os = []
    for k in range(ctx.int("n", lo=2, hi=10)):
        a, b = at[ctx.int(f"a{k}", lo=0, hi=n - 1)], at[ctx.int(f"b{k}", lo=0, hi=n - 1)]
        o = Orbit(a, b, ctx.choice(f"R{k}", [(0, 0, 0), (1, 0, 0), (0, 1, 0)]), rows(ctx.mat(f"M{k}")))
        if (a is b and o.R == (0, 0, 0)) or any((o.a is p.a and o.b is p.b and o.R == p.R) or (o.a is p.b and o.b is p.a and o.R == neg3(p.R)) for p in os):
            continue
        os.append(o)
        put(h, o, "fwd")
    on = [(a, rows(ctx.mat(f"A{i}"))) for i, a in enumerate(at) if ctx.bool(f"on{i}")]
    for a, A in on:
        h.add_on_site(a, matrix=A)
    kw = options(ctx, ctx.choice("use", USES))
    exp = [bool(expected_bond(ctx, cell, o, kw)) for o in os]
    eon = [bool(expected_on_site(ctx, A, kw)) for _, A in on]
    g = h.filtered(**kw)
    h.filter(**kw)
    total(ctx, h, sum(exp) * (2 if dc else 1), "filter")
    total(ctx, g, sum(exp) * (2 if dc else 1), "copy that is filtered")
    for o, e in zip(os, exp):
        holds(ctx, h, o, bool(dc), o.M if e else None, "filter")
    ctx.ensure("on-site terms", [id(a) for a, _ in stored_on_site(h)] == [id(a) for (a, _), e in zip(on, eon) if e])
