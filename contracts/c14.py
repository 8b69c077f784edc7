"""C14: a Hamiltonian survives writing to and reading from the text format."""
from symx.run import Registry
from .common import *
from .c06 import full_view, same_view

REG = Registry()
REG.assumptions = ["atom names are unique, on-site matrices symmetric, spins defined (the format stores nothing else)",
                   "a number printed with n digits is the value plus a rounding error of at most half of the last digit (contracts on directions: all digits)"]
BOUND = "up to two atoms, two interactions, two on-site terms; all values, lattice vectors and notations"

FORMS = {"matrix": dict(), "parts": dict(write_matrix=False, write_iso=True, write_dmi=True, write_symm=True),
         "all": dict(write_iso=True, write_dmi=True, write_symm=True), "matrix+iso": dict(write_iso=True), "matrix+dmi": dict(write_dmi=True),
         "matrix+symm": dict(write_symm=True), "matrix+distance": dict(write_distance=True)}
TOL = {"matrix": 5e-5, "matrix+distance": 5e-5}


def matrix_tol(form):
    """isotropic, antisymmetric and symmetric parts are printed with four digits each"""
    return TOL.get(form, 3e-4)


def compare(ctx, h, g, form="matrix", tol_spin=5e-5, tol_axis=1e-7):
    ctx.eq("cell", rows(g.cell), rows(h.cell), atol=5e-9)
    ctx.ensure("names and order of atoms", [a.name for a in g.atoms] == [a.name for a in h.atoms])
    for a, b in zip(h.atoms, g.atoms):
        ctx.eq("position", list(b.position), list(a.position), atol=5e-9)
        ctx.eq("spin", list(b.spin_vector), list(a.spin_vector), atol=tol_spin)
    ex, ons = stored(h), stored_on_site(h)
    if ex or ons:
        ctx.ensure("spin normalisation", g.spin_normalized is h.spin_normalized or g.spin_normalized == h.spin_normalized)
    if ex:
        ctx.ensure("double counting", g.double_counting == h.double_counting)
        ctx.eq("exchange factor", g.exchange_factor, h.exchange_factor)
    if ons:
        ctx.eq("on-site factor", g.on_site_factor, h.on_site_factor)
    ex2, ons2 = stored(g), stored_on_site(g)
    ctx.ensure("number of bonds", len(ex2) == len(ex), detail=f"{len(ex2)} for {len(ex)}")
    for a, b, R, M in ex:
        found = [m for x, y, S, m in ex2 if x.name == a.name and y.name == b.name and bool(ctx.same(tuple(S), tuple(R)))]
        ctx.ensure("bond is there once", len(found) == 1)
        if found:
            ctx.eq("matrix of the bond", found[0], M, atol=matrix_tol(form))
    ctx.ensure("number of on-site terms", len(ons2) == len(ons))
    for a, M in ons:
        found = [m for x, m in ons2 if x.name == a.name]
        ctx.ensure("on-site term is there once", len(found) == 1)
        if found:
            ctx.eq("matrix of the on-site term", found[0], M, atol=5e-5)
    if h.cone_axis is None:
        ctx.ensure("no cone axis", g.cone_axis is None)
    else:
        ctx.ensure("cone axis", g.cone_axis is not None)
        if g.cone_axis is not None:
            ctx.eq("cone axis", list(g.cone_axis), list(h.cone_axis), atol=tol_axis)
    if h.spiral_vector is None:
        ctx.ensure("no spiral vector", g.spiral_vector is None)
    else:
        ctx.ensure("spiral vector", g.spiral_vector is not None)
        if g.spiral_vector is not None:
            ctx.eq("spiral vector", list(g.spiral_vector), list(h.spiral_vector), atol=5e-9)


def round_trip(ctx, h, **opts):
    """through the file, checking that writing leaves the Hamiltonian as it was"""
    w = ctx.world
    before, n0 = full_view(h), [notation_entry(h, k) for k in ENTRIES]
    ax = None if h.cone_axis is None else list(h.cone_axis)
    q = None if h.spiral_vector is None else list(h.spiral_vector)
    f = ctx.scratch() + "/model.txt"
    w.txt.dump_spinham_txt(h, filename=f, **opts)
    g = w.io.load_spinham(f) if ctx.bool("via io") else w.txt.load_spinham_txt(f)
    same_view(ctx, full_view(h), before, "writing leaves the Hamiltonian")
    ctx.eq("writing leaves the notation", [notation_entry(h, k) for k in ENTRIES], n0)
    ctx.ensure("writing leaves the vectors", (h.cone_axis is None) == (ax is None) and (h.spiral_vector is None) == (q is None))
    if ax is not None:
        ctx.eq("writing leaves the cone axis", list(h.cone_axis), ax)
    if q is not None:
        ctx.eq("writing leaves the spiral vector", list(h.spiral_vector), q)
    return g


ENTRIES = ("double_counting", "spin_normalized", "exchange_factor", "on_site_factor")


def notation_entry(h, k):
    try:
        return getattr(h, k)
    except Exception:
        return "undefined"


@REG.scenario("bonds and on-site terms", bound=BOUND, conc=15, budget=60,
              variants=[dict(form=f, dc=d, sn=s, sites=x) for f in FORMS for d, s, x in ((True, False, ("ab",)), (False, True, ("ab", "aa")))]
              + [dict(form="matrix", dc=True, sn=True, sites=("aa", "ba")), dict(form="parts", dc=False, sn=False, sites=("ba", "bb")),
                                                                                            dict(form="matrix", dc=True, sn=True, sites=("ab", "bb"), naming="same index"), dict(form="parts", dc=False, sn=False, sites=("ba",), naming="reversed")])
def bonds(ctx, form, dc, sn, sites, naming="distinct"):
    at = make_atoms(ctx, 2, naming, spin="vector")
    h = make_ham(ctx, at, notation=(dc, sn, ctx.real("f", nonzero=True), ctx.real("fo", nonzero=True)), cell=rows(sym_cell(ctx)) if form != "matrix+distance" else None)
    os = [orbit(ctx, at, s, k) for k, s in enumerate(sites)]
    for k, o in enumerate(os):
        for p in os[:k]:
            different_orbits(ctx, p, o)
        put(h, o, "fwd")
    on = ctx.choice("on_site", [(), (0,), (1, 0)])
    for k in on:
        h.add_on_site(at[k], matrix=symm(ctx, f"A{k}"))
    g = round_trip(ctx, h, **FORMS[form])
    compare(ctx, h, g, form)


@REG.scenario("sections", bound=BOUND, conc=20, budget=60, variants=[dict(ex=e, on=o) for e in (False, True) for o in (False, True)])
def sections(ctx, ex, on):
    """any subset of the optional sections, any number of atoms without parameters, partially defined notation"""
    n = ctx.choice("n", [1, 2, 3])
    at = make_atoms(ctx, n, ctx.choice("naming", ["distinct", "reversed", "same index"]), spin="vector")
    h = make_ham(ctx, at, cell=rows(sym_cell(ctx)))
    if ex or on:
        h.spin_normalized = ctx.bool("sn")
    if ex:
        h.double_counting = ctx.bool("dc")
        h.exchange_factor = ctx.real("f", nonzero=True)
        put(h, orbit(ctx, at, "aa" if n == 1 else "ab", 0), "fwd")
    if on:
        h.on_site_factor = ctx.real("fo", nonzero=True)
        h.add_on_site(at[-1], matrix=symm(ctx, "A"))
    if ctx.bool("spiral"):
        h.spiral_vector = list(ctx.vec("q"))
    g = round_trip(ctx, h)
    compare(ctx, h, g)


@REG.scenario("directions", bound="one atom; printed numbers keep all digits", conc=40, budget=60, variants=[dict(what=w) for w in ("axis", "angles", "both")])
def directions(ctx, what):
    ctx.exact_text = True
    at = make_atoms(ctx, 1, spin="vector")
    ctx.assume(dot(at[0].spin_vector, at[0].spin_vector) <= 100)
    h = make_ham(ctx, at, cell=rows(sym_cell(ctx)))
    if what != "angles":
        v = nonzero_vec(ctx, "n")
        ctx.assume(dot(v, v) >= 2.0 ** -10)          # shorter than 1e-8 is refused as zero
        h.cone_axis = list(v)
    if what == "both":
        h.spiral_vector = list(ctx.vec("q"))
    g = round_trip(ctx, h, write_spin_angles=what != "axis")
    compare(ctx, h, g, tol_spin=7e-5)


@REG.scenario("special directions", bound="one atom with a spin along one of the axes, or zero", conc=40)
def special(ctx):
    ctx.exact_text = True
    s = ctx.real("S", pos=True, hi=10)
    d = ctx.choice("axis", [(0, 0, 1), (0, 0, -1), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 0)])
    a = ctx.world.Atom("Fe", ctx.vec("p"), spin=[x * s for x in d], index=1)
    h = make_ham(ctx, [a])
    g = round_trip(ctx, h, write_spin_angles=ctx.bool("angles"))
    compare(ctx, h, g, tol_spin=7e-5)


@REG.scenario("models of any size", sym=False, conc=40, conc_thorough=3000, bound="run-time check: up to 12 atoms and 15 bonds, every option")
def large(ctx):
    w = ctx.world
    n = ctx.choice("n", [1, 3, 6, 12])
    names = [f"{ctx.choice(f'el{i}', ['Fe', 'fe', 'X', '1a', 'Mn_2', 'i', 'd3', 'm', 's'])}{i}" for i in range(n)]
    at = [w.Atom(names[i], ctx.vec(f"p{i}"), spin=ctx.vec(f"S{i}"), index=i + 1) for i in range(n)]
    cell = sym_cell(ctx)
    h = make_ham(ctx, at, notation=(ctx.bool("dc"), ctx.bool("sn"), ctx.real("f", nonzero=True), ctx.real("fo", nonzero=True)), cell=rows(cell))
    far = reach(ctx)
    for k in range(ctx.int("bonds", lo=0, hi=15)):
        a, b, R = at[ctx.int(f"a{k}", lo=0, hi=n - 1)], at[ctx.int(f"b{k}", lo=0, hi=n - 1)], ctx.ivec(f"R{k}", lo=-far, hi=far)
        if (a is b and R == (0, 0, 0)) or (a, b, R) in h or (b, a, neg3(R)) in h:
            continue
        h.add_exchange(a, b, R, matrix=rows(ctx.mat(f"M{k}")) if ctx.bool(f"full{k}") else scale(ctx.real(f"c{k}", lo=-300, hi=300), ID))
    for k in range(ctx.int("sites", lo=0, hi=n)):
        h.add_on_site(at[k], matrix=symm(ctx, f"A{k}"))
    if ctx.bool("axis"):
        h.cone_axis = list(nonzero_vec(ctx, "n_"))
    if ctx.bool("spiral"):
        h.spiral_vector = list(ctx.vec("q"))
    form = ctx.choice("form", list(FORMS))
    g = round_trip(ctx, h, write_spin_angles=ctx.bool("angles"), **FORMS[form])
    compare(ctx, h, g, form, tol_spin=7e-5)


@REG.scenario("text without a file", bound="one interaction", conc=20)
def as_text(ctx):
    """the lines returned without a file name are those of the file"""
    ctx.exact_text = True
    w = ctx.world
    at = make_atoms(ctx, 2, spin="vector")
    h = make_ham(ctx, at, notation=(True, False, 0.5, 1.0))
    put(h, orbit(ctx, at, "ab", 0), "fwd")
    h.add_on_site(at[0], matrix=symm(ctx, "A"))
    text = w.txt.dump_spinham_txt(h, print_if_none=False)
    f = ctx.scratch() + "/model.txt"
    with open(f, "w", encoding="utf-8") as fp:
        fp.write("\n".join(text))
    g = w.txt.load_spinham_txt(f)
    compare(ctx, h, g)
