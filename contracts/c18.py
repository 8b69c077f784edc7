"""C18: a TB2J result is read into the Hamiltonian it describes."""
from symx.run import Registry
from .common import *

REG = Registry()
REG.assumptions = ["bonds of the file are given once, or in both orientations with consistent values; atom names are unique"]
MAJOR, MINOR = "=" * 90, "-" * 88
NAMES = ["Cr1", "Cr2", "I1", "Te12"]


def word(ctx, x):
    return x if isinstance(x, str) else ctx.token(x)


def words(ctx, *xs):
    return "  ".join(word(ctx, x) for x in xs)


def bond_text(ctx, b, style):
    """b: (name1, name2, R, {iso, ani, dmi}, distance)"""
    n1, n2, R, v, d = b
    iso = v.get("iso", 0.0)
    out = [f"   {n1}   {n2}   ( {word(ctx, R[0])},  {word(ctx, R[1])},   {word(ctx, R[2])}) {word(ctx, iso)}     ({word(ctx, 1.5)},  {word(ctx, -2.25)},  {word(ctx, 0.125)}) {word(ctx, d)}"]
    part = {"iso": [f"J_iso: {word(ctx, v['iso'])} "] if "iso" in v else [],
            "dmi": [f"DMI: ( {word(ctx, v['dmi'][0])} {word(ctx, v['dmi'][1])}  {word(ctx, v['dmi'][2])})"] if "dmi" in v else [],
            "ani": ["J_ani:"] + [("[[", " [", " [")[k] + " ".join(word(ctx, x) for x in v["ani"][k]) + ("]", "]", "]]")[k] for k in range(3)] if "ani" in v else []}
    for p in (("iso", "dmi", "ani"), ("iso", "ani", "dmi"), ("dmi", "iso", "ani"))[style]:
        if p == "dmi" and style == 1 and v:
            out += ["[Testing!] Jprime:  1.000,  0.250 "]
        out += part[p]
    return out


def tb2j(ctx, cell, atoms, bonds, style=0):
    out = [MAJOR, "Information: ", "Exchange parameters generated by TB2J.", MAJOR] if style != 1 else []
    out += ["Cell (Angstrom):"] + [words(ctx, *r) for r in cell] + ["", MAJOR][style == 2:]
    out += ["Atoms:  ", "(Note: charge and magmoms only count the wannier functions.)", " Atom_number    x          y           z      w_charge     M(x)   M(y)  M(z)"]
    for a in atoms:
        out.append(words(ctx, a["name"], *a["pos"], *([a["charge"]] if "charge" in a else []), *a.get("magmom", [])))
    out += ["Total  " + words(ctx, 12.0, 0.5, 0.0, 0.25), MAJOR]
    if style == 2:
        out += ["Orbitals used in decomposition: ", "The name of the orbitals are shown here.", "Cr1 : ('dz2', 'dxz')", MAJOR]
    out += ["Exchange: ", "    i      j          R        J_iso(meV)          vector          distance(A) "]
    for b in bonds:
        out += [MINOR] + bond_text(ctx, b, style)
    f = ctx.scratch() + "/exchange.out"
    with open(f, "w") as fp:
        fp.write("\n".join(out) + "\n" * (style % 2) + "\n" * (style == 2) * 3)
    return f


def parts(ctx, which, tag):
    v = {}
    if "i" in which:
        v["iso"] = ctx.real(f"J{tag}")
    if "a" in which:
        v["ani"] = rows(ctx.mat(f"A{tag}"))
    if "d" in which:
        v["dmi"] = list(ctx.vec(f"D{tag}"))
    return v


def value(v):
    return addm(addm(scale(v.get("iso", 0), ID), v.get("ani", ZERO)), dmi_matrix(v.get("dmi", [0, 0, 0])))


def make_atoms(ctx, n, columns=8):
    out = []
    for k in range(n):
        a = dict(name=NAMES[k] if k < len(NAMES) else f"Mn{k}", pos=list(ctx.vec(f"p{k}")))
        if columns >= 5:
            a["charge"] = ctx.real(f"q{k}")
        if columns == 8:
            a["magmom"] = list(ctx.vec(f"m{k}"))
        out.append(a)
    return out


def load(ctx, f):
    if ctx.bool("not quiet"):
        import contextlib, io
        with contextlib.redirect_stdout(io.StringIO()):
            return ctx.world.tb2j.load_tb2j(f, quiet=False)
    return ctx.world.tb2j.load_tb2j(f)


def check_atoms(ctx, h, cell, atoms):
    ctx.eq("cell", rows(h.cell), cell)
    ctx.ensure("names and order of the atoms", [a.name for a in h.atoms] == [a["name"] for a in atoms], detail=str([a.name for a in h.atoms]))
    for a, d in zip(h.atoms, atoms):
        ctx.eq("absolute position", vecmat(list(a.position), cell), d["pos"])
        if "charge" in d:
            ctx.eq("charge", a.charge, d["charge"])
        ctx.eq("magnetic moment", list(a.magmom), d.get("magmom", [0, 0, 0]))
    ctx.ensure("magnetic atoms can be ordered", len({a.index for a in h.atoms}) == len(atoms))


def check_notation(ctx, h):
    ctx.ensure("TB2J notation", h.double_counting is True and h.spin_normalized is True)
    ctx.eq("TB2J exchange factor", h.exchange_factor, -1)


def check_bonds(ctx, h, bonds):
    ex = stored(h)
    ctx.ensure("number of interactions", len(ex) == 2 * len(bonds), detail=f"{len(ex)} for {len(bonds)}")
    for n1, n2, R, v, _ in bonds:
        for x, y, S, M in ((n1, n2, tuple(R), value(v)), (n2, n1, neg3(R), tr(value(v)))):
            found = [m for a, b, Q, m in ex if a.name == x and b.name == y and bool(ctx.same(tuple(Q), S))]
            ctx.ensure("listed bond is there once", len(found) == 1)
            for m in found:
                ctx.eq("matrix of the bond", m, M)
    ctx.ensure("no on-site terms", len(stored_on_site(h)) == 0)


@REG.scenario("cell and atoms", conc=20, budget=90, bound="one to three atoms", variants=[dict(n=n, columns=c) for n in (1, 2, 3) for c in (8, 5, 4)])
def cell_atoms(ctx, n, columns):
    cell = sym_cell(ctx)
    atoms = make_atoms(ctx, n, columns)
    b = (NAMES[0], NAMES[n - 1], (1, 0, 0), {"iso": 1.5}, 2.5)
    f = tb2j(ctx, cell, atoms, [b], {8: 0, 5: 1, 4: 2}[columns] if n == 3 else ctx.choice("style", [0, 1, 2]))
    h = ctx.world.tb2j.load_tb2j(f)
    check_atoms(ctx, h, cell, atoms)
    check_notation(ctx, h)
    check_bonds(ctx, h, [b])


@REG.scenario("one bond", conc=20, budget=60, bound="one bond between two of three atoms", variants=[dict(which=w) for w in ("i", "ia", "id", "iad", "a", "d", "ad", "")])
def one_bond(ctx, which):
    """any lattice vector, any values; entries that are missing are zero"""
    n1, n2 = ctx.choice("atoms", [("Cr1", "Cr2"), ("Cr2", "Cr1"), ("I1", "I1"), ("Cr1", "I1")])
    R = ctx.ivec("R")
    if n1 == n2:
        ctx.assume(ctx.neg(ctx.same(R, (0, 0, 0))))
    b = (n1, n2, R, parts(ctx, which, 0), ctx.real("distance"))
    f = tb2j(ctx, CELL, make_atoms(ctx, 3), [b], ctx.choice("style", [0, 1, 2]))
    h = load(ctx, f)
    check_notation(ctx, h)
    check_bonds(ctx, h, [b])


@REG.scenario("several bonds", conc=30, budget=90, bound="three bonds", variants=[dict(which=w) for w in (("i", "iad", "d"), ("iad", "i", "a"), ("ad", "", "iad"), ("iad", "iad", "iad"))])
def several(ctx, which):
    """no bond is skipped, read twice or mixed up with its neighbour in the file"""
    ends = ctx.choice("atoms", [(("Cr1", "Cr2"), ("Cr1", "Cr1"), ("Cr2", "I1")), (("I1", "Cr1"), ("I1", "Cr1"), ("Cr2", "Cr2")), (("Cr1", "Cr2"), ("Cr2", "Cr1"), ("I1", "Cr2"))])
    bonds = []
    Rs = ctx.choice("lattice vectors", [((1, 0, 0), (0, -1, 2), (0, 3, 0)), ((0, 0, 0), (0, 0, 12), (-1, 3, 0)), ((-10, 2, 0), (10, 1, 0), (1, 0, 0))])
    for k in range(3):
        R = Rs[k]
        n1, n2 = ends[k]
        bonds.append((n1, n2, R, parts(ctx, which[k], k), 3.5))
    f = tb2j(ctx, CELL, [dict(name=x, pos=[0.125 * k, 0.5, 0.0], charge=1.0, magmom=[0.0, 0.0, 1.0]) for k, x in enumerate(NAMES[:3])], bonds, ctx.choice("style", [0, 1, 2]))
    check_bonds(ctx, ctx.world.tb2j.load_tb2j(f), bonds)


@REG.scenario("both orientations of a bond", conc=20, bound="one interaction, listed twice as TB2J does")
def both(ctx):
    R = ctx.ivec("R")
    v = parts(ctx, "iad", 0)
    w = dict(v, dmi=[-x for x in v["dmi"]], ani=tr(v["ani"]))
    b, c = ("Cr1", "Cr2", R, v, 3.5), ("Cr2", "Cr1", neg3(R), w, 3.5)
    f = tb2j(ctx, CELL, make_atoms(ctx, 2), [b, c] if ctx.bool("order") else [c, b], ctx.choice("style", [0, 1, 2]))
    check_bonds(ctx, load(ctx, f), [b])


@REG.scenario("files of any size", sym=False, conc=40, conc_thorough=1500, bound="run-time check: up to 14 atoms and 40 bonds")
def large(ctx):
    cell = sym_cell(ctx)
    n = ctx.choice("n", [1, 2, 5, 11, 14])
    atoms = make_atoms(ctx, n, ctx.choice("columns", [8, 5, 4]))
    bonds = []
    far = reach(ctx)
    for k in range(ctx.int("bonds", lo=1, hi=40)):
        i, j = ctx.int(f"i{k}", lo=0, hi=n - 1), ctx.int(f"j{k}", lo=0, hi=n - 1)
        R = ctx.ivec(f"R{k}", lo=-3 if far == 12 else -far, hi=far)
        a, b = atoms[i]["name"], atoms[j]["name"]
        if (a == b and R == (0, 0, 0)) or any((x, y, Q) in ((a, b, R), (b, a, neg3(R))) for x, y, Q, _, _ in bonds):
            continue
        bonds.append((a, b, R, parts(ctx, ctx.choice(f"w{k}", ["i", "iad", "ia", "d"]), k), 1.25))
    ctx.assume(len(bonds) > 0)
    h = load(ctx, tb2j(ctx, cell, atoms, bonds, ctx.choice("style", [0, 1, 2])))
    check_atoms(ctx, h, cell, atoms)
    check_notation(ctx, h)
    check_bonds(ctx, h, bonds)
