"""C15: text model files are read with the units and forms they declare."""
from symx.run import Registry
from .common import *

REG = Registry()
REG.assumptions = ["unit constants are the CODATA-2018 values (relative 1e-9)", "scale factors are positive; the negative (volume) form is not claimed: its documented formula and its documented meaning differ",
                   "a number in the file is the real number that float() makes of it"]

BOHR = 0.529177210903            # Angstrom
# meV
ENERGY = {"m": 1.0, "e": 1000.0, "j": 1 / 1.602176634e-22, "k": 1.380649e-23 / 1.602176634e-22, "r": 13605.693122994}
ENERGY_WORDS = {"": 1.0, "meV": 1.0, "M": 1.0, "eV": ENERGY["e"], "E": ENERGY["e"], "J": ENERGY["j"], "joule": ENERGY["j"], "K": ENERGY["k"], "kelvin": ENERGY["k"],
                "Ry": ENERGY["r"], "rydberg": ENERGY["r"], "RY": ENERGY["r"]}
LENGTH_WORDS = {"": 1.0, "Angstrom": 1.0, "a": 1.0, "Bohr": BOHR, "B": BOHR, "bOHR": BOHR}


def line(ctx, *xs):
    return " ".join(x if isinstance(x, str) else ctx.token(x) for x in xs)


def write(ctx, sections, noise=0):
    sep = "=" * (10 + 7 * noise)
    out = [sep] if noise != 1 else []
    for s in sections:
        out += list(s) + [sep]
    if noise == 2:                       # comments, blank lines, indentation, tabs
        out = ["# a comment", ""] + [x for y in out for x in ("  " + y.replace(" ", " \t ") + "   # " + y, "", "   ", "#===========" + y)]
    f = ctx.scratch() + "/model.txt"
    with open(f, "w", encoding="utf-8") as fp:
        fp.write("\n".join(out) + ("\n" if noise else ""))
    return f


def cell_lines(ctx, head="Cell", cell=CELL, factor=None):
    return [head] + ([] if factor is None else [line(ctx, *factor)]) + [line(ctx, *r) for r in cell]


def atom_lines(ctx, n=1, head="Atoms", spin=(0.0, 0.0, 1.0)):
    return [head, "name r1 r2 r3 sx sy sz"] + [line(ctx, f"X{k + 1}", 0.125 * k, 0.25, 0.0, *spin) for k in range(n)]


def load(ctx, f):
    return ctx.world.txt.load_spinham_txt(f)


@REG.scenario("lengths", conc=12, budget=60, bound="one atom in the file (the reader treats rows independently)",
              variants=[dict(unit=u, factors=k) for u in LENGTH_WORDS for k in (0, 1, 3)])
def lengths(ctx, unit, factors):
    """cell = unit * scale * rows; positions relative, or absolute with the unit of the atoms section and the scale of the cell"""
    cell = sym_cell(ctx)
    s = [ctx.real(f"s{k}", lo=0.125, hi=8) if not ctx.symbolic else ctx.real(f"s{k}", pos=True) for k in range(factors)]
    S = [1.0] * 3 if factors == 0 else s * 3 if factors == 1 else s
    form = ctx.choice("form", ["relative", "absolute", "both"])
    atom_unit = ctx.choice("atom unit", ["", "Angstrom", "Bohr", "bohr"])
    r, x = ctx.vec("r"), ctx.vec("x")
    keys = {"relative": ["name", "r1", "r2", "r3"], "absolute": ["z", "name", "x", "y"], "both": ["x", "r3", "y", "r1", "z", "Name", "R2"]}[form]
    val = dict(name="Cr_1", r1=r[0], r2=r[1], r3=r[2], x=x[0], y=x[1], z=x[2])
    f = write(ctx, [cell_lines(ctx, ("cell " if factors else "CELL ") + unit, cell, s or None),
                    ["atoms " + atom_unit, " ".join(keys), line(ctx, *[val[k.lower()] for k in keys])]])
    h = load(ctx, f)
    want = [[LENGTH_WORDS[unit] * S[j] * cell[i][j] for j in range(3)] for i in range(3)]
    ctx.eq("lattice vectors", rows(h.cell), want)
    a, = h.atoms
    ctx.ensure("name", a.name == "Cr_1")
    if form == "absolute":
        k = BOHR if atom_unit.lower().startswith("b") else 1.0
        ctx.eq("absolute position", vecmat(list(a.position), want), [k * S[j] * x[j] for j in range(3)])
    else:
        ctx.eq("relative position", list(a.position), list(r))


@REG.scenario("spins, charges and g-factors", conc=30, bound="one or two atoms in the file",
              variants=[dict(keys=k) for k in ("", "sx sy sz", "sz sx sy", "sp st s", "s ST SP", "S", "sx sy sz sp st s", "s sx sy sz", "sx sy sz s g q", "q s", "g", "jx jy jz l extra", "lx ly lz l lp lt sx sy sz")])
def spins(ctx, keys):
    n = ctx.choice("n", [1, 2])
    missing = ctx.choice("missing", [None, "q", "g", "s"]) if n == 2 else None
    head = keys.split()
    cols = ["name", "r1", "r2", "r3"] + head
    data = []
    for k in range(n):
        d = {c.lower(): ctx.real(f"{c}{k}") for c in head}
        d.update(name=f"Fe{k}", r1=0.5, r2=0.25, r3=0.0)
        for c in list(d):
            if missing and k == 1 and c.startswith(missing):
                d[c] = "-"
        data.append(d)
    f = write(ctx, [cell_lines(ctx), ["Atoms", " ".join(cols)] + [line(ctx, *[d[c.lower()] for c in cols]) for d in data]])
    h = load(ctx, f)
    ctx.ensure("names in order", [a.name for a in h.atoms] == [d["name"] for d in data])
    for a, d in zip(h.atoms, data):
        d = {k: v for k, v in d.items() if not isinstance(v, str)}
        ctx.eq("charge", a.charge, d.get("q", 0))
        ctx.eq("g-factor", a.g_factor, d.get("g", 2))
        if "sx" in d:
            want = [d["sx"], d["sy"], d["sz"]]
        elif "sp" in d:
            t, p = d["st"] * (PI / 180), d["sp"] * (PI / 180)
            want = [d["s"] * ctx.sin(t) * ctx.cos(p), d["s"] * ctx.sin(t) * ctx.sin(p), d["s"] * ctx.cos(t)]
        elif "s" in d:
            want = [0, 0, d["s"]]
        else:
            want = [0, 0, 0]
        ctx.eq("spin vector", list(a.spin_vector), want)


PI = 3.141592653589793
PARTS = [p for p in (("matrix",), ("iso",), ("dmi",), ("symm",), ("iso", "dmi"), ("symm", "iso"), ("dmi", "symm"), ("iso", "dmi", "symm"), ("matrix", "iso"), ("dmi", "matrix"),
                     ("symm", "matrix"), ("iso", "matrix", "dmi", "symm"))]
WORDS = {"iso": ("Isotropic", "i", "ISO"), "dmi": ("DMI", "d", "Dmi"), "symm": ("Symmetric-anisotropy", "s", "SYM"), "matrix": ("Matrix", "m", "MATRIX")}


def bond_lines(ctx, parts, tag, style=0):
    """(lines, value without units)"""
    out, M = [], None
    v = {}
    for p in parts:
        if p == "iso":
            v[p] = ctx.real(f"J{tag}")
            out.append(line(ctx, WORDS[p][style], v[p]))
        elif p == "dmi":
            v[p] = ctx.vec(f"D{tag}")
            out.append(line(ctx, WORDS[p][style], *v[p]))
        elif p == "symm":
            v[p] = [ctx.real(f"S{tag}_{k}") for k in range(5)]
            out.append(line(ctx, WORDS[p][style], *v[p]))
        else:
            v[p] = rows(ctx.mat(f"M{tag}"))
            out += [WORDS[p][style]] + [line(ctx, *r) for r in v[p]]
    M = v.get("matrix", ZERO)
    iso, dmi, an = iso_of(M), dmi_of(M), aniso_of(M)
    if "iso" in v:
        iso = v["iso"]
    if "dmi" in v:
        dmi = v["dmi"]
    if "symm" in v:
        xx, yy, xy, xz, yz = v["symm"]
        an = [[xx, xy, xz], [xy, yy, yz], [xz, yz, -xx - yy]]
    return out, addm(addm(scale(iso, ID), dmi_matrix(dmi)), an)


@REG.scenario("exchange energies", conc=8, budget=60, bound="one or two bonds between two atoms", thorough_variants=[dict(unit=u, parts=p) for u in ENERGY_WORDS for p in PARTS],
              variants=[dict(unit=u, parts=("matrix",)) for u in ENERGY_WORDS] + [dict(unit="Ry" if k % 2 else "K", parts=p) for k, p in enumerate(PARTS)] + [dict(unit=u, parts=("iso", "dmi", "symm")) for u in ("J", "eV", "")])
def exchange(ctx, unit, parts):
    style = ctx.choice("style", [0, 1, 2])
    names = ctx.choice("atoms", [("X1", "X2"), ("X2", "X1"), ("X2", "X2")])
    R = ctx.ivec("R")
    if names[0] == names[1]:
        ctx.assume(ctx.neg(ctx.same(R, (0, 0, 0))))
    text, M = bond_lines(ctx, parts, 0, style)
    dash = "-" * (10 + style)
    first = [dash] if style != 1 else []
    last = [dash] if style != 2 else []
    f = write(ctx, [cell_lines(ctx), atom_lines(ctx, 2), ["Notation", "double-counting false", "spin-normalized no", "exchange-factor 0.5"],
                    ["Exchange " + unit] + first + [line(ctx, *names, *R)] + text + last])
    h = load(ctx, f)
    ex = stored(h)
    ctx.ensure("one bond", len(ex) == 1, detail=len(ex))
    for a, b, S, m in ex:
        ctx.ensure("atoms of the bond", (a.name, b.name) == names)
        ctx.ensure("lattice vector of the bond", ctx.same(tuple(S), tuple(R)))
        ctx.eq("matrix of the bond", m, scale(ENERGY_WORDS[unit], M))


@REG.scenario("several bonds", conc=20, bound="three bonds", budget=60)
def several(ctx):
    """every bond of the section is read, each with its own value"""
    pick = [ctx.choice(f"parts{k}", [("matrix",), ("iso",), ("iso", "dmi", "symm")] if k == 0 else [("iso",), ("dmi",)]) for k in range(3)]
    keys = [("X1", "X2", (0, 0, 0)), ("X1", "X1", (1, 0, 0)), ("X2", "X1", (0, -2, 3))]
    body, want = [], []
    for k in range(3):
        t, M = bond_lines(ctx, pick[k], k)
        body += ["-" * 12, line(ctx, keys[k][0], keys[k][1], *keys[k][2])] + t
        want.append(M)
    f = write(ctx, [cell_lines(ctx), atom_lines(ctx, 2), ["Notation", "double-counting f", "spin-normalized t", "exchange-factor -1"], ["Exchange"] + body + ["-" * 10]])
    ex = stored(load(ctx, f))
    ctx.ensure("number of bonds", len(ex) == 3)
    for key, M in zip(keys, want):
        found = [e for e in ex if (e[0].name, e[1].name, tuple(e[2])) == key]
        ctx.ensure("bond is there once", len(found) == 1)
        for e in found:
            ctx.eq("matrix of the bond", e[3], M)


@REG.scenario("on-site energies", conc=20, variants=[dict(unit=u) for u in ENERGY_WORDS], bound="one or two terms")
def on_site(ctx, unit):
    n = ctx.choice("terms", [1, 2])
    first = ctx.choice("first", ["X1", "X2"])
    names = [first, "X2" if first == "X1" else "X1"][:n]
    A = [symm(ctx, f"A{k}") for k in range(n)]
    body = []
    for name, a in zip(names, A):
        body += ["-" * 10, name, line(ctx, a[0][0], a[1][1], a[2][2], a[0][1], a[0][2], a[1][2])]
    f = write(ctx, [cell_lines(ctx), atom_lines(ctx, 2), ["notation", "S true", "On-site 2"], ["on-site " + unit] + body + ["-" * 10]])
    h = load(ctx, f)
    got = stored_on_site(h)
    ctx.ensure("number of terms", len(got) == n)
    for name, a in zip(names, A):
        found = [m for x, m in got if x.name == name]
        ctx.ensure("term is there once", len(found) == 1)
        for m in found:
            ctx.eq("matrix of the term", m, scale(ENERGY_WORDS[unit], a))


@REG.scenario("notation", conc=30, bound="all boolean words in three cases")
def notation(ctx):
    yes, no = ["true", "t", "yes", "y", "1"], ["false", "f", "no", "n", "0"]
    style = ctx.choice("style", [str.lower, str.upper, str.capitalize])
    dc, sn = ctx.choice("dc", yes + no), ctx.choice("sn", ["true", "Y", "0", "No"])
    fe, fo = ctx.real("fe", nonzero=True), ctx.real("fo", nonzero=True)
    rows_ = [line(ctx, style("double-counting"), style(dc)), line(ctx, style("spin-normalized"), sn), line(ctx, style("exchange-factor"), fe), line(ctx, style("on-site-factor"), fo)]
    rows_ = [rows_[k] for k in ctx.choice("order", [(0, 1, 2, 3), (3, 1, 0, 2), (2, 3, 1, 0)])]
    f = write(ctx, [cell_lines(ctx), atom_lines(ctx, 1), [style("notation")] + rows_, [style("exchange"), "-" * 10, "X1 X1 1 0 0", "I 1"], [style("on-site"), "-" * 10, "X1", "1 2 3 4 5 6"]])
    h = load(ctx, f)
    ctx.ensure("double counting", h.double_counting == (dc in yes))
    ctx.ensure("spin normalisation", h.spin_normalized == (sn in ("true", "Y")))
    ctx.eq("exchange factor", h.exchange_factor, fe)
    ctx.eq("on-site factor", h.on_site_factor, fo)
    ex = stored(h)
    ctx.ensure("stored orientations", sorted(e[2] for e in ex) == ([(-1, 0, 0), (1, 0, 0)] if dc in yes else [(1, 0, 0)]))
    for e in ex:
        ctx.eq("value of the bond", e[3], ID)


@REG.scenario("cone axis", conc=30, variants=[dict(form=k, unit=u) for k in ("vector", "angles") for u in ("", "relative", "R", "Absolute", "a")], budget=60)
def cone_axis(ctx, form, unit):
    cell = sym_cell(ctx)
    k = ctx.choice("cell unit", ["", "Bohr"])
    n = nonzero_vec(ctx, "n") if form == "vector" else [ctx.real("alpha"), ctx.real("beta")]
    f = write(ctx, [cell_lines(ctx, "Cell " + k, cell), atom_lines(ctx, 1), ["Cone-axis " + unit, line(ctx, *n)]])
    if form == "vector":
        v = n if unit.lower().startswith("a") else vecmat(n, cell)
        ctx.assume(ctx.either(*[c for x in v for c in (x >= 2.0 ** -6, x <= -2.0 ** -6)]))
        ctx.assume(dot(v, v) >= 2.0 ** -12)                # (follows)
        h = load(ctx, f)
        ctx.eq("cone axis", list(h.cone_axis), unit_of(ctx, v))
    else:
        h = load(ctx, f)
        a, b = n[0] * (PI / 180), n[1] * (PI / 180)
        ctx.eq("cone axis", list(h.cone_axis), [ctx.cos(b) * ctx.sin(a), ctx.sin(b) * ctx.sin(a), ctx.cos(a)])


def unit_of(ctx, v):
    r = ctx.sqrt(dot(v, v))
    return [x / r for x in v]


@REG.scenario("spiral vector", conc=30, variants=[dict(unit=u, cell_unit=k) for u in ("", "relative", "R", "Absolute", "a") for k in ("", "Bohr")], budget=60)
def spiral(ctx, unit, cell_unit):
    cell = sym_cell(ctx)
    s = ctx.choice("scale", [None, 2.0])
    q = ctx.vec("q")
    f = write(ctx, [cell_lines(ctx, "Cell " + cell_unit, cell, None if s is None else [s]), atom_lines(ctx, 1), ["Spiral-vector " + unit, line(ctx, *q)]])
    h = load(ctx, f)
    if unit.lower().startswith("a"):
        # lengths in the unit of the cell section
        k = LENGTH_WORDS[cell_unit]
        ctx.eq("absolute spiral vector", [k * x for x in vecmat(list(h.spiral_vector), rows(h.reciprocal_cell))], list(q))
        # q . a_i = 2 pi q_i; wulfric's reciprocal cell has the opposite sign for left-handed cells
        if bool(dot(cell[0], cross(cell[1], cell[2])) > 0):
            c = s or 1.0
            ctx.eq("relative spiral vector", [x * (2 * PI) for x in h.spiral_vector], [c * dot(q, cell[i]) for i in range(3)])
    else:
        ctx.eq("spiral vector", list(h.spiral_vector), list(q))


@REG.scenario("comments, blank lines, order of sections", conc=20)
def noise(ctx):
    w = ctx.world
    cell = sym_cell(ctx)
    J, A = ctx.real("J"), symm(ctx, "A")
    q = ctx.vec("q")
    sec = [cell_lines(ctx, "Cell", cell), atom_lines(ctx, 2), ["Notation", "double-counting False", "spin-normalized False", "exchange-factor 1", "on-site-factor 2"],
           ["Exchange", "-" * 10, "X1 X2 0 1 0", line(ctx, "Isotropic", J), "-" * 10],
           ["On-site", "-" * 10, "X2", line(ctx, A[0][0], A[1][1], A[2][2], A[0][1], A[0][2], A[1][2]), "-" * 10], ["Spiral-vector", line(ctx, *q)], ["Unknown thing", "1 2 3"]]
    sec = [sec[k] for k in ctx.choice("order", [(0, 1, 2, 3, 4, 5), (5, 4, 3, 2, 1, 0), (3, 0, 2, 4, 1, 5, 6)])]
    f = write(ctx, sec, ctx.choice("noise", [0, 1, 2]))
    if ctx.bool("filtered"):
        import os
        first = w.txt.load_spinham_txt(f, save_filtered=True)
        ctx.eq("cell with the filtered copy", rows(first.cell), rows(cell))
        g = os.path.join(os.path.dirname(f), "filtered_" + os.path.basename(f))
        ctx.ensure("filtered copy is written next to the file", os.path.exists(g))
        with open(g, encoding="utf-8") as fp:
            body = fp.read().split("\n")
        ctx.ensure("filtered copy has neither comments nor blank lines", not any("#" in x or not x.strip() for x in body))
        f = g
    h = load(ctx, f)
    ctx.eq("cell", rows(h.cell), rows(cell))
    ctx.ensure("atoms", [a.name for a in h.atoms] == ["X1", "X2"])
    ctx.eq("bonds", [(R, m) for _, _, R, m in stored(h)], [((0, 1, 0), scale(J, ID))])
    ctx.ensure("atoms of the bond", [(a.name, b.name) for a, b, _, _ in stored(h)] == [("X1", "X2")])
    ctx.eq("on-site", [m for _, m in stored_on_site(h)], [A])
    ctx.ensure("atom of the on-site term", [a.name for a, _ in stored_on_site(h)] == ["X2"])
    ctx.eq("spiral vector", list(h.spiral_vector), list(q))


@REG.scenario("unit constants", sym=False, conc=1, bound="exact comparison of constants")
def constants(ctx):
    w = ctx.world
    ctx.eq("electron-Volt", w.si.ELECTRON_VOLT * 1e19, 1.602176634, tol=1e-9)
    ctx.eq("Bohr radius", w.si.BOHR_RADIUS * 1e11, 5.29177210903, tol=1e-9)
    ctx.eq("Bohr magneton", w.si.BOHR_MAGNETON * 1e24, 9.2740100783, tol=1e-9)
    ctx.eq("Boltzmann constant", w.si.K_BOLTZMANN * 1e23, 1.380649, tol=1e-9)
    ctx.eq("Rydberg energy", w.si.RYDBERG_ENERGY * 1e18, 2.1798723611035, tol=1e-9)
    ctx.eq("meV", w.inside.ENERGY * 1e22, 1.602176634, tol=1e-9)
    ctx.eq("Angstrom", w.inside.LENGTH * 1e10, 1.0, tol=1e-9)
