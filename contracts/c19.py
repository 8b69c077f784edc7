"""C19: the Vampire export describes the same Hamiltonian and leaves it intact."""
import math
import os

from symx.run import Registry
from .common import *
from .c06 import full_view, same_view
from .c14 import ENTRIES, notation_entry

REG = Registry()
REG.assumptions = ["1 meV = 1.602176634e-22 J", "the energy of a Vampire unit-cell file is  -1/2 sum over its lines of e_i M e_j  (e: unit spins of two atoms, every interaction listed in both directions)",
                   "materials are numbered 0, 1, ... without gaps; on-site terms are present only when no anisotropic exchange is dropped (what belongs to the on-site term is then not documented)"]
BOUND = "up to three atoms, two interactions and two on-site terms; all values, lattice vectors and notations"
MEV = 1.602176634e-22


def text_of(ctx, name, h, **opts):
    """returned as a string, or written to a file: the same text"""
    fn = getattr(ctx.world.vampire, name)
    if ctx.bool("to a file"):
        f = ctx.scratch() + "/out"
        out = fn(h, filename=f, **opts)
        ctx.ensure("nothing is returned with a filename", out is None)
        with open(f, encoding="utf-8") as fp:
            return fp.read()
    return fn(h, **opts)


def _float(ctx, w):
    return ctx.world.shim.float_(w) if ctx.symbolic else float(w)


def _int(ctx, w):
    return ctx.world.shim.int_(w) if ctx.symbolic else int(w)


def parse_ucf(ctx, text):
    lines = [l.split() for l in text.splitlines() if l.strip() and not l.lstrip().startswith("#")]
    lines = lines[::-1]
    d = dict(size=[_float(ctx, x) for x in lines.pop()])
    d["cell"] = [[_float(ctx, x) for x in lines.pop()] for _ in range(3)]
    n, m = (int(x) for x in lines.pop())
    d["n_materials"], d["atoms"] = m, []
    for _ in range(n):
        l = lines.pop()
        d["atoms"].append((int(l[0]), [_float(ctx, x) for x in l[1:4]], int(l[4]), len(l)))
    l = lines.pop()
    ctx.ensure("kind of the interactions", l[1:] == ["tensorial"])
    d["lines"] = []
    for _ in range(int(l[0])):
        l = lines.pop()
        x = [_float(ctx, w) for w in l[6:]]
        ctx.ensure("nine components of the tensor", len(x) == 9)
        d["lines"].append((int(l[0]), int(l[1]), int(l[2]), tuple(_int(ctx, w) for w in l[3:6]), [x[0:3], x[3:6], x[6:9]]))
    ctx.ensure("nothing after the last interaction", not lines)
    return d


def untouched(ctx, h, run):
    before, n0 = full_view(h), [notation_entry(h, k) for k in ENTRIES]
    out = run()
    same_view(ctx, full_view(h), before, "writing leaves the Hamiltonian")
    ctx.eq("writing leaves the notation", [notation_entry(h, k) for k in ENTRIES], n0)
    return out


def check_ucf(ctx, d, m, part=None, materials=None, tol=1e-5):
    """d: parsed file, m: model.  Vampire's energy of the lines is the energy of the model, term by term"""
    h, cell = m.h, rows(m.h.cell)
    ctx.eq("lattice vectors", d["cell"], cell, atol=6e-9)
    ctx.eq("size of the cell", d["size"], [ctx.norm(v) for v in cell], atol=6e-9)
    ctx.ensure("number of magnetic atoms", len(d["atoms"]) == len(m.mag), detail=len(d["atoms"]))
    want = list(range(len(m.mag))) if materials is None else materials
    ctx.ensure("number of materials", d["n_materials"] == len(set(want)))
    ctx.ensure("atoms are numbered", [a[0] for a in d["atoms"]] == list(range(len(m.mag))))
    for (_, p, mat, n), a, w in zip(d["atoms"], m.mag, want):
        ctx.eq("position of the atom", p, list(a.position), atol=6e-9)
        ctx.ensure("material of the atom", mat == w and n == 5)
    ctx.ensure("interactions are numbered", [l[0] for l in d["lines"]] == list(range(len(d["lines"]))))
    n = 0
    for k, (i, j, R, C) in enumerate(m.terms()):
        on_site = k >= len(m.os)
        if part is not None and not on_site:
            C = part(C)
        if on_site:
            places = [(i, i, R, scale(-2, C))]
        else:
            places = [(i, j, R, scale(-1, C)), (j, i, neg3(R), scale(-1, tr(C)))]
        n += len(places)
        for a, b, S, M in places:
            found = [l[4] for l in d["lines"] if (l[1], l[2]) == (a, b) and bool(ctx.same(tuple(l[3]), tuple(S)))]
            ctx.ensure("term is listed once", len(found) == 1, detail=len(found))
            for t in found:
                close(ctx, "tensor in Joule", [[x / MEV for x in r] for r in t], M, tol)
    ctx.ensure("nothing else is listed", len(d["lines"]) == n, detail=f"{len(d['lines'])} for {n}")


def close(ctx, label, a, b, tol):
    """component by component, to the printed relative precision"""
    if ctx.symbolic:
        ctx.eq(label, a, b)
        return
    ctx.ensure(label, all(abs(x - y) <= tol * abs(y) + 1e-13 for r, s in zip(a, b) for x, y in zip(r, s)), detail=f"{a} for {b}")


def model(ctx, n, dc, sn, sites, on, cell=None, naming="reversed", partial=False, **kw):
    at = make_atoms(ctx, n, naming, spin="vector", **kw)
    os = [orbit(ctx, at, s, k) for k, s in enumerate(sites)]
    return Model(ctx, at, dc, sn, os, {k: symm(ctx, f"A{k}") for k in on}, cell=cell, partial=partial)


NOTATIONS = [(True, False), (False, True), (False, False), (True, True)]


@REG.scenario("unit-cell file", bound=BOUND, conc=20, budget=60,
              variants=[dict(dc=d, sn=s, sites=x, on=o) for (d, s), x, o in zip(NOTATIONS * 2, (("ab", "aa"), ("ba",), ("ab", "ba"), ("aa",), (), ("cb", "ac"), ("bb",), ("ca", "ab")),
                                                                                ((0,), (1, 0), (), (0,), (0, 1), (2,), (), (1, 2)))])
def ucf(ctx, dc, sn, sites, on):
    ctx.exact_text = True
    n = 3 if any("c" in s for s in sites) or 2 in on else 2
    m = model(ctx, n, dc, sn, sites, on, cell=rows(sym_cell(ctx)), naming=ctx.choice("naming", ["distinct", "reversed"]))
    dec = ctx.choice("decimals", [5, 9])
    opts = {} if dec == 5 else dict(decimals=dec)
    text = untouched(ctx, m.h, lambda: text_of(ctx, "dump_ucf", m.h, nologo=ctx.bool("nologo"), **opts))
    check_ucf(ctx, parse_ucf(ctx, text), m, tol=10.0 ** -dec)


@REG.scenario("notation that is defined as far as the parameters need it", bound=BOUND, conc=15, budget=60, variants=[dict(sites=s, on=o) for s, o in ((("ab",), ()), (("aa", "ba"), ()), ((), (0,)))])
def partial(ctx, sites, on):
    ctx.exact_text = True
    m = model(ctx, 2, ctx.bool("dc"), ctx.bool("sn"), sites, on, cell=rows(sym_cell(ctx)), naming="distinct", partial=True)
    text = untouched(ctx, m.h, lambda: text_of(ctx, "dump_ucf", m.h, nologo=True))
    check_ucf(ctx, parse_ucf(ctx, text), m)


@REG.scenario("parts of the exchange", bound=BOUND, conc=20, budget=60, variants=[dict(drop=x, dc=d, sn=s) for x in ("dmi", "aniso", "both", "mask") for d, s in ((True, False), (False, True))])
def parts(ctx, drop, dc, sn):
    """the options remove exactly the antisymmetric part, or the traceless symmetric part, or apply the mask to the matrix"""
    ctx.exact_text = True
    m = model(ctx, 2, dc, sn, ("ab", "aa"), (0,) if drop == "dmi" else ())
    opts = {"dmi": dict(dmi=False), "aniso": dict(anisotropic=False), "both": dict(dmi=False, anisotropic=False), "mask": dict(custom_mask=lambda x: x.T * 3 - x)}[drop]
    part = {"dmi": lambda C: addm(scale(iso_of(C), ID), aniso_of(C)), "aniso": lambda C: addm(scale(iso_of(C), ID), dmi_matrix(dmi_of(C))),
            "both": lambda C: scale(iso_of(C), ID), "mask": lambda C: subm(scale(3, tr(C)), C)}[drop]
    text = untouched(ctx, m.h, lambda: text_of(ctx, "dump_ucf", m.h, nologo=True, **opts))
    check_ucf(ctx, parse_ucf(ctx, text), m, part=part)


@REG.scenario("printed precision", bound="one interaction", conc=10, budget=60, variants=[dict(dec=d) for d in (5, 3, 8)])
def precision(ctx, dec):
    """relative rounding of at most half of the last printed digit"""
    at = make_atoms(ctx, 2, spin="vector", pos=True)
    o = Orbit(at[0], at[1], ctx.ivec("R"), [[ctx.real("x"), 0.0, 0.0], [0.0, 2.5, 0.0], [0.0, 0.0, 0.0]])
    m = Model(ctx, at, True, True, [o], {}, cell=rows(sym_cell(ctx)), f=1.0, fo=1.0)
    d = parse_ucf(ctx, text_of(ctx, "dump_ucf", m.h, nologo=True, decimals=dec))
    x = o.M[0][0]
    got = d["lines"][0][4]
    e = 10.0 ** -dec * 0.51
    ctx.le("relative precision", (got[0][0] / MEV + 2 * x) * (got[0][0] / MEV + 2 * x), 4 * x * x * e * e)
    ctx.le("relative precision of a constant", abs(got[1][1] / MEV + 5), 5 * e)
    ctx.eq("lattice vectors", d["cell"], rows(m.h.cell), atol=6e-9)
    for (_, p, _, _), a in zip(d["atoms"], m.mag):
        ctx.eq("position of the atom", p, list(a.position), atol=6e-9)


@REG.scenario("materials", bound="three magnetic atoms", conc=10, budget=60, variants=[dict(which=x) for x in ((0, 0, 0), (0, 1, 0), (0, 1, 1), (1, 0, 1), (1, 0, 0), (0, 1, 2), (2, 0, 1), None)])
def materials(ctx, which):
    ctx.exact_text = True
    g = [ctx.real(f"g{k}", nonzero=True) for k in range(3)]
    m = model(ctx, 3, True, False, ("ab", "ca"), (1,), g_factor=g)
    mats = None if which is None else list(which)
    text = untouched(ctx, m.h, lambda: text_of(ctx, "dump_ucf", m.h, nologo=True, materials=mats))
    check_ucf(ctx, parse_ucf(ctx, text), m, materials=mats)
    ctx.ensure("list of materials is not changed", mats is None or mats == list(which))
    text = untouched(ctx, m.h, lambda: text_of(ctx, "dump_mat", m.h, materials=mats, nologo=ctx.bool("nologo")))
    check_mat(ctx, parse_mat(ctx, text), m, mats)


def parse_mat(ctx, text):
    d = {}
    for l in text.splitlines():
        l = l.split("!")[0].strip()
        if l and not l.startswith("#"):
            k, v = (x.strip() for x in l.split("=", 1))
            ctx.ensure("every line is given once", k not in d, detail=k)
            d[k] = v
    return d


def check_mat(ctx, d, m, mats=None):
    mats = list(range(len(m.mag))) if mats is None else mats
    ctx.ensure("number of materials", int(d["material:num-materials"]) == len(set(mats)), detail=d["material:num-materials"])
    numbers = sorted({k[k.index("[") + 1:k.index("]")] for k in d if "[" in k})
    ctx.ensure("every material is listed", numbers == sorted(str(x + 1) for x in set(mats)), detail=numbers)
    for x in sorted(set(mats)):
        a = m.mag[mats.index(x)]
        p = f"material[{x + 1}]:"
        ctx.ensure("name of the material", d[p + "material-name"] == a.name)
        ctx.ensure("element of the material", d[p + "material-element"] == a.type)
        S = list(a.spin_vector)
        mu = _float(ctx, d[p + "atomic-spin-moment"])
        ctx.le("moment is not negative", 0, mu)
        ctx.eq("moment of the material", mu * mu, a.g_factor * a.g_factor * dot(S, S))
        e = d[p + "initial-spin-direction"]
        e = [_float(ctx, w) for w in e.split(",")]
        n = ctx.norm(S)
        ctx.eq("direction of the material", [n * c for c in e], S, atol=6e-9 * (1 if ctx.symbolic else n))


@REG.scenario("material without a spin", bound="two atoms", conc=20)
def spinless(ctx):
    """zero spin: no moment, random direction"""
    ctx.exact_text = True
    w = ctx.world
    at = [w.Atom("A", [0, 0, 0], spin=[0, 0, 0], g_factor=ctx.real("g"), index=1), w.Atom("B", [0.5, 0, 0], spin=ctx.real("S", pos=True), index=2)]
    h = make_ham(ctx, at, notation=(True, True, 1.0, 1.0))
    h.add_exchange(at[0], at[1], (0, 0, 0), matrix=rows(ctx.mat("M")))
    d = parse_mat(ctx, text_of(ctx, "dump_mat", h, nologo=True))
    ctx.eq("moment of a zero spin", _float(ctx, d["material[1]:atomic-spin-moment"]), 0)
    ctx.ensure("direction of a zero spin", d["material[1]:initial-spin-direction"] == "random")
    ctx.ensure("two materials", d["material:num-materials"] == "2")
    ctx.eq("moment", _float(ctx, d["material[2]:atomic-spin-moment"]), 2 * at[1].spin)


@REG.scenario("three files", bound=BOUND, conc=20, budget=60, variants=[dict(drop=x, dc=d) for x in (False, True) for d in (False, True)])
def files(ctx, drop, dc):
    """dump_vampire writes both files with the same options, and names them in the input file"""
    ctx.exact_text = True
    m = model(ctx, 2, dc, ctx.bool("sn"), ("ab", "ba") if drop else ("ab",), () if drop else (0, 1))
    mats = ctx.choice("materials", [None, (0, 0), (1, 0)])
    mats = None if mats is None else list(mats)
    opts = dict(dmi=False, anisotropic=False, materials=mats, nologo=not dc, decimals=7) if drop else dict(materials=mats)
    d, here = ctx.scratch(), os.getcwd()
    seed = ctx.choice("seedname", [None, "seed.name"])
    os.chdir(d)
    try:
        untouched(ctx, m.h, lambda: ctx.world.vampire.dump_vampire(m.h, **({} if seed is None else dict(seedname=seed)), **opts))
    finally:
        os.chdir(here)
    seed = seed or "vampire"
    ctx.ensure("files", sorted(os.listdir(d)) == sorted(["input", seed + ".UCF", seed + ".mat"]), detail=os.listdir(d))
    read = lambda x: open(os.path.join(d, x), encoding="utf-8").read()
    check_ucf(ctx, parse_ucf(ctx, read(seed + ".UCF")), m, part=(lambda C: scale(iso_of(C), ID)) if drop else None, materials=mats)
    check_mat(ctx, parse_mat(ctx, read(seed + ".mat")), m, mats)
    text = [l.replace(" ", "") for l in read("input").splitlines()]
    ctx.ensure("input names the files", f"material:file={seed}.mat" in text and f"material:unit-cell-file={seed}.UCF" in text)


@REG.scenario("Hamiltonians of any size", sym=False, conc=40, conc_thorough=1500, bound="run-time check: up to three magnetic atoms, five interactions")
def large(ctx):
    at = make_atoms(ctx, 3, spin="vector", g_factor=[ctx.real(f"g{k}") for k in range(3)])
    sites = {k: symm(ctx, f"A{k}") for k in range(3) if ctx.bool(f"on{k}")}
    m = Model(ctx, at, ctx.bool("dc"), ctx.bool("sn"), random_orbits(ctx, at, 5), sites, cell=rows(sym_cell(ctx)))
    untouched(ctx, m.h, lambda: text_of(ctx, "dump_mat", m.h))
    check_ucf(ctx, parse_ucf(ctx, text_of(ctx, "dump_ucf", m.h, decimals=6)), m, tol=1e-6)
    check_mat(ctx, parse_mat(ctx, text_of(ctx, "dump_mat", m.h)), m)


@REG.scenario("long numbers", sym=False, conc=24, conc_thorough=800, bound="run-time check: up to 120 magnetic atoms, 130 interactions, numbers of any size")
def long_numbers(ctx):
    """columns stay apart and keep their digits, whatever the size of the numbers"""
    n, most = ctx.choice("n", [(2, 3), (12, 12), (120, 120)])
    far = reach(ctx)
    at = [ctx.world.Atom(f"Cr{k + 1}", wild(ctx, f"p{k % 7}" if n > 12 else f"p{k}", list(ctx.vec(f"p{k}"))) if n <= 12 else [k * math.pi, -k * math.pi * 7, k / 7], spin=[0.0, 0.5 + k, 1.0], index=k + 1) for k in range(n)]
    os = []
    for k in range(most):
        a, b = (at[k % n], at[(5 * k + 3) % n]) if ctx.bool(f"way{k % 9}") or k > 8 else (at[(k + 1) % n], at[-1 - k % n])
        R = ctx.ivec(f"R{k}", lo=-far, hi=far)
        if any((x.a is a and x.b is b and x.R == R) or (x.a is b and x.b is a and x.R == neg3(R)) for x in os) or (a is b and R == (0, 0, 0)):
            continue
        os.append(Orbit(a, b, R, wild(ctx, f"M{k}", rows(ctx.mat(f"M{k}"))) if n <= 12 else [[k + 1.0, 0.5, -k], [0.25, 2.0, 0.0], [k, 1.5, -3.0]]))
    ctx.assume(len(os) > 0)
    sites = {k: symm(ctx, f"A{k}") for k in range(min(n, 12)) if ctx.bool(f"on{k}")}
    m = Model(ctx, at, ctx.bool("dc"), ctx.bool("sn"), os, sites, cell=wild(ctx, "cell", rows(sym_cell(ctx))))
    check_ucf(ctx, parse_ucf(ctx, text_of(ctx, "dump_ucf", m.h, decimals=6)), m, tol=1e-6)
    check_mat(ctx, parse_mat(ctx, text_of(ctx, "dump_mat", m.h)), m)
