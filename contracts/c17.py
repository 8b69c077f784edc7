"""C17: malformed text model files are refused by the verification, well-formed ones are accepted."""
from symx.run import Registry
from .common import *
from .c15 import line, write

REG = Registry()
REG.assumptions = ["numbers are finite; a word is a number exactly when float() accepts it and an integer exactly when int() accepts it",
                   "a section and a bond are given once; stray lines with unknown keywords inside a bond and unknown notation entries are ignored by the format"]
BOUND = "files with up to three atoms, three bonds and two on-site terms; one fault per file, at any place"
NOT_NUMBERS = ["abc", "1.2.3", "--", "1,5", "0x1", "1e", "+", "1d0", "2/3"]
NOT_INTEGERS = ["0.5", "1.0", "one", "1e1", "-", "2.", "4/2"]
SEP, SUB = "=" * 10, "-" * 10


class File:
    """rows of words per section; blocks of rows for bonds and on-site terms; numbers are symbolic"""

    def __init__(self, ctx, form=0, only=None, plain=False):
        self.ctx, self.n, self.plain = ctx, 0, plain
        names = [["Fe1", "Fe2"], ["1", "x"], ["A", "a", "Zr_2"]][form]
        self.names = names
        self.cell = [["Cell"] + [[], ["Bohr"], ["ANGSTROM"]][form]] + ([], [[self.pos()]], [[self.pos(), self.pos(), self.pos()]])[form] + [list(r) for r in (CELL if form == 0 or plain else sym_cell(ctx))]
        self.keys = [["name", "r1", "r2", "r3"], ["x", "Sz", "sx", "y", "name", "z", "SY", "q"], ["g", "name", "r1", "r2", "r3", "x", "y", "z", "s", "sp", "st", "l", "colour"]][form]
        self.atoms = [["Atoms"] + [[], ["a"], ["Bohr"]][form], self.keys] + [[nm if k == "name" else self.num(1)[0] for k in self.keys] for nm in names]
        if form == 1:
            self.atoms[2][-1] = "-"
        if form == 2:
            self.atoms[3][2] = self.atoms[4][5] = self.atoms[4][8] = "-"
        self.notation = [["Notation"], ["double-counting", ["true", "N", "1"][form]], ["Spin-normalized", ["False", "y", "no"][form]], ["exchange-factor", self.nz()], ["ON-SITE", self.nz()]]
        a, b = names[0], names[-1]
        iso, dmi, sym, mat = [["Isotropic"] + self.num(1)], [["DMI"] + self.num(3)], [["symmetric"] + self.num(5)], [["Matrix"]] + [self.num(3) for _ in range(3)]
        self.bonds = [[[[a, b] + self.ints()] + mat], [[[b, a] + self.ints()] + iso, [[a, a] + self.ints()] + dmi + iso], [[[a, b] + self.ints()] + iso + mat + sym + dmi, [[b, b] + self.ints()] + sym, [[b, a] + self.ints()] + dmi]][form]
        self.sites = [[[[b], self.num(6)]], [[[a], self.num(6)], [[b], self.num(6)]], [[[a], self.num(6)]]][form]
        self.exchange, self.on_site = ["Exchange"] + [[], ["meV"], ["K"]][form], ["On-site"] + [["Ry"], [], ["j"]][form]
        self.cone = [["Cone-axis"] + [[], ["r"], ["Absolute"]][form]] + [[["1", "2", "0.5"], self.num(2), ["0", "0.25", "-3"]][form]]
        self.spiral = [["Spiral-vector"] + [["R"], ["a"], []][form], self.num(3)]
        self.order = [["cell", "atoms", "notation", "exchange", "on_site", "cone", "spiral"], ["exchange", "spiral", "notation", "atoms", "on_site", "cell", "cone"],
                      ["on_site", "cone", "notation", "spiral", "exchange", "atoms", "cell"]][form]
        if only is not None:
            self.order = [s for s in self.order if s in only]
        self.extra = []

    def _r(self, **kw):
        self.n += 1
        return 0.25 * self.n if self.plain else self.ctx.real(f"x{self.n}", **kw)

    def num(self, k):
        return [self._r() for _ in range(k)]

    def nz(self):
        return self._r(nonzero=True)

    def pos(self):
        return self._r(pos=True) if self.ctx.symbolic else self._r(lo=0.125, hi=8)

    def ints(self):
        self.n += 1
        return [self.n, 0, 1] if self.plain else list(self.ctx.ivec(f"R{self.n}"))

    def section(self, s):
        if s == "exchange":
            out = [self.exchange]
            for b in self.bonds:
                out += [[SUB]] + b
            return out + [[SUB]]
        if s == "on_site":
            out = [self.on_site]
            for b in self.sites:
                out += [[SUB]] + b
            return out + [[SUB]]
        return getattr(self, s)

    def write(self):
        return write(self.ctx, [[line(self.ctx, *[w for w in r]) for r in self.section(s)] for s in self.order] + self.extra)


def refused(ctx, f, label):
    path = f.write()
    ctx.raises(label, ctx.world.exceptions.FailedToVerifyTxtModelFile, lambda: ctx.world.txt.load_spinham_txt(path))


def distinct(ctx, f):
    """every bond is given once, and no atom interacts with itself"""
    keys = [(b[0][0], b[0][1], tuple(b[0][2:])) for b in ([r for r in x if len(r) == 5][:1] for x in f.bonds)]
    for k, (a, b, R) in enumerate(keys):
        if isinstance(R[0], str):
            continue
        if a == b:
            ctx.assume(ctx.neg(ctx.same(R, (0, 0, 0))))
        for c, d, Q in keys[:k]:
            if (a, b) == (c, d):
                ctx.assume(ctx.neg(ctx.same(R, Q)))
            if (a, b) == (d, c):
                ctx.assume(ctx.neg(ctx.same(R, neg3(Q))))


def accepted(ctx, f):
    distinct(ctx, f)
    h = ctx.world.txt.load_spinham_txt(f.write())
    ctx.ensure("atoms of an accepted file", [a.name for a in h.atoms] == f.names)
    if "exchange" in f.order:
        pairs = stored(h)
        ctx.ensure("bonds of an accepted file", len(pairs) == len(f.bonds) * (2 if h.double_counting else 1), detail=len(pairs))
    else:
        ctx.ensure("no bonds", len(stored(h)) == 0)
    ctx.ensure("on-site terms of an accepted file", len(stored_on_site(h)) == (len(f.sites) if "on_site" in f.order else 0))
    ctx.ensure("cone axis", (h.cone_axis is not None) == ("cone" in f.order))
    ctx.ensure("spiral vector", (h.spiral_vector is not None) == ("spiral" in f.order))


@REG.scenario("well-formed files are accepted", bound=BOUND, conc=40, budget=90, variants=[dict(form=k) for k in (0, 1, 2)])
def well_formed(ctx, form):
    what = ctx.choice("sections", ["all", "required", "no exchange", "no on-site", "notation only", "no vectors"])
    only = {"all": None, "required": ("cell", "atoms"), "no exchange": ("cell", "atoms", "notation", "on_site", "cone"), "no on-site": ("cell", "atoms", "notation", "exchange", "spiral"),
            "notation only": ("cell", "atoms", "notation"), "no vectors": ("cell", "atoms", "notation", "exchange", "on_site")}[what]
    f = File(ctx, form, only)
    if what == "no exchange":
        f.notation = [r for r in f.notation if r[0][0].lower() in "nso"]
    if what == "no on-site":
        f.notation = [r for r in f.notation if r[0][0].lower() in "ndse"]
    if what == "notation only":
        f.notation = f.notation[:ctx.choice("entries", [1, 2, 5])]
    if ctx.bool("unknown section"):
        f.extra = [["Comment by", "the author - 12 & so on", "---"]]
    accepted(ctx, f)


def faults(f, s):
    """(label, action) for every fault the format can have in a section"""
    out = []

    def rep(rows_, i, j, words, why, skip=()):
        out.append((f"{why}, row {i} block {j}", lambda: rows_[i].__setitem__(j, f.ctx.choice("word", words))))

    def numbers(rows_, i, first, why):
        for j in range(first, len(rows_[i])):
            rep(rows_, i, j, NOT_NUMBERS, why + ": not a number")
        out.append((f"{why}: a number too few, row {i}", lambda: rows_[i].pop()))
        out.append((f"{why}: a number too many, row {i}", lambda: rows_[i].append(f.ctx.choice("more", ["1", "-2e3"]))))

    def header(row, units):
        if units:
            out.append((f"{s}: unknown units", lambda: row.__setitem__(slice(1, None), [f.ctx.choice("units", ["Parsec", "1", "-", "xa", "="])])))
        else:
            out.append((f"{s}: units of a section without", lambda: row.append("meV")))
        out.append((f"{s}: too many words in the header", lambda: row.__setitem__(slice(1, None), [units[0] if units else "a", f.ctx.choice("second", ["1", "b"])])))

    def missing_rows(rows_, which, why):
        for i in which:
            out.append((f"{why}: row {i} is missing", lambda i=i: rows_.pop(i)))

    if s == "cell":
        header(f.cell[0], ["a"])
        n = len(f.cell)
        for i in range(n - 3, n):
            numbers(f.cell, i, 0, "lattice vector")
        if n == 5:
            rep(f.cell, 1, 0, NOT_NUMBERS, "scale: not a number")
            rep(f.cell, 1, 0, ["0", "0.0", "-0"] if len(f.cell[1]) == 1 else ["0", "-1", "-0.0"], "scale: zero or negative")
            rep(f.cell, 1, -1, ["0", "0.0", "0e5"] if len(f.cell[1]) == 1 else ["0", "-1e-3"], "scale: zero or negative")
            if len(f.cell[1]) == 3:
                rep(f.cell, 1, 1, ["0", "-2"], "scale: zero or negative")
                out.append(("scale: any number below zero", lambda: f.cell[1].__setitem__(f.ctx.choice("which", [0, 1, 2]), f._r(hi=0))))
            out.append(("scale: two numbers", lambda: f.cell.__setitem__(1, ["1", "2"])))
            out.append(("scale: four numbers", lambda: f.cell.__setitem__(1, ["1", "2", "3", "4"])))
            out.append(("cell: too many rows", lambda: f.cell.append(["1", "0", "0"])))
            out.append(("cell: too few rows", lambda: f.cell.__setitem__(slice(3, None), [])))
        else:
            missing_rows(f.cell, range(1, 4), "lattice vector")
            out.append(("cell: two rows too many", lambda: f.cell.extend([["1", "0", "0"], ["1", "0", "0"]])))
            out.append(("scale: two numbers", lambda: f.cell.insert(1, ["1", "2"])))
        out.append(("cell: only the header", lambda: f.cell.__setitem__(slice(1, None), [])))
        out.append(("cell: section is missing", lambda: f.order.remove("cell")))
    if s == "atoms":
        header(f.atoms[0], ["a"])
        k = f.keys.index("name")
        for i in range(2, len(f.atoms)):
            for j in range(len(f.keys)):
                if j != k:
                    rep(f.atoms, i, j, NOT_NUMBERS, "data of an atom: neither a number nor missing")
            out.append((f"data of an atom: a block too few, row {i}", lambda i=i: f.atoms[i].pop()))
            out.append((f"data of an atom: a block too many, row {i}", lambda i=i: f.atoms[i].append("1")))
            out.append((f"data of an atom: only one block, row {i}", lambda i=i: f.atoms[i].__setitem__(slice(1, None), [])))

            def rename(i, name):
                old = f.names[i - 2]
                f.atoms[i][k] = name
                for b in f.bonds:
                    b[0][:2] = [name if x == old else x for x in b[0][:2]]
                for b in f.sites:
                    b[0][0] = name if b[0][0] == old else b[0][0]
            out.append((f"name of an atom is not legal, row {i}", lambda i=i: rename(i, f.ctx.choice("name", ["_Fe", "__Fe", "Fe__", "-Fe", "+", "(Fe)", "__", "Fe___"]))))
            for m in range(2, len(f.atoms)):
                if m != i:
                    out.append((f"two atoms with one name, rows {i} and {m}", lambda i=i, m=m: rename(i, f.names[m - 2])))
            p = ("r1", "r2", "r3") if "x" not in f.keys else ("x", "y", "z")
            if "x" not in f.keys or "r1" not in f.keys:
                out.append((f"position of an atom is missing, row {i}", lambda i=i: f.atoms[i].__setitem__(f.keys.index(f.ctx.choice("coordinate", p)), "-")))

        def drop(*cols):
            for c in cols:
                j = [x.lower() for x in f.keys].index(c)
                for r in f.atoms[1:]:
                    r.pop(j)
        low = [x.lower() for x in f.keys]
        out.append(("no names", lambda: drop("name")))
        for c in ("r1", "r2", "r3", "x", "y", "z"):
            if c in low:
                out.append((f"coordinate {c} has no column", lambda c=c: drop(c)))
        if "r1" in low and "x" not in low:
            out.append(("no positions", lambda: drop("r1", "r2", "r3")))
        for c in ("sx", "sy", "sz", "sp", "st"):
            if c in low:
                out.append((f"spin component {c} has no column", lambda c=c: drop(c)))
        if "sp" in low:
            out.append(("angles without length", lambda: drop("s")))
            out.append(("orbital moment: one component", lambda: [r.append(x) for r, x in zip(f.atoms[1:], ["lx"] + ["1"] * 9)]))
        out.append(("total moment: two components", lambda: [r.extend(x) for r, x in zip(f.atoms[1:], [["jx", "jy"]] + [["1", "2"]] * 9)]))
        out.append(("total moment: mixed components", lambda: [r.extend(x) for r, x in zip(f.atoms[1:], [["j", "jx", "jp"]] + [["1", "2", "3"]] * 9)]))
        out.append(("a column given twice", lambda: [r.append(r[col]) for col in [f.ctx.choice("column", list(range(len(f.keys))))] for r in f.atoms[1:]]))
        out.append(("no atoms", lambda: f.atoms.__setitem__(slice(2, None), [])))
        out.append(("atoms: only the header", lambda: f.atoms.__setitem__(slice(1, None), [])))
        out.append(("atoms: section is missing", lambda: f.order.remove("atoms")))
    if s == "notation":
        header(f.notation[0], [])
        for i in range(1, 5):
            out.append((f"notation: entry {i} is missing", lambda i=i: f.notation.pop(i)))
            out.append((f"notation: entry {i} is given twice", lambda i=i: f.notation.append([f.notation[i][0].upper(), f.notation[i][1]])))
            out.append((f"notation: entry {i} has no value", lambda i=i: f.notation[i].pop()))
            out.append((f"notation: entry {i} has two values", lambda i=i: f.notation[i].append("1")))
            rep(f.notation, i, 1, ["2", "maybe", "tr", "nope", "-1", "None"] if i < 3 else NOT_NUMBERS + ["true", "-"], "notation: value")
        out.append(("notation: section is missing", lambda: f.order.remove("notation")))
        out.append(("notation: only the header", lambda: f.notation.__setitem__(slice(1, None), [])))
    if s == "exchange":
        header(f.exchange, ["m"])
        for n, b in enumerate(f.bonds):
            for j in (0, 1):
                rep(b, 0, j, ["Fe", "fe1", "FE1", "B", "zr_2", "Cr", "12", "_A"], f"bond {n}: atom that is not listed")
            for j in (2, 3, 4):
                rep(b, 0, j, NOT_INTEGERS, f"bond {n}: lattice vector is not integer")
            out.append((f"bond {n}: lattice vector with a number too few", lambda b=b: b[0].pop()))
            out.append((f"bond {n}: lattice vector with a number too many", lambda b=b: b[0].append("0")))
            out.append((f"bond {n}: an atom too few", lambda b=b: b[0].pop(1)))
            out.append((f"bond {n}: no value", lambda b=b: b.__setitem__(slice(1, None), [])))
            out.append((f"bond {n}: only an unknown value", lambda b=b: b.__setitem__(slice(1, None), [["biquadratic", "1"]])))
            out.append((f"bond {n}: no atoms", lambda b=b: b.pop(0)))
            rows_ = 0
            for i in range(1, len(b)):
                w = b[i][0] if isinstance(b[i][0], str) else ""
                if rows_:
                    numbers(b, i, 0, f"bond {n}: matrix")
                    rows_ -= 1
                    out.append((f"bond {n}: row {i} of the matrix is missing", lambda b=b, i=i: b.pop(i)))
                elif w.lower().startswith("m"):
                    rows_ = 3
                    out.append((f"bond {n}: number after the matrix keyword", lambda b=b, i=i: b[i].append("1")))
                    out.append((f"bond {n}: matrix given twice", lambda b=b, i=i: b.extend([list(r) for r in b[i:i + 4]])))
                else:
                    numbers(b, i, 1, f"bond {n}: {w}")
                    out.append((f"bond {n}: {w} given twice", lambda b=b, i=i: b.append(list(b[i]))))
        out.append(("exchange: no bonds", lambda: f.bonds.clear()))
    if s == "on_site":
        header(f.on_site, ["m"])
        for n, b in enumerate(f.sites):
            rep(b, 0, 0, ["Fe", "fe1", "FE1", "B", "zr_2", "Cr", "12", "_A"], f"term {n}: atom that is not listed")
            out.append((f"term {n}: two atoms", lambda b=b: b[0].append(b[0][0])))
            out.append((f"term {n}: no atom", lambda b=b: b.pop(0)))
            out.append((f"term {n}: no numbers", lambda b=b: b.pop(1)))
            out.append((f"term {n}: numbers on two rows", lambda b=b: b.__setitem__(slice(1, None), [b[1][:3], b[1][3:]])))
            numbers(b, 1, 0, f"term {n}")
        out.append(("on-site: no terms", lambda: f.sites.clear()))
    if s == "cone":
        header(f.cone[0], ["a"])
        numbers_ = f.cone[1]
        for j in range(len(numbers_)):
            rep(f.cone, 1, j, NOT_NUMBERS, "cone axis: not a number")
        out.append(("cone axis: one number", lambda: f.cone.__setitem__(1, ["1"])))
        out.append(("cone axis: four numbers", lambda: f.cone.__setitem__(1, ["1", "2", "3", "4"])))
        out.append(("cone axis: no numbers", lambda: f.cone.pop()))
        out.append(("cone axis: two rows", lambda: f.cone.append(["1", "2", "3"])))
    if s == "spiral":
        header(f.spiral[0], ["a"])
        numbers(f.spiral, 1, 0, "spiral vector")
        out.append(("spiral vector: no numbers", lambda: f.spiral.pop()))
        out.append(("spiral vector: two rows", lambda: f.spiral.append(["1", "2", "3"])))
        out.append(("spiral vector: two angles", lambda: f.spiral.__setitem__(1, ["1", "2"])))
    return out


@REG.scenario("a malformed file is refused", bound=BOUND, conc=120, budget=120,
              variants=[dict(form=k, section=s) for k in (0, 1, 2) for s in ("cell", "atoms", "notation", "exchange", "on_site", "cone", "spiral")])
def malformed(ctx, form, section):
    f = File(ctx, form)
    todo = faults(f, section)
    label, action = todo[ctx.choice("fault", list(range(len(todo))))]
    action()
    refused(ctx, f, f"refused: {label}")


@REG.scenario("words that are numbers", sym=False, conc=1, conc_thorough=1, bound="every word of up to four (checkers) or three (whole files: one in 40) symbols of 0 1 5 + - . e d x _ , n")
def number_words(ctx):
    """the checkers of words accept a word exactly when it can be converted"""
    import itertools
    alphabet = "015+-.edx_,n"

    def converts(kind, w):
        try:
            kind(w)
        except ValueError:
            return False
        return True
    verify = ctx.world.verify
    for k in (1, 2, 3, 4):
        for t in itertools.product(alphabet, repeat=k):
            w = "".join(t)
            for name, kind in (("_is_float", float), ("_is_integer", int)):
                got = ctx.private(verify, name, w)
                if bool(got) != converts(kind, w):
                    ctx.ensure(f"{name} of {w!r}", False, detail=f"{got}")
    ctx.ensure("words are classified as numbers", True)
    for w in list(ctx.world.inside.TRUE_KEYWORDS) + list(ctx.world.inside.FALSE_KEYWORDS):
        ctx.ensure(f"word {w!r} is a truth value", ctx.private(verify, "_is_bool", w.upper()) and ctx.private(verify, "_is_bool", w))
    n = ctx.int("first", lo=0, hi=39)
    for i, t in enumerate(itertools.product(alphabet, repeat=3)):
        w = "".join(t)
        if i % 40 != n or w[0] == "#":
            continue
        f = File(ctx, 0, ("cell", "atoms"), plain=True)
        f.cell[2] = ["0", w, "0.125"]
        if converts(float, w):
            ctx.ensure(f"accepted: {w!r}", ctx.world.txt.load_spinham_txt(f.write()) is not None)
        else:
            refused(ctx, f, f"refused: {w!r}")


@REG.scenario("required parts", bound=BOUND, conc=20)
def required(ctx):
    """what must be there depends on the sections that are there"""
    form = ctx.choice("form", [0, 1, 2])
    f = File(ctx, form)
    if ctx.bool("exchange only"):
        f.order.remove("on_site")
        gone, need = f.sites, "dse"
    else:
        f.order.remove("exchange")
        gone, need = f.bonds, "so"
    drop = ctx.choice("missing entry", ["d", "s", "e", "o", "section"])
    if drop == "section":
        f.order.remove("notation")
    else:
        f.notation = [r for r in f.notation if r[0][0].lower() != drop]
    if drop == "section" or drop in need:
        refused(ctx, f, f"refused: missing {drop} of the notation")
    else:
        accepted(ctx, f)


@REG.scenario("separators", bound=BOUND, conc=40, budget=100, variants=[dict(form=f, kind=k) for f in (0, 1) for k in "=-"])
def separators(ctx, form, kind):
    """separators have ten or more symbols, shorter ones are refused wherever they are"""
    f = File(ctx, form, plain=True)
    k = ctx.choice("length", [1, 2, 5, 9, 10, 11, 40])
    if kind == "-":
        s = ctx.choice("section", ["exchange", "on_site"])
        blocks = f.bonds if s == "exchange" else f.sites
        end = ctx.choice("place", ["before", "after"])
        if end == "before":
            blocks[0].insert(0, ["-" * k])
        else:
            blocks[-1].append(["-" * k])
    else:
        s = f.order[ctx.choice("section", list(range(7)))]
        end = ctx.choice("place", ["before", "after"])
        rows_ = f.section(s)
        setattr(f, "section", lambda x, old=f.section: old(x) if x != s else ([["=" * k]] + rows_ if end == "before" else rows_ + [["=" * k]]))
    if k < 10:
        refused(ctx, f, "refused: short separator")
    else:
        accepted(ctx, f)


@REG.scenario("files of any size", sym=False, conc=150, conc_thorough=4000, bound="run-time check: up to 20 atoms, 20 bonds, 10 on-site terms; one fault of any kind at any place")
def large(ctx):
    f = File(ctx, ctx.choice("form", [0, 1, 2]))
    n = ctx.int("atoms", lo=0, hi=17)
    for k in range(n):
        f.names.append(f"At{k}")
        f.atoms.append([f.names[-1] if x == "name" else str(k) for x in f.keys])
    for k in range(ctx.int("bonds", lo=0, hi=20)):
        a, b = ctx.int(f"a{k}", lo=0, hi=len(f.names) - 1), ctx.int(f"b{k}", lo=0, hi=len(f.names) - 1)
        f.bonds.append([[f.names[a], f.names[b], str(k + 20), "0", "1"]] + [[["Iso", "1"]], [["DMI", "1", "2", "3"]], [["matrix"], ["1", "2", "3"], ["1", "2", "3"], ["1", "2", "3"]], [["s", "1", "2", "3", "4", "5"], ["i", "1"]]][k % 4])
    for k in range(ctx.int("sites", lo=0, hi=min(10, n))):
        f.sites.append([[f"At{k}"], ["1", "2", "3", "4", "5", "6"]])
    if ctx.bool("faulty"):
        s = ctx.choice("section", list(f.order))
        todo = faults(f, s)
        label, action = todo[ctx.int("fault", lo=0, hi=len(todo) - 1)]
        action()
        refused(ctx, f, f"refused: {label}")
    else:
        accepted(ctx, f)
