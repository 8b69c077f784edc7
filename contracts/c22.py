"""C22: the command-line tools report what the library computes for the file they are given."""
import contextlib
import io
import os
import sys

from symx.run import Registry
from .common import *
from .c14 import compare
from .c18 import tb2j, parts, check_atoms, check_bonds, check_notation, NAMES
from .c18 import make_atoms as tb2j_atoms
from .c19 import _float

REG = Registry()
REG.assumptions = ["the state found by the minimisation is arbitrary here (its properties: C11); energies of states: C09, C10; files: C14, C16, C18",
                   "numbers printed by the minimisation tool are compared without their rounding (the run-time check: within the printed digits)"]


def here(ctx):
    """the scratch directory of this evaluation"""
    if getattr(ctx, "_here", None) is None:
        ctx._here = ctx.scratch()
    return ctx._here


def cli(ctx, module, *args):
    """main() of the tool with the given command line, in a scratch directory; what it printed"""
    mod = getattr(ctx.world, module)
    if mod is None:
        ctx.unsupported(f"{module} cannot be imported")
    out = io.StringIO()
    old, argv = os.getcwd(), sys.argv
    os.chdir(here(ctx))
    sys.argv = [module] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                mod.main()
            except SystemExit as e:
                ctx.ensure("the command line is accepted", e.code in (0, None), detail=str(args))
    finally:
        os.chdir(old)
        sys.argv = argv
    return out.getvalue()


# -------------------------------------------------------------------------------------------- conversion
OUT = [("out.txt", None, "txt", "out.txt"), ("out.hdf5", None, "hdf5", "out.hdf5"), ("model", None, "txt", "model"), ("out.txt", "txt", "txt", "out.txt"),
       ("out.txt", "hdf5", "hdf5", "out.hdf5"), ("out.hdf5", "hdf5", "hdf5", "out.hdf5"), ("a.b", "hdf5", "hdf5", "a.b.hdf5"), ("x", "txt", "txt", "x"),
       (None, None, "txt", "spinham.txt")]


@REG.scenario("conversion", conc=15, budget=60, bound="a TB2J file with two atoms and two bonds; any values of the interactions, moments and charges", variants=[dict(k=k) for k in range(len(OUT))])
def convert(ctx, k):
    name, fmt, kind, written = OUT[k]
    ctx.exact_text = True
    cell, atoms = CELL, tb2j_atoms(ctx, 2)
    for i, a in enumerate(atoms):
        a["pos"] = [0.25 * i, 0.5, 0.125 * i]
    bonds = [("Cr1", "Cr2", (1, 0, -1), parts(ctx, "iad", 0), 2.5), ("Cr1", "Cr1", (0, 2, 0), parts(ctx, "i", 1), 2.5)]
    f = tb2j(ctx, cell, atoms, bonds, 0)
    args = ["-if", f] + (["-of", name] if name is not None else []) + (["-f", fmt] if fmt else []) + (["-v"] if ctx.bool("verbose") else [])
    cli(ctx, "convert", *args)
    path = os.path.join(here(ctx), written)
    if not (ctx.symbolic and kind == "hdf5"):
        ctx.ensure("the file is there", os.path.isfile(path), detail=written)
    h = ctx.world.tb2j.load_tb2j(f)
    g = ctx.world.io.load_spinham(path, spinham_format=kind)
    compare(ctx, h, g)
    check_notation(ctx, g)
    if ctx.symbolic or kind == "hdf5":
        check_bonds(ctx, g, bonds)


@REG.scenario("reader for a file", conc=10, bound="all formats and names")
def dispatch(ctx):
    """the format given, in any case, or the one the name implies"""
    w = ctx.world
    at = make_atoms(ctx, 2, spin="vector", pos=False)
    h = make_ham(ctx, at, notation=(True, False, -1.0, 1.0))
    put(h, orbit(ctx, at, "ab", 0), "fwd")
    ctx.exact_text = True
    kind = ctx.choice("kind", ["txt", "hdf5", "tb2j"])
    d = here(ctx)
    if kind == "tb2j":
        b = [("Cr1", "Cr2", (1, 0, -1), parts(ctx, "iad", 9), 2.5)]
        f = tb2j(ctx, CELL, tb2j_atoms(ctx, 2), b, 0)
        hint = ctx.choice("hint", [None, "tb2j", "TB2J"])
    elif kind == "txt":
        name, hint = ctx.choice("name", [("model.txt", None), ("model", None), ("model.dat", "txt"), ("model.hdf5", "TXT"), ("exchange.out", "txt"), ("hdf5", None)])
        f = os.path.join(d, name)
        w.txt.dump_spinham_txt(h, filename=f)
    else:
        name, hint = ctx.choice("name", [("model.hdf5", None), ("model.hdf5", "hdf5"), ("model.hdf5", "HDF5")])
        f = os.path.join(d, name)
        w.hdf5.dump_spinham_hdf5(h, filename=f)
    g = w.io.load_spinham(f) if hint is None else w.io.load_spinham(f, spinham_format=hint)
    if kind == "tb2j":
        check_bonds(ctx, g, b)
    else:
        compare(ctx, h, g)
    ctx.raises("unknown format", ValueError, w.io.load_spinham, f, spinham_format=ctx.choice("bad", ["xml", "", "txt "]))


# -------------------------------------------------------------------------------------------- minimisation
QREL = [(i, j, k) for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1) if (i, j, k) != (0, 0, 0)]


@contextlib.contextmanager
def recorded(ctx, states):
    """minimisation that returns given states and records how it was called"""
    calls = []

    def optimize(self, case, *a, **kw):
        if a:
            ctx.unsupported("positional arguments of the minimisation")
        q = kw.get("antiferro_q")
        calls.append(dict(case=case, q=None if q is None else list(q), file=kw.get("history_filename"), save=kw.get("save_history"), guess=kw.get("initial_guess"),
                          energy=self, field=None if self.magnetic_field is None else list(self.magnetic_field)))
        s, n, sq = states(case, len(calls) - 1)
        arr = ctx.np.array
        s = arr([list(v) for v in s])
        if case == "ferro":
            return (s,)
        return s, arr(list(n)), arr(list(q if case == "antiferro" else sq))
    cls = ctx.world.Energy
    orig = cls.__dict__["optimize"]
    cls.optimize = optimize
    try:
        yield calls
    finally:
        cls.optimize = orig


def numbers(ctx, words):
    out = []
    for w in words:
        try:
            out.append(_float(ctx, w))
        except ValueError:
            pass
    return out


def model_file(ctx, parameters="all"):
    """three atoms, two of them magnetic; with only one kind of parameters the notation in the file is incomplete"""
    size = 1 if ctx.symbolic else ctx.choice("size", [1, 1, 250, 4000])
    at = [ctx.world.Atom(nm, [size * x for x in ctx.vec(f"p{k}", lo=-1, hi=1)] if not ctx.symbolic else list(ctx.vec(f"p{k}")), spin=s, index=k + 1)
          for k, (nm, s) in enumerate((("Cr2", [0.0, 0.0, 1.5]), ("I1", [0.0, 0.5, 0.0]), ("Cr1", [0.0, 0.0, 2.5])))]
    cell = [[3.0, 0.0, 0.0], [0.5, 4.0, 0.0], [0.0, 0.25, 5.0]]
    h = ctx.world.SpinHamiltonian(cell=cell, atoms=at, notation=(True, False, 0.5, 1.0))
    J = ctx.mat("J")
    A = symm(ctx, "A")
    if parameters != "on-site":
        h.add_exchange(at[2], at[0], (1, 0, 0), matrix=J)
    else:
        h.add_on_site(at[2], matrix=addm(J, tr(J)))
    if parameters != "exchange":
        h.add_on_site(at[0], matrix=A)
    f = os.path.join(here(ctx), "model.txt")
    ctx.world.txt.dump_spinham_txt(h, filename=f)
    return f, at, cell


@REG.scenario("minimisation", conc=12, budget=90, bound="three atoms, two of them magnetic, one interaction and one on-site term; any states and fields",
              variants=[dict(types=t) for t in (("ferro",), ("spiral",), ("antiferro",), ("spiral", "ferro"), ("all",), (), ("antiferro", "spiral"))]
              + [dict(types=("spiral", "ferro"), parameters=p) for p in ("exchange", "on-site")])
def minimise(ctx, types, parameters="all"):
    ctx.exact_text = True
    f, at, cell = model_file(ctx, parameters)
    w = ctx.world
    names = ["Cr2", "Cr1"]
    st = {}

    def states(case, k):
        key = case if case != "antiferro" else (case, k % 3)
        if key not in st:
            t = case if case != "antiferro" else f"{case}{k % 3}"
            st[key] = ([unit_or_raw(ctx, f"{t}s{i}") for i in range(2)], unit_or_raw(ctx, f"{t}n"), list(ctx.vec(f"{t}q")))
        return st[key]
    args = ["-sh", f]
    field = None
    if ctx.bool("field"):
        field = [abs(x) for x in ctx.vec("B")] if not ctx.symbolic else [ctx.real(f"B{i}", pos=True) for i in range(3)]
        field = [round(x, 3) for x in field] if not ctx.symbolic else field
        args += ["-mf"] + [ctx.token(x) if ctx.symbolic else repr(x) for x in field]
    if types:
        args += ["-gst"] + list(types)
    seed = ctx.choice("seed", [None, "res", "my.run"])
    if seed is not None:
        args += ["-os", seed]
    with recorded(ctx, states) as calls:
        cli(ctx, "minimize", *args)
    want = ["ferro", "antiferro", "spiral"] if types in ((), ("all",)) else list(types)
    expanded = [(t, i) for t in want for i in range(26 if t == "antiferro" else 1)]
    ctx.ensure("the types asked for are minimised", [c["case"] for c in calls] == [t for t, _ in expanded], detail=str([c["case"] for c in calls]))
    ctx.ensure("every minimisation has its own history file", len({c["file"] for c in calls}) == len(calls) and all(c["file"] and c["save"] for c in calls),
               detail=str([c["file"] for c in calls]))
    rec = rows(w.io.load_spinham(f).reciprocal_cell)
    qs = []
    for c in calls:
        ctx.ensure("no starting state is imposed", c["guess"] is None)
        ctx.ensure("field", (c["field"] is None) == (field is None))
        if field is not None:
            ctx.eq("field", c["field"], field)
        if c["case"] == "antiferro":
            qs.append(c["q"])
    if qs:
        left = [[x / 2 for x in vecmat(q, rec)] for q in QREL]
        for q in qs:
            i = [k for k, z in enumerate(left) if all(abs(float(a) - float(b)) < 1e-9 for a, b in zip(q, z))]
            ctx.ensure("wave vector is one of the 26, each once", len(i) == 1)
            if i:
                left.pop(i[0])
    path = os.path.join(here(ctx), (seed or "minim") + "-results")
    ctx.ensure("results are written", os.path.isfile(path))
    with open(path, encoding="utf-8") as fp:
        lines = [l.split() for l in fp.read().splitlines() if l.strip()]
    # atoms and directions, in the order of the minimisations
    tol = {} if ctx.symbolic else {"atol": 1e-6}
    table = [(l[0], numbers(ctx, l[1:])) for l in lines if l[0] in ("Cr1", "Cr2", "I1")]
    ctx.ensure("every magnetic atom is listed once for every minimisation", [n for n, _ in table] == names * len(expanded), detail=str([n for n, _ in table]))
    it = iter(table)
    pos = {a.name: list(a.position) for a in at}
    used = []
    for n, c in enumerate(calls):
        s, ax, sq = states(c["case"], n)
        for i in range(2):
            nm, v = next(it)
            ctx.ensure("position and direction of an atom", len(v) == 6)
            ctx.eq("position of the atom", v[:3], pos[nm], **tol)
            ctx.eq("direction of the spin", v[3:], list(s[i]), **tol)
        used.append((c, s, ax, c["q"] if c["case"] == "antiferro" else sq))
    cone = [numbers(ctx, l) for l in lines if l[0] == "Cone"]
    spiral = [numbers(ctx, l) for l in lines if l[:2] == ["Spiral", "vector"]]
    cones = [u for u in used if u[0]["case"] != "ferro"]
    ctx.ensure("axes and wave vectors are listed", len(cone) == len(spiral) == len(cones), detail=f"{len(cone)} {len(spiral)}")
    for (c, s, ax, q), a, b in zip(cones, cone, spiral):
        ctx.eq("axis", a, list(ax), **tol)
        ctx.eq("wave vector", b, list(q), atol=1e-6)
    # energies of the summary
    E = w.Energy(w.io.load_spinham(f))
    if field is not None:
        E.magnetic_field = list(field)
    k = max(i for i, l in enumerate(lines) if "Summary:" in l)
    got = [numbers(ctx, l) for l in lines[k + 1:]]
    got = [g for g in got if g]
    ctx.ensure("an energy for every minimisation", len(got) == len(expanded), detail=f"{len(got)} for {len(expanded)}")
    arr = ctx.np.array
    for (c, s, ax, q), g, (t, i) in zip(used, got, expanded):
        s = arr([list(v) for v in s])
        e = E.ferro(s) if t == "ferro" else getattr(E, t)(s, arr(list(ax)), arr(list(q)))
        if t == "antiferro":
            ctx.ensure("number of the antiferromagnetic state", len(g) == 2 and g[0] == i + 1)
        ctx.eq("energy of the state", g[-1], e, **tol)


def unit_or_raw(ctx, name):
    v = nonzero_vec(ctx, name)
    return list(v) if ctx.symbolic else [float(x) for x in unit(ctx, v)]


# -------------------------------------------------------------------------------------------- history
CASES = ("ferro", "antiferro", "spiral")


def history_rows(ctx, text, width):
    lines = [l.split() for l in text.splitlines() if l.strip()]
    ctx.ensure("header", len(lines) > 0 and len(lines[0]) == width and not numbers(ctx, lines[0]))
    out = [numbers(ctx, l) for l in lines[1:]]
    ctx.ensure("a number for every column", all(len(r) == width for r in out), detail=str([len(r) for r in out]))
    return out


@REG.scenario("rows of the history", conc=10, bound="two atoms, up to three steps in up to two portions", variants=[dict(case=c) for c in CASES])
def history(ctx, case):
    ctx.exact_text = True
    k = 2
    f = os.path.join(here(ctx), "history")
    fn = f"_default_history_processor_{case}"
    ctx.private(ctx.world.energy, fn, None, filename=f, nspins=k)
    want, n = [], 0
    for portion in ctx.choice("portions", [(1,), (2, 1), (1, 1)]):
        steps = []
        for _ in range(portion):
            e, t = ctx.real(f"e{n}"), [ctx.real(f"t{n}_{i}") for i in range(1 if case == "ferro" else 2)]
            s = [list(ctx.vec(f"s{n}_{i}")) for i in range(k + (case != "ferro"))]
            q = [] if case == "ferro" else list(ctx.vec(f"q{n}"))
            x = ctx.np.array(s) if case == "ferro" else [ctx.np.array(s), ctx.np.array(q)]
            steps.append([e, tuple(t), x])
            want.append([e] + t + [z for v in s for z in v] + q)
            n += 1
        ctx.private(ctx.world.energy, fn, steps, filename=f)
    rows_ = history_rows(ctx, open(f).read(), len(want[0]))
    ctx.ensure("a row for every step", len(rows_) == len(want), detail=f"{len(rows_)} for {len(want)}")
    tol = {} if ctx.symbolic else {"tol": 1e-6, "atol": 1e-6}
    for a, b in zip(rows_, want):
        ctx.eq("row", a, b, **tol)


@REG.scenario("history of a minimisation", sym=False, conc=4, conc_thorough=60, bound="run-time check with one or two atoms and up to 12 steps", variants=[dict(case=c) for c in CASES])
def history_file(ctx, case):
    import numpy as np
    from .c11 import weak_model, run, guess_of
    k = ctx.choice("k", [1, 2])
    m = weak_model(ctx, k)
    E = ctx.world.Energy(m.h)
    dirs, n, q = [nonzero_vec(ctx, f"d{i}") for i in range(k)], nonzero_vec(ctx, "n"), ctx.vec("q")
    guess, it = guess_of(ctx, case, dirs, n, q), ctx.choice("it", [1, 3, 12])
    tol = (1e-12,) * (2 if case == "ferro" else 3)
    f = os.path.join(here(ctx), "history")
    opts = dict(save_history=True, history_step=ctx.choice("step", [1, 2, 1000]), tolerance=tol)
    if ctx.bool("to a file"):
        r = run(E, case, guess, it, q=q, history_filename=f, **opts)
        text = open(f).read()
    else:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            r = run(E, case, guess, it, q=q, **opts)
        text = out.getvalue()
    extra = 0 if case == "ferro" else 6
    rows_ = history_rows(ctx, text, 1 + (1 if case == "ferro" else 2) + 3 * k + extra)
    if len(rows_) == it + 1 or len(rows_) < 2 or abs(rows_[-1][0] - rows_[-2][0]) > 1e-7:          # otherwise it may have stopped before
        ctx.ensure("a row for every step", len(rows_) == it + 1, detail=f"{len(rows_)} for {it}")
    first = run(E, case, guess, 0, q=q)
    for row, state in ((rows_[0], first), (rows_[-1], r)):
        ctx.eq("energy", row[0], getattr(E, case)(*state), tol=1e-6, atol=1e-7)
        ctx.eq("state", row[-3 * k - extra:], [float(z) for z in np.concatenate([np.ravel(v) for v in state])], tol=1e-6, atol=1e-7)


# -------------------------------------------------------------------------------------------- dispersion
@REG.scenario("dispersion", sym=False, conc=4, conc_thorough=30, bound="run-time check: Hamiltonians with one, two or seven magnetic atoms, three kinds of cells, two paths", variants=[dict(many=False), dict(many=True)])
def dispersion(ctx, many):
    os.environ.setdefault("MPLBACKEND", "Agg")
    import importlib
    import warnings
    import numpy as np
    w = ctx.world
    w.dispersion_tool = importlib.import_module("magnopy.score.magnon_dispersion")
    cell = ctx.choice("cell", [[[3.0, 0.0, 0.0], [0.0, 3.0, 0.0], [0.0, 0.0, 3.0]], [[3.0, 0.0, 0.0], [0.0, 4.0, 0.0], [0.0, 0.0, 5.0]], [[0.0, 0.0, 5.0], [0.0, 4.0, 0.0], [3.0, 0.0, 0.0]]])
    n = 7 if many else ctx.choice("n", [1, 2])
    at = [w.Atom(f"Cr{k + 1}", [k / max(n, 2)] * 3, spin=[0.0, 0.0, 1.5], index=k + 1) for k in range(n)]
    h = w.SpinHamiltonian(cell=cell, atoms=at, notation=(True, False, -1.0, -1.0))
    sign = ctx.choice("sign", [1, -1])          # with the other sign all frequencies are negative
    J = [sign * ctx.choice(f"J{i}", [0.5, 1.0, 2.25]) for i in range(3)]
    for i in range(3):
        R = [0, 0, 0]
        R[i] = 1
        h.add_exchange(at[0], at[0], tuple(R), iso=J[i])
        for a in at[2:]:
            h.add_exchange(a, a, tuple(R), iso=J[i])
        if n >= 2:
            h.add_exchange(at[0], at[1], tuple(-x for x in R), iso=J[i])
            h.add_exchange(at[1], at[1], tuple(R), iso=J[2 - i])
    f = os.path.join(here(ctx), "model.txt")
    w.txt.dump_spinham_txt(h, filename=f)
    args = ["-sh", f, "-os", os.path.join(here(ctx), "o", "disp"), "-st", "-i"]
    join = ctx.bool("join")
    if join:
        args.append("-jo")
    Q = ctx.choice("point", ["Q", "q", "x1"])
    at_q = ctx.choice("coordinates", [[0.1, 0.2, 0.3], [-0.4, 1.2, 0.3]])
    path = ctx.choice("path", [None, "G-X", f"G-{Q}|{Q}-X", f"{Q}-G"])
    extra = path is not None and Q in path
    if extra:
        args += ["-kps", Q, Q] + [str(x) for x in at_q]
    if path:
        args += ["-kp", path]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cli(ctx, "dispersion_tool", *args)
        import matplotlib.pyplot as plt
        plt.close("all")
    out = os.path.join(here(ctx), "o", "disp.txt" if join else "disp_data.txt")
    ctx.ensure("data are written", os.path.isfile(out), detail=out)
    rows_ = []
    for l in open(out, encoding="utf-8").read().splitlines():
        try:
            x = [float(z) for z in l.split()]
        except ValueError:
            continue
        if len(x) == 1 + n + 6:
            rows_.append(x)
    g = w.io.load_spinham(f)
    g.standardize()
    kp = g.kpoints
    if extra:
        kp.add_hs_point(name=Q, coordinates=at_q, label=Q)
    if path:
        kp.path = path
    pts = np.array(kp.points(relative=False))
    ctx.ensure("a row for every point of the path", len(rows_) == len(pts), detail=f"{len(rows_)} {len(pts)}")
    T = np.array(rows_)
    flat = np.array(kp.flatten_points())
    ctx.ensure("path coordinate", np.abs(T[:, 0] - flat).max() < 1e-7)
    ctx.ensure("absolute coordinates", np.abs(T[:, 1 + n + 3:] - pts).max() < 1e-7)
    ctx.ensure("relative coordinates", np.abs(T[:, 1 + n:1 + n + 3] @ np.array(g.reciprocal_cell) - pts).max() < 1e-6)
    D = w.disp.MagnonDispersion(w.io.load_spinham(f))
    for i in sorted({0, len(pts) - 1} | {ctx.int(f"row{k}", lo=0, hi=len(pts) - 1) for k in range(8)}):
        om = D.omega(list(pts[i]))
        got, want = sorted(T[i, 1:1 + n]), sorted(float(np.real(z)) for z in om)
        for a, b in zip(got, want):
            if b == b and a == a:
                ctx.eq("frequency", a, b, tol=1e-5, atol=1e-5)
