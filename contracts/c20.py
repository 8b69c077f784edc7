"""C20: ground-state vectors, fields and factors are stored validated and independent."""
from symx.run import Registry
from .common import *
from .c06 import full_view, same_view
from .c14 import ENTRIES, notation_entry

REG = Registry()
REG.assumptions = ["numbers are finite; factors are not zero", "an axis longer than 2^-5 is not zero; shorter than 1e-8 it may be taken as zero"]
BOUND = "one vector or one notation per step, sequences of up to three steps; all values"
BAD_VECTORS = {"two": [1.0, 2.0], "four": [1.0, 2.0, 3.0, 4.0], "empty": [], "number": 1.5, "none": None, "word": "abc", "words": ["a", "b", "c"], "nested": [[1.0, 2.0, 3.0]],
               "column": [[1.0], [2.0], [3.0]], "ragged": [1.0, [2.0], 3.0], "complex": [1j, 0.0, 0.0], "set": {1.0, 2.0, 3.0}, "mapping": {0: 1.0}, "hole": [None, 0.0, 1.0],
               "matrix": [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], "object": object()}
BAD_NOTATIONS = {"unknown": "magnop", "empty name": "", "spaced": " tb2j", "two": (True, False), "five": (True, False, 1.0, 1.0, 1.0), "empty": (), "number": 3, "none": None,
                 "word factor": (True, True, "abc"), "word factor 2": (False, True, 2.0, "abc"), "none factor": (True, False, None), "none factor 2": [False, False, 2.0, None],
                 "vector factor": (True, True, [1.0, 2.0], 1.0), "complex factor": (True, True, 1j, 2.0), "boolean": True}
ERRORS = (ValueError, TypeError, KeyError)


def holder(ctx, what):
    """object and attribute that keep the vector"""
    at = make_atoms(ctx, 2, spin="vector", pos=False)
    h = make_ham(ctx, at, notation=(False, True, 2.0, 3.0))
    h.add_exchange(at[0], at[1], (1, 0, 0), matrix=rows(ctx.mat("M")))
    h.add_on_site(at[0], matrix=symm(ctx, "A"))
    return {"axis": (h, "cone_axis"), "spiral": (h, "spiral_vector"), "field": (ctx.world.Energy(h) if what == "field" else None, "magnetic_field")}[what] + (h,)


def given(ctx, v, form):
    return {"list": list(v), "tuple": tuple(v), "array": ctx.np.array(list(v)), "integers": [3, -4, 12]}[form]


def vector(ctx, what, name, form):
    if form == "integers":
        return [3, -4, 12]
    v = ctx.vec(name)
    if what == "axis":
        ctx.assume_longer(v, 2.0 ** -5)
    return list(v)


def check(ctx, what, got, v, label):
    ctx.ensure(f"{label}: shape", tuple(ctx.np.shape(got)) == (3,))
    if what == "axis":
        n = ctx.norm(v)
        ctx.eq(f"{label}: unit vector", dot(list(got), list(got)), 1)
        ctx.eq(f"{label}: along the given one", [n * x for x in got], list(v))
    else:
        ctx.eq(f"{label}: unchanged", list(got), list(v))


@REG.scenario("a vector is stored", bound=BOUND, conc=40, variants=[dict(what=w, form=f) for w in ("axis", "spiral", "field") for f in ("list", "tuple", "array", "integers")])
def stored_vector(ctx, what, form):
    o, attr, h = holder(ctx, what)
    v = vector(ctx, what, "v", form)
    before, n0 = full_view(h), [notation_entry(h, k) for k in ENTRIES]
    ctx.ensure("nothing is stored at first", getattr(o, attr) is None)
    arg = given(ctx, v, form)
    setattr(o, attr, arg)
    check(ctx, what, getattr(o, attr), v, "stored")
    ctx.eq("the argument is not changed", list(arg), v)
    if form != "tuple":
        arg[ctx.choice("k", [0, 1, 2])] = 17
        check(ctx, what, getattr(o, attr), v, "after the caller's change")
    same_view(ctx, full_view(h), before, "parameters")
    ctx.eq("notation", [notation_entry(h, k) for k in ENTRIES], n0)
    other = {"cone_axis": "spiral_vector", "spiral_vector": "cone_axis"}.get(attr)
    if other is not None:
        ctx.ensure("the other vector", getattr(o, other) is None)


@REG.scenario("vectors one after another", bound=BOUND, conc=40, variants=[dict(what=w) for w in ("axis", "spiral", "field")])
def history(ctx, what):
    """the last accepted value counts; one that was passed to several objects is not shared"""
    o, attr, h = holder(ctx, what)
    u, v = vector(ctx, what, "u", "list"), vector(ctx, what, "v", "list")
    a, b = ctx.np.array(u), ctx.np.array(v)
    setattr(o, attr, a)
    if what == "field":
        setattr(o, attr, None)
        ctx.ensure("no field", getattr(o, attr) is None)
        other = ctx.world.Energy(h)
    else:
        other = h.copy()
        check(ctx, what, getattr(other, attr), u, "copy")
    setattr(other, attr, b)
    setattr(o, attr, b)
    check(ctx, what, getattr(o, attr), v, "second")
    setattr(o, attr, a)
    check(ctx, what, getattr(other, attr), v, "another object")
    check(ctx, what, getattr(o, attr), u, "third")
    b[0] = 9
    check(ctx, what, getattr(other, attr), v, "another object at last")


@REG.scenario("axis and spiral vector are independent", bound=BOUND, conc=40)
def two(ctx):
    o, _, h = holder(ctx, "axis")
    n, q, p = vector(ctx, "axis", "n", "list"), vector(ctx, "spiral", "q", "list"), vector(ctx, "spiral", "p", "list")
    a = ctx.np.array(n)
    o.cone_axis = a
    o.spiral_vector = a
    check(ctx, "spiral", o.spiral_vector, n, "spiral vector")
    o.spiral_vector = q
    check(ctx, "axis", o.cone_axis, n, "axis")
    o.cone_axis = o.cone_axis
    check(ctx, "axis", o.cone_axis, n, "axis set to itself")
    o.spiral_vector = o.spiral_vector
    check(ctx, "spiral", o.spiral_vector, q, "spiral vector set to itself")


@REG.scenario("a bad vector is refused", bound="listed malformed inputs, before and after any value", conc=3, conc_thorough=20,
              variants=[dict(what=w, bad=b) for w in ("axis", "spiral", "field") for b in BAD_VECTORS if not (w == "field" and b == "none")])
def refuse(ctx, what, bad):
    o, attr, h = holder(ctx, what)
    ctx.raises("refused at first", ERRORS, lambda: setattr(o, attr, BAD_VECTORS[bad]))
    ctx.ensure("still nothing", getattr(o, attr) is None)
    v = vector(ctx, what, "v", "list")
    setattr(o, attr, v)
    ctx.raises("refused", ERRORS, lambda: setattr(o, attr, BAD_VECTORS[bad]))
    check(ctx, what, getattr(o, attr), v, "kept")


@REG.scenario("a zero axis is refused", bound=BOUND, conc=5, variants=[dict(zero=z) for z in ("ints", "floats", "array")])
def zero(ctx, zero):
    o, attr, h = holder(ctx, "axis")
    z = {"ints": [0, 0, 0], "floats": (0.0, -0.0, 0.0), "array": ctx.np.zeros(3)}[zero]
    ctx.raises("refused at first", ERRORS, lambda: setattr(o, attr, z))
    ctx.ensure("still nothing", o.cone_axis is None)
    v = vector(ctx, "axis", "v", "list")
    o.cone_axis = v
    ctx.raises("refused", ERRORS, lambda: setattr(o, attr, z))
    check(ctx, "axis", o.cone_axis, v, "kept")


# ----------------------------------------------------------------------------------------------- notation
NAMED = {"magnopy": (True, False, 0.5, 1.0), "tb2j": (True, True, -1.0, -1.0), "spinw": (True, False, 1.0, 1.0), "vampire": (True, True, -0.5, -1.0)}
SPELLINGS = [str.lower, str.upper, str.title, str.swapcase, lambda s: s[0] + s[1:].upper(), {"magnopy": "Magnopy", "tb2j": "TB2J", "spinw": "SpinW", "vampire": "Vampire"}.get]


def is_notation(ctx, h, want, label):
    got = h.notation
    ctx.ensure(f"{label}: four values", len(got) == 4)
    ctx.ensure(f"{label}: double counting", got[0] is want[0] and h.double_counting is want[0], detail=str(got[0]))
    ctx.ensure(f"{label}: spin normalization", got[1] is want[1] and h.spin_normalized is want[1], detail=str(got[1]))
    ctx.eq(f"{label}: factors", [got[2], got[3], h.exchange_factor, h.on_site_factor], [want[2], want[3]] * 2)


def bare(ctx, content=True):
    if not content:
        return make_ham(ctx, [ctx.world.Atom("C", [0, 0, 0], spin=1.5)])
    at = make_atoms(ctx, 2, spin="vector", pos=False)
    h = make_ham(ctx, at)
    if content:
        h.add_exchange(at[0], at[1], (0, 1, 0), matrix=rows(ctx.mat("M")))
        h.add_on_site(at[1], matrix=symm(ctx, "A"))
    return h


@REG.scenario("names of notations", bound="the four documented names, six spellings, empty or not", conc=20, variants=[dict(name=n) for n in NAMED])
def names(ctx, name):
    h = bare(ctx, ctx.bool("content"))
    s = ctx.choice("spelling", range(len(SPELLINGS)))
    if ctx.bool("declared before"):
        h.notation = start_notation(ctx)
    h.notation = SPELLINGS[s](name)
    is_notation(ctx, h, NAMED[name], "named")
    g = ctx.world.SpinHamiltonian(cell=CELL, notation=SPELLINGS[s](name))
    is_notation(ctx, g, NAMED[name], "named on creation")


@REG.scenario("three or four values", bound=BOUND, conc=40, variants=[dict(n=n, kind=k) for n in (3, 4) for k in ("tuple", "list", "numbers", "array")])
def values(ctx, n, kind):
    h = bare(ctx, ctx.bool("content"))
    want = start_notation(ctx)
    if ctx.bool("declared before"):
        h.notation = (ctx.bool("dc1"), ctx.bool("sn1"), ctx.real("f1", nonzero=True), ctx.real("fo1", nonzero=True))
    x = list(want)[:n]
    if n == 3:
        want = want[:3] + want[2:3]
    if kind in ("numbers", "array"):
        x[:2] = [int(v) for v in x[:2]]
    arg = tuple(x) if kind == "tuple" else ctx.np.array(x) if kind == "array" else list(x)
    h.notation = arg
    is_notation(ctx, h, want, "given")
    if kind != "tuple":
        arg[0], arg[2] = 7, 11
        is_notation(ctx, h, want, "after the caller's change")
    is_notation(ctx, ctx.world.SpinHamiltonian(cell=CELL, notation=tuple(x)), want, "given on creation")


@REG.scenario("entries one by one", bound="every order of declaring the entries, at every moment the others are undefined", conc=40, variants=[dict(content=c) for c in (False, True)])
def entries(ctx, content):
    h = bare(ctx, content)
    want = dict(zip(ENTRIES, start_notation(ctx)))
    left = list(ENTRIES)
    order = ctx.choice("order", [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1)])
    for k in (None,) + order:
        if k is not None:
            e = ENTRIES[k]
            ctx.raises(f"bad {e}", ERRORS, lambda: setattr(h, e, "abc")) if "factor" in e else None
            setattr(h, e, want[e])
            left.remove(e)
        for e in ENTRIES:
            if e in left:
                ctx.raises(f"undefined {e}", ctx.world.exceptions.NotationError, lambda: getattr(h, e))
            else:
                ctx.eq(f"declared {e}", getattr(h, e), want[e])
        if left:
            ctx.raises("incomplete notation", ctx.world.exceptions.NotationError, lambda: h.notation)
    is_notation(ctx, h, tuple(want.values()), "at last")


@REG.scenario("a bad notation is refused", bound="listed malformed inputs, before and after any notation", conc=3, conc_thorough=20, variants=[dict(bad=b) for b in BAD_NOTATIONS])
def refuse_notation(ctx, bad):
    """and leaves the notation and all parameters as they were"""
    h = bare(ctx)
    before = full_view(h)
    ctx.raises("refused at first", ERRORS, lambda: setattr(h, "notation", BAD_NOTATIONS[bad]))
    ctx.ensure("nothing is declared", [notation_entry(h, k) for k in ENTRIES] == ["undefined"] * 4)
    same_view(ctx, full_view(h), before, "parameters before")
    want = start_notation(ctx)
    h.notation = want
    before = full_view(h)
    ctx.raises("refused", ERRORS, lambda: setattr(h, "notation", BAD_NOTATIONS[bad]))
    is_notation(ctx, h, want, "kept")
    same_view(ctx, full_view(h), before, "parameters")


@REG.scenario("a bad factor is refused", bound="listed malformed inputs", conc=3, conc_thorough=20, variants=[dict(entry=e, bad=b) for e in ENTRIES[2:] for b in ("abc", None, [1.0, 2.0], 1j)])
def refuse_factor(ctx, entry, bad):
    h = bare(ctx)
    want = start_notation(ctx)
    h.notation = want
    before = full_view(h)
    ctx.raises("refused", ERRORS, lambda: setattr(h, entry, bad))
    is_notation(ctx, h, want, "kept")
    same_view(ctx, full_view(h), before, "parameters")


@REG.scenario("notations of several Hamiltonians", bound="two Hamiltonians", conc=20)
def two_hamiltonians(ctx):
    """declaring the notation of one leaves the other and the documented names as they are"""
    g, h = bare(ctx), bare(ctx, False)
    a, b = ctx.choice("first", list(NAMED)), ctx.choice("second", list(NAMED))
    g.notation = a
    h.notation = b
    is_notation(ctx, g, NAMED[a], "first")
    f, fo = ctx.real("f", nonzero=True), ctx.real("fo", nonzero=True)
    g.exchange_factor = f
    h.on_site_factor = fo
    k = ctx.world.SpinHamiltonian(cell=CELL, notation=a)
    is_notation(ctx, k, NAMED[a], "third")
    c = g.copy()
    c.notation = b
    is_notation(ctx, c, NAMED[b], "copy")
    ctx.eq("factor of the first", g.exchange_factor, f)
    ctx.eq("factor of the second", h.on_site_factor, fo)


@REG.scenario("zero axis of a text file", bound="one file", conc=5)
def text_axis(ctx):
    from .c15 import write, cell_lines, atom_lines, line
    v = vector(ctx, "axis", "v", "list")
    h = ctx.world.txt.load_spinham_txt(write(ctx, [cell_lines(ctx), atom_lines(ctx), ["Cone-axis", line(ctx, *v)]]))
    check(ctx, "axis", h.cone_axis, v, "from the file")
    f = write(ctx, [cell_lines(ctx), atom_lines(ctx), ["Cone-axis", "0 0.0 -0"]])
    ctx.raises("zero axis in the file", Exception, lambda: ctx.world.txt.load_spinham_txt(f))
