"""C06: storing, reading or removing a parameter touches only that parameter; nothing is shared with callers or copies."""
from symx.run import Registry
from .common import *

REG = Registry()
REG.assumptions = ["bonds join distinct sites (a != b or R != 0)"]
BOUND = "Hamiltonians with up to three atoms, two interactions and two on-site terms, any keys and values"
DCS = [None, True, False]


def build(ctx, dc, s="ab", t="bc", naming="distinct"):
    at = make_atoms(ctx, 3, naming, spin=None, pos=False)
    h = make_ham(ctx, at)
    if dc is not None:
        h.double_counting = dc
    o, p = orbit(ctx, at, s, 0), orbit(ctx, at, t, 1)
    different_orbits(ctx, o, p)
    put(h, p, "fwd")
    A = rows(ctx.mat("A"))
    h.add_on_site(at[1], matrix=A)
    return at, h, o, p, A


def frame(ctx, h, dc, at, p, A, label):
    """everything except the touched parameter: bond p, on-site A of atom b, the list of atoms"""
    holds(ctx, h, p, bool(dc), p.M, f"{label}: other bond")
    on = [m for a, m in stored_on_site(h) if atom_eq(a, at[1])]
    ctx.ensure(f"{label}: other on-site term is there", len(on) == 1)
    if on:
        ctx.eq(f"{label}: other on-site term", on[0], A)
    ctx.ensure(f"{label}: atoms", len(h.atoms) == len(at) and all(x is y for x, y in zip(h.atoms, at)))


def ref(x, how):
    return {"atom": x, "name": x.name, "full": x.fullname}[how]


@REG.scenario("store and read a bond", bound=BOUND, conc=15, variants=[dict(dc=d, s=s, t=t) for d in DCS for s, t in (("ab", "ab"), ("ab", "bc"), ("aa", "ab"), ("ab", "ba"))])
def store(ctx, dc, s, t):
    w = ctx.world
    at, h, o, p, A = build(ctx, dc, s, t)
    how = ctx.choice("how", ["parameter", "matrix", "item", "parts"])
    as1, as2 = ctx.choice("as", [("atom", "name"), ("name", "atom"), ("full", "name"), ("atom", "atom")])
    key = (ref(o.a, as1), ref(o.b, as2), o.R)
    if how == "parameter":
        h.add_exchange(*key, w.MatrixParameter(matrix=o.M))
    elif how == "matrix":
        h.add_exchange(*key, matrix=o.M)
    elif how == "item":
        h[key] = w.MatrixParameter(matrix=o.M)
    else:
        h.add_exchange(*key, iso=iso_of(o.M), aniso=aniso_of(o.M), dmi=dmi_of(o.M))
    back = (ref(o.a, as2), ref(o.b, as1), o.R)
    ctx.ensure("it is present", back in h)
    ctx.ensure("it is present in the view", (o.a, o.b, o.R) in h)
    ctx.eq("value read back", rows(h[back].matrix), o.M)
    ctx.eq("value read back by atoms", rows(h[o.a, o.b, o.R].matrix), o.M)
    frame(ctx, h, dc, at, p, A, "after")
    total(ctx, h, 4 if dc else 2, "after")
    ctx.ensure("on-site terms", len(stored_on_site(h)) == 1)


@REG.scenario("lookups", bound=BOUND, conc=15, variants=[dict(dc=d, s=s, t=t) for d in DCS for s, t in (("ab", "bc"), ("aa", "ab"), ("ab", "ab"))])
def lookup(ctx, dc, s, t):
    """an absent bond is absent, reading it fails, and nothing changes"""
    at, h, o, p, A = build(ctx, dc, s, t)
    as1, as2 = ctx.choice("as", [("atom", "name"), ("full", "atom"), ("name", "name")])
    key = (ref(o.a, as1), ref(o.b, as2), o.R)
    ctx.ensure("absent bond", not (key in h))
    ctx.raises("reading an absent bond", KeyError, lambda: h[key])
    ctx.ensure("absent on-site term", not (ref(at[0], as1) in h))
    ctx.raises("reading an absent on-site term", KeyError, lambda: h[ref(at[0], as1)])
    ctx.ensure("present bond", (ref(p.a, as1), ref(p.b, as2), p.R) in h)
    ctx.ensure("present on-site term", ref(at[1], as1) in h)
    ctx.eq("on-site value", rows(h[ref(at[1], as2)].matrix), A)
    frame(ctx, h, dc, at, p, A, "after")
    total(ctx, h, 2 if dc else 1, "after")


@REG.scenario("replace a bond", bound=BOUND, conc=15, variants=[dict(dc=d, s=s, t=t) for d in DCS for s, t in (("ab", "ab"), ("aa", "ab"))])
def replace(ctx, dc, s, t):
    at, h, o, p, A = build(ctx, dc, s, t)
    put(h, o, "fwd")
    N = rows(ctx.mat("N"))
    if ctx.bool("item"):
        h[o.a.name, o.b.name, o.R] = ctx.world.MatrixParameter(matrix=N)
    else:
        h.add_exchange(o.a, o.b, o.R, ctx.world.MatrixParameter(matrix=N))
    ctx.eq("new value", rows(h[o.a, o.b, o.R].matrix), N)
    holds(ctx, h, o, bool(dc), N, "after")
    frame(ctx, h, dc, at, p, A, "after")
    total(ctx, h, 4 if dc else 2, "after")


@REG.scenario("remove a bond", bound=BOUND, conc=15, variants=[dict(dc=d, s=s, t=t) for d in DCS for s, t in (("ab", "ab"), ("aa", "ab"), ("ab", "ba"))])
def remove(ctx, dc, s, t):
    at, h, o, p, A = build(ctx, dc, s, t)
    put(h, o, "fwd")
    as1, as2 = ctx.choice("as", [("atom", "name"), ("name", "atom"), ("full", "full")])
    key = (ref(o.a, as1), ref(o.b, as2), o.R)
    how = ctx.choice("how", ["del", "remove", "quiet"])
    if how == "del":
        del h[key]
    elif how == "remove":
        h.remove_exchange(*key)
    else:
        h.remove_exchange(*key, raise_if_no_bond=False)
    ctx.ensure("it is absent", not (key in h))
    holds(ctx, h, o, bool(dc), None, "after")
    frame(ctx, h, dc, at, p, A, "after")
    total(ctx, h, 2 if dc else 1, "after")


@REG.scenario("remove an absent parameter", bound=BOUND, conc=15, variants=[dict(dc=d, s=s, t=t) for d in DCS for s, t in (("ab", "ab"), ("aa", "ab"), ("ab", "bc"))])
def remove_absent(ctx, dc, s, t):
    at, h, o, p, A = build(ctx, dc, s, t)
    how = ctx.choice("how", ["del", "remove", "quiet", "on-site del", "on-site remove", "on-site quiet"])
    as1, as2 = ctx.choice("as", [("atom", "name"), ("name", "atom")])
    key = (ref(o.a, as1), ref(o.b, as2), o.R)
    x = ref(at[0], as1)
    if how == "del":
        ctx.raises("deleting an absent bond", KeyError, lambda: h.__delitem__(key))
    elif how == "remove":
        ctx.raises("removing an absent bond", KeyError, lambda: h.remove_exchange(*key))
    elif how == "quiet":
        h.remove_exchange(*key, raise_if_no_bond=False)
    elif how == "on-site del":
        ctx.raises("deleting an absent on-site term", KeyError, lambda: h.__delitem__(x))
    elif how == "on-site remove":
        ctx.raises("removing an absent on-site term", KeyError, lambda: h.remove_on_site(x))
    else:
        h.remove_on_site(x, raise_if_no_bond=False)
    frame(ctx, h, dc, at, p, A, "after")
    total(ctx, h, 2 if dc else 1, "after")
    ctx.ensure("on-site terms", len(stored_on_site(h)) == 1)


@REG.scenario("on-site terms", bound=BOUND, conc=15, variants=[dict(dc=d, op=o) for d in DCS for o in ("add", "replace", "remove")])
def on_site(ctx, dc, op):
    w = ctx.world
    at, h, o, p, A = build(ctx, dc)
    B = rows(ctx.mat("B"))
    x = ref(at[0], ctx.choice("as", ["atom", "name", "full"]))
    if op != "add":
        h.add_on_site(at[0], matrix=rows(ctx.mat("Old")))
    if op == "remove":
        how = ctx.choice("how", ["del", "remove", "quiet"])
        if how == "del":
            del h[x]
        elif how == "remove":
            h.remove_on_site(x)
        else:
            h.remove_on_site(x, raise_if_no_bond=False)
        ctx.ensure("it is absent", not (x in h) and not (at[0] in h))
        ctx.ensure("number of on-site terms", len(stored_on_site(h)) == 1)
    else:
        how = ctx.choice("how", ["item", "matrix", "parameter"])
        if how == "item":
            h[x] = w.MatrixParameter(matrix=B)
        elif how == "matrix":
            h.add_on_site(x, matrix=B)
        else:
            h.add_on_site(x, w.MatrixParameter(matrix=B))
        ctx.ensure("it is present", (x in h) and (at[0] in h))
        ctx.eq("value", rows(h[at[0]].matrix), B)
        ctx.eq("value by name", rows(h[x].matrix), B)
        ctx.ensure("number of on-site terms", len(stored_on_site(h)) == 2)
    frame(ctx, h, dc, at, p, A, "after")
    total(ctx, h, 2 if dc else 1, "after")


@REG.scenario("unknown atoms are added to the crystal", bound=BOUND, conc=15, variants=[dict(dc=d, op=o) for d in DCS for o in ("bond1", "bond2", "on-site")])
def new_atom(ctx, dc, op):
    at, h, o, p, A = build(ctx, dc)
    x = ctx.world.Atom("X", [0.3, 0.4, 0.5], index=9)
    M = rows(ctx.mat("M"))
    if op == "on-site":
        h.add_on_site(x, matrix=M)
    elif op == "bond1":
        h.add_exchange(x, at[0], o.R, matrix=M)
    else:
        h.add_exchange(at[0], x, o.R, matrix=M)
    ctx.ensure("the atom is in the crystal once", len(h.atoms) == 4 and h.atoms[3] is x and all(u is v for u, v in zip(h.atoms, at)))
    got = h[x] if op == "on-site" else (h[x, at[0], o.R] if op == "bond1" else h[at[0], x, o.R])
    ctx.eq("value", rows(got.matrix), M)
    holds(ctx, h, p, bool(dc), p.M, "other bond")


def spoil(ctx, p, z):
    """overwrite a parameter in place"""
    for c in ("xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"):
        setattr(p, c, z)


@REG.scenario("names stand for the atoms of now", bound=BOUND, conc=20, variants=[dict(dc=d, used=u) for d in DCS for u in ("item", "contains", "add", "remove", "on-site")])
def names(ctx, dc, used):
    """an atom replaced by another one of the same name: the name leads to the parameters of the new one"""
    w = ctx.world
    at = make_atoms(ctx, 3, "distinct", spin=None, pos=False)
    h = make_ham(ctx, at)
    if dc is not None:
        h.double_counting = dc
    o, p = orbit(ctx, at, "ab", 0), orbit(ctx, at, "bc", 1)
    for x in (o, p):
        put(h, x, "fwd")
    name = at[0].name
    key = (name, o.b, o.R)
    A = rows(ctx.mat("A"))
    h.add_on_site(at[0], matrix=A)
    if used == "item":
        ctx.eq("value by name", rows(h[key].matrix), o.M)
    elif used == "contains":
        ctx.ensure("present by name", key in h)
    elif used == "add":
        h.add_exchange(*key, matrix=o.M)
    elif used == "remove":
        h.remove_exchange(*key)
        put(h, o, "fwd")
    else:
        ctx.eq("on-site value by name", rows(h[name].matrix), A)
        h.remove_on_site(name)
        h.add_on_site(name, matrix=A)
    h.remove_atom(name)
    ctx.raises("the name of a removed atom", ValueError, h.add_exchange, *key, matrix=o.M)
    new = w.Atom(name)
    h.add_atom(new)
    ctx.ensure("the new atom has no bond", (new, o.b, o.R) not in h and (name, o.b, o.R) not in h)
    ctx.ensure("the new atom has no on-site term", all(a is not new for a, _ in stored_on_site(h)))
    M, N = rows(ctx.mat("M")), rows(ctx.mat("N"))
    h.add_exchange(name, o.b, o.R, matrix=M)
    h.add_on_site(name, matrix=N)
    ctx.ensure("present by name", key in h)
    ctx.eq("value by name", rows(h[key].matrix), M)
    ctx.eq("value by atom", rows(h[new, o.b, o.R].matrix), M)
    ctx.eq("on-site value by name", rows(h[name].matrix), N)
    ctx.eq("on-site value by atom", rows(h[new].matrix), N)
    holds(ctx, h, p, bool(dc), p.M, "other bond")
    total(ctx, h, 4 if dc else 2, "after")
    ctx.ensure("atoms", [x is y for x, y in zip(h.atoms, [at[1], at[2], new])] == [True] * 3 and len(h.atoms) == 3)
    h.remove_exchange(*key)
    ctx.ensure("absent by name", key not in h)
    total(ctx, h, 2 if dc else 1, "after removal")


@REG.scenario("parameters handed in are not shared", bound=BOUND, conc=15, variants=[dict(dc=d, how=h) for d in DCS for h in ("add", "item", "array", "two bonds", "on-site", "on-site item")])
def not_shared(ctx, dc, how):
    w = ctx.world
    at, h, o, p, A = build(ctx, dc)
    z = ctx.real("z")
    par = w.MatrixParameter(matrix=o.M)
    arr = ctx.array(o.M)
    if how == "add":
        h.add_exchange(o.a, o.b, o.R, par)
    elif how == "item":
        h[o.a, o.b, o.R] = par
    elif how == "array":
        h.add_exchange(o.a, o.b, o.R, matrix=arr)
    elif how == "two bonds":
        h.add_exchange(o.a, o.b, o.R, par)
        h.add_exchange(at[2], at[0], (0, 0, 1), par)
    elif how == "on-site":
        h.add_on_site(at[0], par)
    else:
        h[at[0]] = par
    spoil(ctx, par, z)
    arr[0][0] = z
    arr[1][2] = z
    if how.startswith("on-site"):
        ctx.eq("stored value after the argument changed", rows(h[at[0]].matrix), o.M)
        spoil(ctx, h[at[0]], ctx.real("y"))
    else:
        holds(ctx, h, o, bool(dc), o.M, "after the argument changed")
        spoil(ctx, h[o.a, o.b, o.R], ctx.real("y"))
    if how == "two bonds":
        ctx.eq("second bond after the first changed", rows(h[at[2], at[0], (0, 0, 1)].matrix), o.M)
    ctx.eq("argument after the stored value changed", rows(par.matrix), [[z] * 3] * 3)
    frame(ctx, h, dc, at, p, A, "after")


@REG.scenario("the mirrored bond is its own object", bound=BOUND, conc=10, variants=[dict(s=s) for s in ("ab", "aa")])
def mirror_object(ctx, s):
    at, h, o, p, A = build(ctx, True, s, "bc")
    if ctx.bool("late"):
        h.double_counting = False
        put(h, o, "fwd")
        h.double_counting = True
        f = 0.5
    else:
        put(h, o, "fwd")
        f = 1
    m = h[o.b, o.a, neg3(o.R)]
    spoil(ctx, h[o.a, o.b, o.R], ctx.real("z"))
    ctx.eq("mirrored bond after an in-place change of the bond", rows(m.matrix), scale(f, tr(o.M)))


def full_view(h):
    return (stored(h), stored_on_site(h), [(a.name, a.index, list(a.position), list(a.spin_vector)) for a in h.atoms], rows(h.cell))


def same_view(ctx, v, w, label):
    ctx.ensure(f"{label}: bonds", len(v[0]) == len(w[0]) and all(atom_eq(x[0], y[0]) and atom_eq(x[1], y[1]) for x, y in zip(v[0], w[0])))
    ctx.eq(f"{label}: vectors", [list(x[2]) for x in v[0]], [list(x[2]) for x in w[0]])
    ctx.eq(f"{label}: exchange values", [x[3] for x in v[0]], [x[3] for x in w[0]])
    ctx.ensure(f"{label}: on-site atoms", len(v[1]) == len(w[1]) and all(atom_eq(x[0], y[0]) for x, y in zip(v[1], w[1])))
    ctx.eq(f"{label}: on-site values", [x[1] for x in v[1]], [x[1] for x in w[1]])
    ctx.ensure(f"{label}: names", [x[:2] for x in v[2]] == [x[:2] for x in w[2]])
    ctx.eq(f"{label}: positions", [x[2] for x in v[2]], [x[2] for x in w[2]])
    ctx.eq(f"{label}: spins", [x[3] for x in v[2]], [x[3] for x in w[2]])
    ctx.eq(f"{label}: cell", v[3], w[3])


@REG.scenario("copies are equal and independent", bound=BOUND, conc=20, variants=[dict(op=o) for o in ("parameter", "add", "remove", "notation", "atom", "vectors", "on-site", "rm atom")]
              + [dict(op=o, has=x) for x in ("exchange", "on-site", "nothing") for o in ("parameter", "add", "on-site", "rm atom")])
def copies(ctx, op, has="all"):
    at = make_atoms(ctx, 2, spin="vector")
    n0 = start_notation(ctx)
    h = make_ham(ctx, at, notation=n0, cell=rows(ctx.mat("cell", special=False)))
    o, p = orbit(ctx, at, "ab", 0), orbit(ctx, at, "aa", 1)
    if has in ("all", "exchange"):
        put(h, o, "fwd")
        put(h, p, "fwd")
    if has in ("all", "on-site"):
        h.add_on_site(at[0], matrix=rows(ctx.mat("A")))
    ax, q = [1.0, 0.0, 0.0], list(ctx.vec("q"))
    h.cone_axis = ax
    h.spiral_vector = q
    c = h.copy()
    ctx.ensure("a copy is another object", c is not h)
    same_view(ctx, full_view(c), full_view(h), "copy")
    ctx.eq("copy: notation", list(c.notation), list(n0))
    ctx.eq("copy: cone axis", list(c.cone_axis), ax)
    ctx.eq("copy: spiral vector", list(c.spiral_vector), q)
    x, y = (c, h) if ctx.bool("which") else (h, c)      # change x, watch y
    before = full_view(y)
    z = ctx.real("z")
    if op == "parameter":
        for _, _, _, par in list(x.exchange):
            spoil(ctx, par, z)
        for _, par in list(x.on_site):
            spoil(ctx, par, z)
    elif op == "add":
        x.add_exchange("A", "B", o.R, matrix=[[z] * 3] * 3)
        x.add_exchange("B", "B", (1, 0, 0), matrix=[[z] * 3] * 3)
    elif op == "remove":
        x.remove_exchange("A", "B", o.R)
        x.remove_on_site("A")
    elif op == "notation":
        x.notation = (not n0[0], not n0[1], ctx.real("f", nonzero=True), ctx.real("g", nonzero=True))
    elif op == "atom":
        x.atoms[0].position = [z, z, z]
        x.atoms[0].spin = [1.0, 2.0, 3.0]
    elif op == "vectors":
        x.cone_axis = [0, 0, 1]
        x.spiral_vector = [z, z, z]
        x.spiral_vector[1] = z
    elif op == "on-site":
        x.add_on_site("B", matrix=[[z] * 3] * 3)
    else:
        x.remove_atom("B")
    same_view(ctx, full_view(y), before, "the other one")
    ctx.eq("the other one: notation", list(y.notation), list(n0))
    ctx.eq("the other one: cone axis", list(y.cone_axis), ax)
    ctx.eq("the other one: spiral vector", list(y.spiral_vector), q)


@REG.scenario("copies of an undeclared Hamiltonian", bound=BOUND, conc=20, variants=[dict(has=x) for x in ("all", "exchange", "on-site", "nothing")])
def bare_copies(ctx, has):
    at = make_atoms(ctx, 2, spin="vector")
    h = make_ham(ctx, at, cell=rows(ctx.mat("cell", special=False)))
    o = orbit(ctx, at, "ab", 0)
    if has in ("all", "exchange"):
        put(h, o, "fwd")
    if has in ("all", "on-site"):
        h.add_on_site(at[1], matrix=rows(ctx.mat("A")))
    before = full_view(h)
    c = h.copy()
    same_view(ctx, full_view(c), before, "copy")
    x, y = (c, h) if ctx.bool("which") else (h, c)
    x.notation = start_notation(ctx)
    x.cone_axis, x.spiral_vector = [0, 0, 1], list(ctx.vec("q"))
    z = ctx.real("z")
    for _, _, _, par in list(x.exchange):
        spoil(ctx, par, z)
    for _, par in list(x.on_site):
        spoil(ctx, par, z)
    same_view(ctx, full_view(y), before, "the other one")
    for name in ("double_counting", "spin_normalized", "exchange_factor", "on_site_factor"):
        ctx.raises(f"{name} of the other one stays undefined", ctx.world.exceptions.NotationError, getattr, y, name)
    ctx.ensure("axis and wave vector of the other one stay undefined", y.cone_axis is None and y.spiral_vector is None)


@REG.scenario("the returned crystal is independent", bound=BOUND, conc=20, variants=[dict(op=o) for o in ("position", "spin", "add", "remove", "back")])
def crystal(ctx, op):
    at = make_atoms(ctx, 2, spin="vector")
    h = make_ham(ctx, at, cell=rows(ctx.mat("cell", special=False)))
    o = orbit(ctx, at, "ab", 0)
    put(h, o, "fwd")
    h.add_on_site(at[0], matrix=rows(ctx.mat("A")))
    before = full_view(h)
    c = h.crystal
    view = lambda c: [(a.name, a.index) for a in c.atoms]
    num = lambda c: [(list(a.position), list(a.spin_vector)) for a in c.atoms]
    ctx.ensure("crystal: atoms", view(c) == view(h))
    ctx.eq("crystal: positions and spins", num(c), num(h))
    ctx.eq("crystal: cell", rows(c.cell), rows(h.cell))
    z = ctx.real("z")
    cb = num(c)
    if op == "position":
        c.atoms[0].position = [z, z, z]
        c.atoms[1].position[0] = z
    elif op == "spin":
        c.atoms[0].spin = [1.0, 2.0, 2.0]
    elif op == "add":
        c.add_atom(ctx.world.Atom("X", [z, z, z], index=7))
    elif op == "remove":
        c.remove_atom("A")
    else:
        h.atoms[0].position = [z, z, z]
        h.remove_atom("B")
        ctx.eq("crystal after the Hamiltonian changed", num(c), cb)
        return
    same_view(ctx, full_view(h), before, "after")


@REG.scenario("long histories", sym=False, conc=40, conc_thorough=1500, bound="run-time check: histories of up to 25 operations on up to 3 atoms, against a reference dictionary")
def histories(ctx):
    w = ctx.world
    at = make_atoms(ctx, 3, ctx.choice("naming", ["distinct", "same name", "reversed", "same index"]), spin=None, pos=False)
    h = make_ham(ctx, at)
    dc = ctx.choice("dc", DCS)
    if dc is not None:
        h.double_counting = dc
    ex, on = {}, {}
    for k in range(ctx.int("n", lo=3, hi=25)):
        op = ctx.choice(f"op{k}", ["add", "add", "add", "set", "rm", "del", "on", "onset", "onrm", "get"])
        i, j = ctx.choice(f"i{k}", range(3)), ctx.choice(f"j{k}", range(3))
        R = ctx.ivec(f"R{k}", lo=-1, hi=1)
        if i == j and R == (0, 0, 0):
            R = (0, 0, 1)
        key = (i, j, R)
        m = (j, i, neg3(R))
        M = rows(ctx.mat(f"M{k}"))
        if op in ("add", "set"):
            if op == "add":
                h.add_exchange(at[i], at[j].fullname, R, matrix=M)
            else:
                h[at[i].fullname, at[j], R] = w.MatrixParameter(matrix=M)
            ex[key] = M
            if dc:
                ex[m] = tr(M)
            elif dc is False:
                ex.pop(m, None)
        elif op in ("rm", "del"):
            f = h.remove_exchange if op == "rm" else (lambda a, b, R: h.__delitem__((a, b, R)))
            if key in ex:
                f(at[i], at[j], R)
                del ex[key]
                if dc:
                    ex.pop(m)
            else:
                ctx.raises("removing an absent bond", KeyError, f, at[i], at[j], R)
        elif op == "on":
            h.add_on_site(at[i], matrix=M)
            on[i] = M
        elif op == "onset":
            h[at[i].fullname] = w.MatrixParameter(matrix=M)
            on[i] = M
        elif op == "onrm":
            if i in on:
                h.remove_on_site(at[i].fullname)
                del on[i]
            else:
                ctx.raises("removing an absent on-site term", KeyError, h.remove_on_site, at[i])
        got = {(at.index(a), at.index(b), R): M for a, b, R, M in stored(h)}
        ctx.ensure("keys", set(got) == set(ex), detail=f"{set(got) ^ set(ex)}")
        for q in ex:
            ctx.eq("values", got[q], ex[q])
            ctx.ensure("membership", (at[q[0]], at[q[1]].fullname, q[2]) in h)
        gon = {at.index(a): M for a, M in stored_on_site(h)}
        ctx.ensure("on-site keys", set(gon) == set(on))
        for q in on:
            ctx.eq("on-site values", gon[q], on[q])
        ctx.ensure("atoms", len(h.atoms) == 3)
