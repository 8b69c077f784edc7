"""C08: iterating a Hamiltonian visits every parameter exactly once with its value."""
from symx.run import Registry
from .common import *
from .c06 import full_view, same_view

REG = Registry()
REG.assumptions = ["bonds join distinct sites (a != b or R != 0)", "factors are non-zero"]
BOUND = "Hamiltonians with up to three atoms, two interactions and two on-site terms, any keys, values and notations"


def build(ctx, shape, on, n0, naming="distinct", atoms=3):
    at = make_atoms(ctx, atoms, naming, spin=None, pos=False)
    h = make_ham(ctx, at, notation=n0)
    os = []
    for k, s in enumerate(shape):
        o = orbit(ctx, at, s, k)
        for p in os:
            different_orbits(ctx, p, o)
        os.append(o)
        put(h, o, "fwd")
    A = {}
    for k in on:
        A[k] = rows(ctx.mat(f"A{k}"))
        h.add_on_site(at[k], matrix=A[k])
    return at, h, os, A


def expected(h, os, dc):
    out = []
    for o in os:
        out.append((o.a, o.b, o.R, o.M))
        if dc:
            out.append((o.b, o.a, neg3(o.R), tr(o.M)))
    return out


def match(ctx, got, want, label):
    """got and want are the same multiset of (atom, atom, R, matrix)"""
    ctx.ensure(f"{label}: number of items", len(got) == len(want), detail=f"{len(got)} for {len(want)}")
    for w in want:
        hit = [g for g in got if is_key(ctx, g, w[0], w[1], w[2])]
        ctx.ensure(f"{label}: each key exactly once", len(hit) == 1, detail=len(hit))
        if hit:
            ctx.eq(f"{label}: value", hit[0][3], w[3])


SHAPES = [(), ("ab",), ("aa",), ("ab", "ab"), ("ab", "aa"), ("ab", "bc"), ("ab", "ba")]


@REG.scenario("exchange view", bound=BOUND, conc=20, variants=[dict(shape=s) for s in SHAPES])
def exchange(ctx, shape):
    dc = ctx.bool("dc")
    at, h, os, A = build(ctx, shape, (0,), (dc, False, ctx.real("f", nonzero=True), ctx.real("fo", nonzero=True)))
    before = full_view(h)
    view = h.exchange
    n = len(view)
    items = list(view)
    ctx.ensure("items have four entries", all(len(i) == 4 for i in items))
    want = expected(h, os, dc)
    match(ctx, [(a, b, R, rows(p.matrix)) for a, b, R, p in items], want, "first pass")
    ctx.ensure("reported number", n == len(want))
    match(ctx, [(a, b, R, rows(p.matrix)) for a, b, R, p in h.exchange], want, "second pass")
    for a, b, R, p in items:
        ctx.ensure("the value yielded is the stored one", h[a, b, R] == p)
    same_view(ctx, full_view(h), before, "after")


@REG.scenario("on-site view", bound=BOUND, conc=20, variants=[dict(on=o) for o in ((), (0,), (1, 0), (2, 0, 1))])
def on_site(ctx, on):
    at, h, os, A = build(ctx, ("ab",), on, (True, False, ctx.real("f", nonzero=True), ctx.real("fo", nonzero=True)))
    before = full_view(h)
    for label in ("first pass", "second pass"):
        view = h.on_site
        n = len(view)
        items = list(view)
        ctx.ensure(f"{label}: number", n == len(items) == len(on))
        for k in on:
            hit = [p for a, p in items if atom_eq(a, at[k])]
            ctx.ensure(f"{label}: each atom exactly once", len(hit) == 1)
            if hit:
                ctx.eq(f"{label}: value", rows(hit[0].matrix), A[k])
    same_view(ctx, full_view(h), before, "after")


@REG.scenario("combined view", bound=BOUND, conc=20, variants=[dict(shape=s, on=o) for s in SHAPES for o in ((), (0,), (1, 0))])
def combined(ctx, shape, on):
    dc = ctx.bool("dc")
    f, fo = ctx.real("f", nonzero=True), ctx.real("fo", nonzero=True)
    at, h, os, A = build(ctx, shape, on, (dc, ctx.bool("sn"), f, fo))
    before = full_view(h)
    want = expected(h, os, dc)
    for k in on:
        want.append((at[k], at[k], (0, 0, 0), scale(fo / f, A[k])))
    for label in ("first pass", "second pass"):
        view = h.exchange_like
        n = len(view)
        got = [(a, b, R, rows(p.matrix)) for a, b, R, p in view]
        match(ctx, got, want, label)
        ctx.ensure(f"{label}: reported number", n == len(want))
    for a, b, R, p in h.exchange_like:
        if atom_eq(a, b) and bool(ctx.same(R, (0, 0, 0))):
            for c in ("xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"):
                setattr(p, c, 7.0)
    same_view(ctx, full_view(h), before, "after")


@REG.scenario("combined view without on-site terms needs no on-site factor", bound=BOUND, conc=20, variants=[dict(shape=s) for s in SHAPES[1:]])
def no_on_site_factor(ctx, shape):
    dc, sn = ctx.bool("dc"), ctx.bool("sn")
    at = make_atoms(ctx, 3, spin=None, pos=False)
    m = Model(ctx, at, dc, sn, [orbit(ctx, at, s, k) for k, s in enumerate(shape)], {}, partial=True)
    h, os = m.h, m.os
    want = expected(h, os, dc)
    for label in ("first pass", "second pass"):
        view = h.exchange_like
        n = len(view)
        match(ctx, [(a, b, R, rows(p.matrix)) for a, b, R, p in view], want, label)
        ctx.ensure(f"{label}: reported number", n == len(want))


@REG.scenario("current values", bound=BOUND, conc=20, variants=[dict(shape=s) for s in (("ab",), ("aa",))])
def current(ctx, shape):
    """the views show the values after replacements, notation changes and removals"""
    dc = ctx.bool("dc")
    f, fo = ctx.real("f", nonzero=True), ctx.real("fo", nonzero=True)
    at, h, os, A = build(ctx, shape, (0,), (dc, False, f, fo))
    list(h.exchange), list(h.on_site), list(h.exchange_like)
    N, B = rows(ctx.mat("N")), rows(ctx.mat("B"))
    h.add_exchange(os[0].a, os[0].b, os[0].R, matrix=N)
    h.add_on_site(at[0], matrix=B)
    h.add_on_site(at[1], matrix=N)
    os[0].M = N
    g = ctx.real("g", nonzero=True)
    h.exchange_factor = g
    want = [(a, b, R, scale(f / g, M)) for a, b, R, M in expected(h, os, dc)]
    match(ctx, stored(h), want, "exchange")
    want += [(at[0], at[0], (0, 0, 0), scale(fo / g, B)), (at[1], at[1], (0, 0, 0), scale(fo / g, N))]
    match(ctx, [(a, b, R, rows(p.matrix)) for a, b, R, p in h.exchange_like], want, "combined")
    h.remove_on_site(at[0])
    ctx.ensure("after removal", [a.name for a, _ in h.on_site] == ["B"] and len(h.exchange_like) == len(want) - 1)


@REG.scenario("nested iteration", bound=BOUND, conc=20, variants=[dict(view=v) for v in ("exchange", "on_site", "exchange_like")])
def nested(ctx, view):
    at, h, os, A = build(ctx, ("ab", "bc"), (0, 1), (ctx.bool("dc"), False, ctx.real("f", nonzero=True), ctx.real("fo", nonzero=True)))
    n = len(getattr(h, view))
    pairs = 0
    for x in getattr(h, view):
        inner = 0
        for y in getattr(h, view):
            inner += 1
        ctx.ensure("inner loop is complete", inner == n)
        pairs += 1
    ctx.ensure("outer loop is complete", pairs == n)
    v = getattr(h, view)
    w = getattr(h, view)
    next(v)
    ctx.ensure("views are independent", len(list(w)) == n)
    ctx.ensure("a started view goes on", len(list(v)) == n - 1)


@REG.scenario("magnetic atoms", bound=BOUND, conc=20, variants=[dict(shape=s, on=o, naming=n) for s in ((), ("ab",), ("aa",), ("cb",), ("cc", "ca")) for o in ((), (0,), (2, 1)) for n in ("distinct", "same name", "reversed")])
def magnetic(ctx, shape, on, naming):
    at, h, os, A = build(ctx, shape, on, (ctx.bool("dc"), False, 1.0, 1.0) if ctx.bool("declared") else None, naming)
    want = {id(o.a) for o in os} | {id(o.b) for o in os} | {id(at[k]) for k in on}
    for label in ("first", "second"):
        m = h.magnetic_atoms
        ctx.ensure(f"{label}: each once", len(m) == len(want) and len({id(x) for x in m}) == len(m))
        ctx.ensure(f"{label}: exactly those with parameters", {id(x) for x in m} == want)
        ctx.ensure(f"{label}: ordered by index", all(x.index <= y.index for x, y in zip(m, m[1:])))
        ctx.ensure(f"{label}: count", h.I == len(want))
    ctx.ensure("atoms of the crystal", len(h.atoms) == 3 and all(x is y for x, y in zip(h.atoms, at)))


@REG.scenario("magnetic atoms in the order of any indices", bound="three atoms with arbitrary distinct integer indices", conc=30)
def magnetic_sym(ctx):
    w = ctx.world
    ix = [ctx.int(f"i{k}", lo=0, hi=30) for k in range(3)]
    for i in range(3):
        for j in range(i):
            ctx.assume(ctx.neg(ctx.same(ix[i], ix[j])))
    at = [w.Atom(n, [0.1, 0.2, 0.3], index=i) for n, i in zip(("A", "B", "C"), ix)]
    h = make_ham(ctx, at)
    h.add_exchange(at[0], at[1], (0, 0, 1), iso=1)
    h.add_on_site(at[2], iso=1)
    m = h.magnetic_atoms
    ctx.ensure("all three", len(m) == 3)
    for x, y in zip(m, m[1:]):
        ctx.ensure("ordered by index", x.index < y.index)


@REG.scenario("large models", sym=False, conc=60, conc_thorough=2000, bound="run-time check with up to 3 atoms and 60 interactions")
def large(ctx):
    n0 = start_notation(ctx)
    at = make_atoms(ctx, 3, ctx.choice("naming", list(NAMING)), spin=None, pos=False)
    h = make_ham(ctx, at, notation=n0)
    os = []
    for k in range(ctx.int("n", lo=0, hi=ctx.choice("most", [12, 12, 12, 60]))):
        o = orbit(ctx, at, ctx.choice(f"s{k}", ["ab", "bc", "ca", "aa", "bb", "cc"]), k)
        if any((o.a is p.a and o.b is p.b and o.R in (p.R,)) or (o.a is p.b and o.b is p.a and o.R == neg3(p.R)) for p in os):
            continue
        os.append(o)
        put(h, o, ctx.choice(f"w{k}", ["fwd"]))
    on = [k for k in range(3) if ctx.bool(f"on{k}")]
    A = {k: rows(ctx.mat(f"A{k}")) for k in on}
    for k in on:
        h.add_on_site(at[k], matrix=A[k])
    want = expected(h, os, n0[0])
    match(ctx, stored(h), want, "exchange")
    want += [(at[k], at[k], (0, 0, 0), scale(n0[3] / n0[2], A[k])) for k in on]
    match(ctx, [(a, b, R, rows(p.matrix)) for a, b, R, p in h.exchange_like], want, "combined")
    ids = {id(o.a) for o in os} | {id(o.b) for o in os} | {id(at[k]) for k in on}
    m = h.magnetic_atoms
    ctx.ensure("magnetic atoms", len(m) == len(ids) and {id(x) for x in m} == ids and all(x.index <= y.index for x, y in zip(m, m[1:])))
