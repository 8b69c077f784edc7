"""C05: with double counting every bond has its transposed mirror; without it, none has."""
from symx.run import Registry
from .common import *

REG = Registry()
REG.assumptions = ["bonds join distinct sites (a != b or R != 0)",
                   "two orientations given before the notation is declared are transposes of each other"]
PAIRS = ["ab", "ba", "aa"]
BOUND = "Hamiltonians with up to two (quick) or three (thorough) interactions, any keys and values"


@REG.scenario("declaring the double counting", bound=BOUND, conc=25,
              variants=[dict(s=s, way=w, naming=n) for s in PAIRS for w in ("fwd", "rev", "both") for n in ("distinct", "same index", "same name", "reversed")], budget=30)
def declare(ctx, s, way, naming):
    at = make_atoms(ctx, 2, naming, spin=None, pos=False)
    h = make_ham(ctx, at)
    o = orbit(ctx, at, s, 0)
    put(h, o, way)
    v = stored(h)
    ctx.ensure("undeclared: bonds are stored as given", len(v) == (2 if way == "both" else 1))
    es = sorted(x for x, _ in o.entries(ctx, v))
    ctx.ensure("undeclared: orientation as given", es == {"fwd": [1], "rev": [-1], "both": [-1, 1]}[way])
    for _, m in o.entries(ctx, v):
        ctx.eq("undeclared: value as given", m, o.M)
    dc = ctx.bool("dc")
    h.double_counting = dc
    invariant(ctx, h, dc, "declared")
    holds(ctx, h, o, dc, o.M, "declared")
    ctx.ensure("declared value is reported", h.double_counting == dc)
    h.double_counting = dc
    invariant(ctx, h, dc, "declared again")
    holds(ctx, h, o, dc, o.M, "declared again")
    h.double_counting = not dc
    invariant(ctx, h, not dc, "changed")
    holds(ctx, h, o, not dc, scale(2 if dc else 0.5, o.M), "changed")


@REG.scenario("declaring with two interactions", bound=BOUND, conc=25,
              variants=[dict(s=s, t=t, way=w) for s, t in (("ab", "ab"), ("ab", "aa"), ("aa", "aa"), ("ab", "ba")) for w in ("fwd", "rev", "both")], budget=40)
def declare2(ctx, s, t, way):
    at = make_atoms(ctx, 2, "distinct", spin=None, pos=False)
    h = make_ham(ctx, at)
    o, p = orbit(ctx, at, s, 0), orbit(ctx, at, t, 1)
    different_orbits(ctx, o, p)
    put(h, o, way)
    put(h, p, "fwd")
    dc = ctx.bool("dc")
    h.double_counting = dc
    invariant(ctx, h, dc, "declared")
    for x in (o, p):
        holds(ctx, h, x, dc, x.M, "declared")
    total(ctx, h, 4 if dc else 2, "declared")


def start(ctx, s, t, present, dc, naming="distinct"):
    """state with interaction o absent/stored in either orientation and another interaction p"""
    at = make_atoms(ctx, 2, naming, spin=None, pos=False)
    h = make_ham(ctx, at)
    if dc is not None:
        h.double_counting = dc
    o, p = orbit(ctx, at, s, 0), orbit(ctx, at, t, 1)
    different_orbits(ctx, o, p)
    if present != "absent":
        put(h, o, present)
    put(h, p, "fwd")
    if ctx.bool("order"):
        put(h, p, "rev")
    return at, h, o, p


@REG.scenario("adding or replacing a bond", bound=BOUND, conc=20,
              variants=[dict(s=s, t=t, present=p, dc=d) for s, t in (("ab", "ab"), ("aa", "ab"), ("ab", "aa"), ("aa", "aa")) for p in ("absent", "fwd", "rev") for d in (True, False)], budget=30)
def add(ctx, s, t, present, dc):
    at, h, o, p = start(ctx, s, t, present, dc)
    N = rows(ctx.mat("N"))
    how = ctx.choice("how", ["add", "item", "rev"])
    if how == "add":
        h.add_exchange(o.a, o.b, o.R, matrix=N)
    elif how == "rev":
        h.add_exchange(o.b, o.a, neg3(o.R), matrix=tr(N))
    else:
        h[o.a.name, o.b, o.R] = ctx.world.MatrixParameter(matrix=N)
    invariant(ctx, h, dc, "after")
    holds(ctx, h, o, dc, N, "after")
    holds(ctx, h, p, dc, p.M, "other bond")
    total(ctx, h, 4 if dc else 2, "after")


@REG.scenario("adding before the notation is declared", bound=BOUND, conc=20, variants=[dict(s=s, present=p) for s in PAIRS for p in ("absent", "fwd", "rev", "both")])
def add_undeclared(ctx, s, present):
    at = make_atoms(ctx, 2, "distinct", spin=None, pos=False)
    h = make_ham(ctx, at)
    o = orbit(ctx, at, s, 0)
    if present != "absent":
        put(h, o, present)
    N = rows(ctx.mat("N"))
    h.add_exchange(o.a, o.b, o.R, matrix=N)
    es = dict(o.entries(ctx, stored(h)))
    ctx.ensure("stored exactly as given", sorted(es) == ([-1, 1] if present in ("rev", "both") else [1]))
    ctx.eq("value of the given bond", es.get(1, ZERO), N)
    if -1 in es:
        ctx.eq("the other orientation is untouched", es[-1], o.M)
    total(ctx, h, len(es), "after")


@REG.scenario("removing a bond", bound=BOUND, conc=20,
              variants=[dict(s=s, t=t, dc=d) for s, t in (("ab", "ab"), ("aa", "ab"), ("ab", "aa"), ("aa", "aa"), ("ab", "ba")) for d in (True, False)], budget=30)
def remove(ctx, s, t, dc):
    present = ctx.choice("present", ["fwd", "rev"])
    at, h, o, p = start(ctx, s, t, present, dc)
    f = ctx.choice("how", [lambda a, b, R: h.__delitem__((a, b, R)), h.remove_exchange, lambda a, b, R: h.remove_exchange(a, b, R, raise_if_no_bond=False)])
    way = ctx.choice("way", ["fwd", "rev"]) if dc else present
    if way == "fwd":
        f(o.a, o.b, o.R)
    else:
        f(o.b, o.a, neg3(o.R))
    invariant(ctx, h, dc, "after")
    holds(ctx, h, o, dc, None, "after")
    holds(ctx, h, p, dc, p.M, "other bond")
    total(ctx, h, 2 if dc else 1, "after")


@REG.scenario("change of the notation", bound=BOUND, conc=20,
              variants=[dict(s=s, present=p) for s in PAIRS for p in ("fwd", "rev")], budget=40)
def notation(ctx, s, present):
    at = make_atoms(ctx, 2, "distinct", pos=False)
    n0 = start_notation(ctx)
    h = make_ham(ctx, at, notation=n0)
    o = orbit(ctx, at, s, 0)
    put(h, o, present)
    how = ctx.choice("how", ["all", "spinw", "sn", "f"])
    if how == "all":
        n1 = start_notation(ctx, "n1")
        h.notation = n1
        dc = n1[0]
    elif how == "spinw":
        h.notation = "SpinW"
        dc = True
    elif how == "sn":
        h.spin_normalized = not n0[1]
        dc = n0[0]
    else:
        h.exchange_factor = ctx.real("f", nonzero=True)
        dc = n0[0]
    invariant(ctx, h, dc, "after")
    ctx.ensure("reported", h.double_counting == dc)
    ctx.ensure("no interaction is lost or invented", len(stored(h)) == (2 if dc else 1) == len(o.entries(ctx, stored(h))))


@REG.scenario("filtering by distance", bound=BOUND, conc=25, variants=[dict(s=s, dc=d) for s in PAIRS for d in (True, False)], budget=40)
def filtering(ctx, s, dc):
    at = make_atoms(ctx, 2, "distinct", spin=None)
    h = make_ham(ctx, at, cell=sym_cell(ctx))
    h.double_counting = dc
    o = orbit(ctx, at, s, 0)
    put(h, o, "fwd")
    d = ctx.real("d", nonneg=True)
    if ctx.bool("max"):
        h.filter(max_distance=d)
    else:
        h.filter(min_distance=d)
    invariant(ctx, h, dc, "after")
    n = len(o.entries(ctx, stored(h)))
    ctx.ensure("both orientations or none", n in (0, 2 if dc else 1))


@REG.scenario("removing an atom", bound=BOUND, conc=20, variants=[dict(dc=d) for d in (True, False)])
def rm_atom(ctx, dc):
    at = make_atoms(ctx, 3, "distinct", spin=None, pos=False)
    h = make_ham(ctx, at)
    h.double_counting = dc
    o, p = orbit(ctx, at, "ab", 0), orbit(ctx, at, "bc", 1)
    put(h, o, ctx.choice("w", ["fwd", "rev"]))
    put(h, p, "fwd")
    h.remove_atom(at[0])
    invariant(ctx, h, dc, "after")
    holds(ctx, h, o, dc, None, "after")
    holds(ctx, h, p, dc, p.M, "other bond")


@REG.scenario("two operations in a row", bound=BOUND, conc=30, thorough_variants=[dict(s="ba"), dict(s="ab", t="ba")],
              variants=[dict(s="ab"), dict(s="aa")], budget=50)
def two_ops(ctx, s, t=None):
    at = make_atoms(ctx, 2, "distinct", spin=None, pos=False)
    dc = ctx.bool("dc0")
    h = make_ham(ctx, at)
    h.double_counting = dc
    o = orbit(ctx, at, s, 0)
    ref = None
    if t:
        p = orbit(ctx, at, t, "p")
        different_orbits(ctx, o, p)
        put(h, p, "fwd")
    for k in range(2 if ctx.symbolic else 5):
        op = ctx.choice(f"op{k}", ["add", "addrev", "remove", "toggle"])
        if op == "add":
            ref = rows(ctx.mat(f"N{k}"))
            h.add_exchange(o.a, o.b, o.R, matrix=ref)
        elif op == "addrev":
            ref = rows(ctx.mat(f"N{k}"))
            h.add_exchange(o.b, o.a, neg3(o.R), matrix=tr(ref))
        elif op == "remove":
            h.remove_exchange(o.a, o.b, o.R, raise_if_no_bond=False)
            h.remove_exchange(o.b, o.a, neg3(o.R), raise_if_no_bond=False)
            ref = None
        else:
            dc = not dc
            h.double_counting = dc
            if ref is not None:
                ref = scale(0.5 if dc else 2, ref)
        invariant(ctx, h, dc, "after")
        holds(ctx, h, o, dc, ref, "after")


@REG.scenario("long histories", sym=False, conc=60, conc_thorough=1500, bound="run-time check: histories of up to 25 operations on up to 3 atoms")
def histories(ctx):
    naming = ctx.choice("naming", list(NAMING))
    at = make_atoms(ctx, 3, naming, spin="number", pos=False)
    h = make_ham(ctx, at)
    dc = None
    lit = {}     # undeclared: literal view; declared: orbit view

    def canon(i, j, R):
        m = (j, i, neg3(R))
        return ((i, j, R), 1) if (i, j, R) <= m else (m, -1)
    n = ctx.int("n", lo=3, hi=25)
    for k in range(n):
        op = ctx.choice(f"op{k}", ["add"] * 5 + ["remove"] * 2 + ["toggle", "notation", "atom"])
        i, j = ctx.choice(f"i{k}", range(3)), ctx.choice(f"j{k}", range(3))
        R = ctx.ivec(f"R{k}", lo=-1, hi=1)
        if i == j and R == (0, 0, 0):
            R = (1, 0, 0)
        if op == "add":
            M = rows(ctx.mat(f"M{k}"))
            h.add_exchange(at[i], at[j], R, matrix=M)
            if dc is None:
                lit[i, j, R] = M
                lit.pop((j, i, neg3(R)), None)
                h._exchange.pop((at[j], at[i], neg3(R)), None) if False else None
                if (at[j], at[i], neg3(R)) in h:
                    h.remove_exchange(at[j], at[i], neg3(R))
            else:
                c, sg = canon(i, j, R)
                lit[c] = M if sg > 0 else tr(M)
        elif op == "remove":
            if dc is None:
                if (i, j, R) in lit:
                    h.remove_exchange(at[i], at[j], R)
                    del lit[i, j, R]
            else:
                c, _ = canon(i, j, R)
                h.remove_exchange(at[i], at[j], R, raise_if_no_bond=False)
                h.remove_exchange(at[j], at[i], neg3(R), raise_if_no_bond=False)
                lit.pop(c, None)
        elif op == "toggle" or (op == "notation" and dc is None):
            new = ctx.bool(f"dc{k}")
            h.double_counting = new
            if dc is None:
                lit = {canon(*q)[0]: (M if canon(*q)[1] > 0 else tr(M)) for q, M in lit.items()}
            elif dc != new:
                lit = {q: scale(2 if dc else 0.5, M) for q, M in lit.items()}
            dc = new
        elif op == "notation":
            h.exchange_factor = ctx.choice(f"f{k}", [1.0])
        if dc is None:
            got = {(at.index(a), at.index(b), R): M for a, b, R, M in stored(h)}
            ctx.ensure("undeclared: bonds exactly as given", set(got) == set(lit))
            for q in lit:
                ctx.eq("undeclared: values", got[q], lit[q])
        else:
            invariant(ctx, h, dc, "after")
            total(ctx, h, (2 if dc else 1) * len(lit), "after")
            for q, M in lit.items():
                holds(ctx, h, Orbit(at[q[0]], at[q[1]], q[2], M), dc, M, "after")
