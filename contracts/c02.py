"""C02: setting one part leaves the other parts alone."""
from symx.run import Registry
from .common import *

REG = Registry()
COMP = ["xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"]
STEPS = ["iso", "aniso", "dmi", "matrix", "element"]


def state(p):
    return [p.iso, rows(p.aniso), list(p.dmi), rows(p.matrix)]


def step(ctx, p, what, tag):
    """set one part, check the whole view"""
    iso0, an0, d0, m0 = state(p)
    if what == "iso":
        x = ctx.real(tag + "iso")
        p.iso = x
        new = [x, an0, d0]
    elif what == "aniso":
        x = sym_traceless(ctx, tag + "an")
        p.aniso = x
        new = [iso0, x, d0]
    elif what == "dmi":
        x = list(ctx.vec(tag + "d"))
        p.dmi = x
        new = [iso0, an0, x]
    elif what == "matrix":
        x = rows(ctx.mat(tag + "m"))
        p.matrix = x
        new = [iso_of(x), aniso_of(x), dmi_of(x)]
    else:
        k = ctx.choice(tag + "which", range(9))
        x = ctx.real(tag + "x")
        setattr(p, COMP[k], x)
        m1 = [list(r) for r in m0]
        m1[k // 3][k % 3] = x
        ctx.eq("element setter touches one element", rows(p.matrix), m1)
        ctx.eq("element reads back", getattr(p, COMP[k]), x)
        new = [iso_of(m1), aniso_of(m1), dmi_of(m1)]
    ctx.eq(f"iso after setting {what}", p.iso, new[0])
    ctx.eq(f"aniso after setting {what}", rows(p.aniso), new[1])
    ctx.eq(f"dmi after setting {what}", list(p.dmi), new[2])
    ctx.eq(f"matrix after setting {what}", rows(p.matrix), addm(addm(scale(new[0], ID), new[1]), dmi_matrix(new[2])))


@REG.scenario("one setter from any state", variants=[dict(what=s) for s in STEPS], conc=60,
              note="any history: the contract starts from an arbitrary matrix, which is the whole state")
def one(ctx, what):
    p = ctx.world.MatrixParameter(matrix=rows(ctx.mat("M")))
    step(ctx, p, what, "n")


@REG.scenario("two setters in a row", variants=[dict(a=s, b=t) for s in STEPS for t in STEPS], conc=15, budget=20)
def two(ctx, a, b):
    p = ctx.world.MatrixParameter()
    ctx.eq("a fresh parameter is zero", rows(p.matrix), ZERO)
    step(ctx, p, a, "n")
    step(ctx, p, b, "k")


@REG.scenario("own copy of the input", conc=40, variants=[dict(what=s) for s in ["init", "matrix", "aniso", "dmi"]])
def own_copy(ctx, what):
    w, np = ctx.world, ctx.np
    if what == "dmi":
        x = ctx.vec("x")
    elif what == "aniso":
        x = ctx.array(sym_traceless(ctx, "x"))
    else:
        x = ctx.mat("x")
    if what == "init":
        p = w.MatrixParameter(matrix=x)
    else:
        p = w.MatrixParameter(matrix=rows(ctx.mat("M")))
        setattr(p, what, x)
    m0 = rows(p.matrix)
    y = ctx.real("y")
    if what == "dmi":
        x[1] = y
    else:
        x[1][2] = y
        x[0][0] = y
    ctx.eq("later changes of the input are not seen", rows(p.matrix), m0)
    i0, a0, d0 = p.iso, rows(p.aniso), list(p.dmi)
    x0 = list(x) if what == "dmi" else rows(x)
    z = ctx.real("z")
    p.xx = z
    p.iso = z
    p.dmi = [z, z, z]
    p.aniso = [[z, 0, 0], [0, -z, 0], [0, 0, 0]]
    p.zy = z
    ctx.eq("changes of the parameter do not reach the input", list(x) if what == "dmi" else rows(x), x0)


BAD = ["short", "long", "text", "flat", "ragged"]


@REG.scenario("wrong values are refused", conc=20, variants=[dict(what=s, bad=b) for s in ["matrix", "aniso", "dmi", "init"] for b in BAD], budget=10)
def refused(ctx, what, bad):
    w = ctx.world
    M = rows(ctx.mat("M"))
    p = w.MatrixParameter(matrix=M)
    if what == "dmi":
        val = {"short": [1.0, 2.0], "long": [1.0, 2.0, 3.0, 4.0], "text": "abc", "flat": 5.0, "ragged": [[1, 2], [3]]}[bad]
    else:
        val = {"short": [[1.0, 2.0, 3.0]] * 2, "long": [[1.0, 2, 3, 4]] * 3, "text": "abc", "flat": [1.0, 2.0, 3.0], "ragged": [[1, 2, 3], [3, 4, 5], [6]]}[bad]
    if what == "init":
        ctx.raises("constructor refuses it", ValueError, lambda: w.MatrixParameter(matrix=val))
    else:
        ctx.raises("setter refuses it", ValueError, lambda: setattr(p, what, val))
        ctx.eq("and changes nothing", rows(p.matrix), M)


@REG.scenario("wrong element or iso is refused", conc=10, variants=[dict(what=s) for s in COMP + ["iso"]], budget=10)
def refused_scalar(ctx, what):
    w = ctx.world
    M = rows(ctx.mat("M"))
    p = w.MatrixParameter(matrix=M)
    ctx.raises("text is refused", (ValueError, TypeError), lambda: setattr(p, what, "abc"))
    ctx.eq("and changes nothing", rows(p.matrix), M)
