"""C01: an interaction matrix is exactly the sum of its physical parts."""
from symx.run import Registry
from .common import *

REG = Registry()


@REG.scenario("decomposition of a matrix", conc=120)
def decomposition(ctx, how="matrix"):
    w = ctx.world
    M = rows(ctx.mat("M"))
    p = w.MatrixParameter(matrix=M)
    ctx.eq("matrix is stored", rows(p.matrix), M)
    ctx.eq("iso is a third of the trace", p.iso, iso_of(M))
    ctx.eq("iso matrix", rows(p.iso_matrix), scale(iso_of(M), ID))
    ctx.eq("symmetric part", rows(p.symm_matrix), [[(M[i][j] + M[j][i]) / 2 for j in range(3)] for i in range(3)])
    an = rows(p.aniso)
    ctx.eq("aniso is symmetric", an, tr(an))
    ctx.eq("aniso is traceless", trace(an), 0)
    ctx.eq("aniso", an, aniso_of(M))
    ctx.eq("diagonal of aniso", [p.aniso_diagonal[i] for i in range(3)], [aniso_of(M)[i][i] for i in range(3)])
    ctx.eq("diagonal matrix of aniso", rows(p.aniso_diagonal_matrix), [[aniso_of(M)[i][i] if i == j else 0 for j in range(3)] for i in range(3)])
    asy = rows(p.asymm_matrix)
    ctx.eq("antisymmetric part", asy, [[(M[i][j] - M[j][i]) / 2 for j in range(3)] for i in range(3)])
    ctx.eq("dmi matrix", rows(p.dmi_matrix), asy)
    u, v = list(ctx.vec("u")), list(ctx.vec("v"))
    d = [p.dmi[i] for i in range(3)]
    ctx.eq("dmi vector gives D.(u x v)", bilinear(u, asy, v), dot(d, cross(u, v)))
    ctx.eq("parts add up", addm(addm(rows(p.iso_matrix), an), asy), M)
    ctx.eq("symm + asymm", addm(rows(p.symm_matrix), asy), M)
    ctx.eq("aliases", [p.I, rows(p.S), rows(p.A)], [p.iso, an, asy])
    ctx.eq("reading changes nothing", rows(p.matrix), M)


@REG.scenario("derived quantities", conc=80)
def derived(ctx):
    w = ctx.world
    M = rows(ctx.mat("M"))
    p = w.MatrixParameter(matrix=M)
    d = dmi_of(M)
    ctx.eq("components", [p.xx, p.xy, p.xz, p.yx, p.yy, p.yz, p.zx, p.zy, p.zz], [x for r in M for x in r])
    ctx.eq("transposed", rows(p.T.matrix), tr(M))
    ctx.eq("transposed dmi", [p.T.dmi[i] for i in range(3)], [-x for x in d])
    mod = p.dmi_module
    ctx.eq("module squared", mod * mod, dot(d, d))
    ctx.ensure("module is not negative", mod >= 0)
    ctx.assume(ctx.neg(ctx.same(iso_of(M), 0)))
    if not ctx.symbolic and abs(iso_of(M)) < 1e-3:
        return
    r = p.rel_dmi
    ctx.eq("relative dmi squared", r * r * iso_of(M) * iso_of(M), dot(d, d))
    ctx.ensure("relative dmi is not negative", r >= 0)


@REG.scenario("built from its parts", conc=40, variants=[dict(mask=k) for k in range(16)], budget=20)
def from_parts(ctx, mask):
    w = ctx.world
    kw = {}
    M = ZERO
    if mask & 8:
        M = rows(ctx.mat("M"))
        kw["matrix"] = M
    iso, an, d = iso_of(M) if mask & 8 else 0, aniso_of(M), dmi_of(M)
    if mask & 1:
        iso = kw["iso"] = ctx.real("iso")
    if mask & 2:
        an = kw["aniso"] = sym_traceless(ctx, "an")
    if mask & 4:
        d = kw["dmi"] = list(ctx.vec("d"))
    p = w.MatrixParameter(**kw)
    ctx.eq("iso", p.iso, iso)
    ctx.eq("aniso", rows(p.aniso), an)
    ctx.eq("dmi", list(p.dmi), d)
    ctx.eq("matrix", rows(p.matrix), addm(addm(scale(iso, ID), an), dmi_matrix(d)))
