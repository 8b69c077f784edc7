"""C11: steps of the minimisation rotate unit vectors downhill; gradients are the derivatives of the energy."""
from symx.run import Registry
from .common import *
from .c10 import rot, model as cone_model, PHASES
from .c09 import model as cell_model, bonds_of

REG = Registry()
REG.assumptions = ["gradients of the spins and of the axis are compared with the energy replaced by an arbitrary function whose value is quadratic in each "
                   "component (central differences are exact there); for the real energy they are compared numerically (bounded)",
                   "a rotation by less than the machine epsilon may be skipped",
                   "that a minimum is reached in a given number of iterations is not claimed in general (known ground states are checked at run time); "
                   "an L-BFGS matrix built from pairs of positive curvature is positive definite (textbook result), hence directions lead downhill",
                   "energies closer than 1e-11 (relative and absolute) are not distinguished by the line search"]
CASES = ("ferro", "antiferro", "spiral")
BOUND = "up to two magnetic atoms; any directions, axes, wave vectors, search directions and steps"


def pack(ctx, case, dirs, n, q):
    np = ctx.np
    if case == "ferro":
        return np.array([list(d) for d in dirs])
    return [np.array([list(d) for d in dirs] + [list(n)]), np.array(list(q))]


def parts(case, x, k):
    """vectors that are rotated, wave vector"""
    if case == "ferro":
        return [list(v) for v in x], None
    return [list(v) for v in x[0]], list(x[1])


def update(ctx, case, x, g, step):
    return ctx.private(ctx.world.energy, f"_update_x_{case}", x, g, step)


def setup(ctx, E, case):
    k = len(E.spins)
    E._gradient_size = 3 * k + {"ferro": 0, "antiferro": 3, "spiral": 6}[case]
    E._torque_size = k + (case != "ferro")


def grad(ctx, E, case, x):
    un = ctx.private(ctx.world.energy, f"_unpack_{case}", x)
    setup(ctx, E, case)
    return ctx.private(E, f"_{case}_grad", *un)


@REG.scenario("a step keeps lengths", bound=BOUND, conc=20, variants=[dict(case=c, k=k) for c in CASES for k in (1, 2)])
def lengths(ctx, case, k):
    dirs = [ctx.vec(f"d{i}") for i in range(k)]
    n, q = ctx.vec("n"), ctx.vec("q")
    x = pack(ctx, case, dirs, n, q)
    size = 3 * k + {"ferro": 0, "antiferro": 3, "spiral": 6}[case]
    g = ctx.np.array([ctx.real(f"g{i}") for i in range(size)])
    step = ctx.real("step", pos=True)
    y = update(ctx, case, x, g, step)
    v0, q0 = parts(case, x, k)
    v1, q1 = parts(case, y, k)
    ctx.eq("the state is not changed in place", v0, [list(d) for d in dirs] + ([list(n)] if case != "ferro" else []))
    ctx.ensure("same number of vectors", len(v0) == len(v1))
    for a, b in zip(v0, v1):
        ctx.eq("length of a rotated vector", dot(b, b), dot(a, a))
    if case == "antiferro":
        ctx.eq("wave vector is fixed", q1, list(q))
    if case == "spiral":
        ctx.eq("the wave vector is not changed in place", q0, list(q))
        ctx.eq("wave vector moves along the last part of the direction", q1, [a - b * step for a, b in zip(q, list(g)[-3:])])


class Stub:
    """an energy with arbitrary first and second derivatives in every component"""

    def __init__(self, ctx, names):
        self.b = {n: ctx.vec("b_" + n) for n in names}
        self.c = {n: ctx.vec("c_" + n) for n in names}
        self.names = names
        self.calls = 0

    def value(self, vecs):
        e = 0
        for n, v in zip(self.names, vecs):
            for i in range(3):
                e = e + self.b[n][i] * v[i] + self.c[n][i] * v[i] * v[i]
        return e

    def grad(self, n, v):
        return [self.b[n][i] + 2 * self.c[n][i] * v[i] for i in range(3)]


def stubbed(ctx, case, k):
    m = cell_model(ctx, ("ab",) if k == 2 else ("aa",), (), dc=False, sn=False, n=k)
    E = ctx.world.Energy(m.h)
    names = [f"s{i}" for i in range(k)] + (["n"] if case != "ferro" else [])
    st = Stub(ctx, names)

    def f(dirs, n=None, q=None):
        st.calls += 1
        return st.value(list(dirs) + ([n] if n is not None else []))
    setattr(E, case, f)
    return m, E, st


@REG.scenario("a step along the gradient is a rotation about minus the torque", bound=BOUND, conc=20, budget=60,
              variants=[dict(case=c, k=k) for c in CASES for k in (1, 2)])
def downhill(ctx, case, k):
    m, E, st = stubbed(ctx, case, k)
    dirs = [ctx.vec(f"d{i}") for i in range(k)]
    n, q = ctx.vec("n"), ctx.vec("q")
    x = pack(ctx, case, dirs, n, q)
    G, T = grad(ctx, E, case, x)
    if st.calls == 0:
        ctx.unsupported("the gradient is not computed from values of the energy")
    v0, q0 = parts(case, x, k)
    all_ = [list(d) for d in dirs] + ([list(n)] if case != "ferro" else [])
    ctx.eq("evaluating the gradient leaves the state unchanged", v0, all_)
    if q0 is not None:
        ctx.eq("evaluating the gradient leaves the wave vector unchanged", q0, list(q))
    want = [cross(v, st.grad(nm, v)) for nm, v in zip(st.names, all_)]
    ctx.eq("torques", [list(t) for t in T], want, tol=1e-5)
    step = ctx.real("step", pos=True)
    y = update(ctx, case, x, G, step)
    v1, q1 = parts(case, y, k)
    eps = 2.220446049250313e-16
    for v, w, t in zip(all_, v1, want):
        a = [-z * step for z in t]
        th = norm(ctx, a)
        if th < eps:
            continue
        if not ctx.symbolic and th < 1e-3:
            ctx.assume(False)
        ctx.eq("rotated vector", list(w), rot([z / th for z in a], v, ctx.cos(th), ctx.sin(th)), tol=1e-5)


@REG.scenario("in-place evaluation agrees", bound=BOUND, conc=20, variants=[dict(case=c, k=k) for c in CASES for k in (1, 2)])
def inplace(ctx, case, k):
    """buffers passed in are overwritten, whatever they contained, with what is returned otherwise"""
    m, E, st = stubbed(ctx, case, k)
    dirs = [ctx.vec(f"d{i}") for i in range(k)]
    n, q = ctx.vec("n"), ctx.vec("q")
    x = pack(ctx, case, dirs, n, q)
    G, T = grad(ctx, E, case, x)
    G2 = ctx.np.array([ctx.real(f"o{i}") for i in range(len(G))])
    T2 = ctx.np.array([[ctx.real(f"p{i}_{j}") for j in range(3)] for i in range(len(T))])
    un = ctx.private(ctx.world.energy, f"_unpack_{case}", x)
    ctx.private(E, f"_{case}_grad", *un, gradient_vector=G2, torques=T2)
    ctx.eq("gradient", list(G2), list(G))
    ctx.eq("torques", [list(t) for t in T2], [list(t) for t in T])


@REG.scenario("one evaluation after another", bound=BOUND, conc=20, variants=[dict(case=c, k=k) for c in CASES for k in (1, 2)])
def sequence(ctx, case, k):
    """gradients do not depend on what was evaluated before"""
    m, E, st = stubbed(ctx, case, k)
    n, q, delta = ctx.vec("n"), ctx.vec("q"), shift(ctx)
    dirs = [ctx.vec(f"d{i}") for i in range(k)]
    a = pack(ctx, case, dirs, n, q)
    b = pack(ctx, case, [[x + y for x, y in zip(d, delta)] for d in dirs], n, [x + y for x, y in zip(q, delta)])
    fresh = ctx.world.Energy(m.h)
    setattr(fresh, case, getattr(E, case))
    G0, T0 = grad(ctx, fresh, case, b)
    grad(ctx, E, case, a)
    G2, T2 = grad(ctx, E, case, b)
    ctx.eq("gradient", list(G2), list(G0))
    ctx.eq("torques", [list(t) for t in T2], [list(t) for t in T0])


@REG.scenario("derivative with respect to the wave vector", bound="two atoms, one interaction or one and an on-site term, any cell", conc=20, budget=60,
              variants=[dict(shape=s, on=o, dc=a) for s, o in ((("ab",), ()), (("aa",), ()), (("ab",), (0,))) for a in (True, False)])
def wave(ctx, shape, on, dc):
    m, cell = cone_model(ctx, shape, on, dc, False)
    E = ctx.world.Energy(m.h)
    dirs = [nonzero_vec(ctx, f"d{k}") for k in range(len(m.mag))]
    n = nonzero_vec(ctx, "n")
    u, ax, q = [unit(ctx, d) for d in dirs], unit(ctx, n), ctx.vec("q")
    x = pack(ctx, "spiral", u, ax, q)
    # the part that depends on the spins is not looked at here: an arbitrary function replaces it
    G, T = grad(ctx, _frozen(ctx, E), "spiral", x)
    ctx.eq("gradient", list(G)[-3:], slope(ctx, m, cell, u, ax, q))


@REG.scenario("derivative with respect to the wave vector: any number of terms", bound="two atoms; any number of terms (induction over the loop)", conc=20, budget=60,
              variants=[dict(shape=s, on=o, dc=a) for s, o, a in ((("ab",), (), True), (("aa",), (), False), ((), (0,), True))])
def wave_any(ctx, shape, on, dc):
    m, cell = cone_model(ctx, shape, on, dc, False)
    E = _frozen(ctx, ctx.world.Energy(m.h))
    u, ax, q = [unit(ctx, nonzero_vec(ctx, f"d{k}")) for k in range(len(m.mag))], unit(ctx, nonzero_vec(ctx, "n")), ctx.vec("q")
    terms = list(bonds_of(ctx, E))
    ctx.per_term("gradient", lambda b: setattr(E, "_bonds", b), lambda: list(grad(ctx, E, "spiral", pack(ctx, "spiral", u, ax, q))[0])[-3:], terms,
                 slope(ctx, m, cell, u, ax, q), [0, 0, 0])


def slope(ctx, m, cell, u, ax, q):
    want = [0, 0, 0]
    for i, j, R, M in m.terms():
        if all(isinstance(z, int) and z == 0 for z in R):
            continue
        d = vecmat(R, cell)
        c, s = ctx.cos(dot(q, d)), ctx.sin(dot(q, d))
        for c0, s0 in PHASES:
            a = rot(ax, u[i], c0, s0)
            b = rot(ax, u[j], c0 * c - s0 * s, s0 * c + c0 * s)
            e = bilinear(a, M, cross(ax, b)) / 4          # d/dphi of a rotated vector is axis x vector
            want = [w + e * z for w, z in zip(want, d)]
    return want


def _frozen(ctx, E):
    E.spiral = lambda s, n, q: 0 * s[0][0]
    return E


@REG.scenario("torque targets", bound="two or three torques", conc=20, variants=[dict(case=c) for c in CASES])
def targets(ctx, case):
    T = ctx.np.array([[ctx.real(f"t{i}_{j}") for j in range(3)] for i in range(3)])
    r = ctx.private(ctx.world.energy, f"_compute_torque_target_{case}", T)
    k = 3 if case == "ferro" else 2
    ns = [norm(ctx, list(T[i])) for i in range(3)]
    for i in range(k):
        ctx.le("largest torque bounds every torque", ns[i], r[0])
    ctx.ensure("largest torque is one of them", ctx.either(*[ctx.same(r[0], x) for x in ns[:k]]))
    if case != "ferro":
        ctx.eq("torque on the axis", r[1], ns[2])


def guess_of(ctx, case, dirs, n, q):
    return {"ferro": dirs, "antiferro": (dirs, n), "spiral": (dirs, n, q)}[case]


def run(E, case, guess, it, q=(0.0, 0.0, 3.0), **kw):
    if case == "antiferro":
        kw["antiferro_q"] = q
    return E.optimize(case, guess, max_iterations=it, **kw)


@REG.scenario("starting state", bound=BOUND, conc=20, variants=[dict(case=c, k=k) for c in CASES for k in (1, 2)])
def start(ctx, case, k):
    np = ctx.np
    m = cell_model(ctx, ("ab",) if k == 2 else ("aa",), (0,), dc=False, sn=False, n=k)
    E = ctx.world.Energy(m.h)
    dirs = [nonzero_vec(ctx, f"d{i}") for i in range(k)]
    n, q = nonzero_vec(ctx, "n"), ctx.vec("q")
    gd, gn, gq = np.array([list(d) for d in dirs]), np.array(list(n)), np.array(list(q))
    flat = k == 1 and ctx.bool("flat")
    which = ctx.choice("case as", [case, CASES.index(case)])
    r = run(E, which, guess_of(ctx, case, gd[0] if flat else gd, gn, gq), 0, q=gq, **({"antiferro_q": gq} if which == 1 else {}))
    ctx.ensure("what is returned", len(r) == (1 if case == "ferro" else 3))
    ctx.eq("directions are normalised", [list(v) for v in r[0]], [unit(ctx, d) for d in dirs])
    if case != "ferro":
        ctx.eq("axis is normalised", list(r[1]), unit(ctx, n))
        ctx.eq("wave vector", list(r[2]), list(q))
    # copies
    for v in r:
        if v.ndim == 2:
            v[0][0] = 100
        else:
            v[0] = 100
    ctx.eq("the guess is intact", [list(v) for v in gd], [list(d) for d in dirs])
    ctx.eq("the axis of the guess is intact", list(gn), list(n))
    ctx.eq("the wave vector of the guess is intact", list(gq), list(q))


BAD_DIRS = ([[1.0, 0.0, 0.0]], [[1.0, 0.0], [1.0, 0.0]], [[1.0, 0.0, 0.0]] * 3, [1.0, 0.0, 0.0], "abc", [["a", "b", "c"]] * 2, [[1.0, 0.0, 0.0], [1.0]])
BAD_VEC = ([1.0, 0.0], [1.0, 0.0, 0.0, 0.0], [[1.0, 0.0, 0.0]], ["a", "b", "c"], "abc", 1.0)


@REG.scenario("wrong guesses are refused", bound="two atoms", conc=10, variants=[dict(case=c) for c in CASES])
def refuse(ctx, case):
    m = cell_model(ctx, ("ab",), (0,), dc=False, sn=False)
    E = ctx.world.Energy(m.h)
    d, n, q = [[1.0, 2.0, 3.0], [0.0, 1.0, 0.0]], [0.0, 0.0, 1.0], [0.0, 0.0, 3.0]
    for bad in BAD_DIRS:
        ctx.raises("wrong directions", ValueError, run, E, case, guess_of(ctx, case, bad, n, q), 0)
    if case != "ferro":
        for bad in BAD_VEC:
            ctx.raises("wrong axis", ValueError, run, E, case, guess_of(ctx, case, d, bad, q), 0)
        ctx.raises("wrong number of parts", ValueError, run, E, case, (d,), 0)
        ctx.raises("wrong number of parts", ValueError, run, E, case, (d, n, q, q), 0)
        ctx.raises("wrong number of tolerances", ValueError, run, E, case, guess_of(ctx, case, d, n, q), 0, tolerance=(1e-5, 1e-5))
    if case == "spiral":
        for bad in BAD_VEC:
            ctx.raises("wrong wave vector", ValueError, run, E, case, (d, n, bad), 0)
        ctx.raises("two parts", ValueError, run, E, case, (d, n), 0)
    if case == "antiferro":
        for bad in BAD_VEC:
            ctx.raises("wrong wave vector", ValueError, run, E, case, (d, n), 0, q=bad)
        ctx.raises("three parts", ValueError, run, E, case, (d, n, q), 0)
    if case == "ferro":
        ctx.raises("wrong number of tolerances", ValueError, run, E, case, d, 0, tolerance=(1e-5, 1e-5, 1e-5))
    for bad in ("Ferro", 3, None, "cone"):
        ctx.raises("unknown case", ValueError, E.optimize, bad, d)


# -------------------------------------------------------------------------------------------- directions and lengths of the steps
def bfgs(ctx, g, pairs):
    """documented direction: approximation of the inverse Hessian built from pairs (change of the state, change of the gradient)"""
    n = len(g)
    if not pairs:
        return list(g)
    d, y = pairs[-1]
    dot = lambda a, b: sum(x * y for x, y in zip(a, b))
    gam = dot(d, y) / dot(y, y)
    H = [[gam if i == j else 0 for j in range(n)] for i in range(n)]
    for d, y in pairs:
        r = 1 / dot(d, y)
        V = [[(1 if i == j else 0) - r * y[i] * d[j] for j in range(n)] for i in range(n)]
        HV = [[sum(H[i][l] * V[l][j] for l in range(n)) for j in range(n)] for i in range(n)]
        H = [[sum(V[l][i] * HV[l][j] for l in range(n)) + r * d[i] * d[j] for j in range(n)] for i in range(n)]
    return [sum(H[i][j] * g[j] for j in range(n)) for i in range(n)]


@REG.scenario("search directions", bound="up to two variables (six for one step), memory of up to three steps, up to five steps; any gradients, directions and lengths of steps", conc=30, budget=60,
              variants=[dict(m=1, K=2, N=2), dict(m=2, K=2, N=2), dict(m=1, K=3, N=2), dict(m=3, K=1, N=3), dict(m=2, K=3, N=1),
                    dict(m=10, K=1, N=6), dict(m=2, K=3, N=2), dict(m=2, K=5, N=1), dict(m=3, K=3, N=2)])
def directions(ctx, m, K, N):
    np = ctx.np
    h = cell_model(ctx, ("ab",), (0,), dc=False, sn=False)
    E = ctx.world.Energy(h.h)
    E.m = m
    setup(ctx, E, "ferro")
    E._gradient_size = N
    g = [ctx.real(f"g0_{i}") for i in range(N)]
    k, p = ctx.private(E, "_compute_search_direction", 0, np.array(g))
    ctx.eq("first direction is the gradient", list(p), g)
    pairs = []
    dot = lambda a, b: sum(x * y for x, y in zip(a, b))
    for s in range(1, K + 1):
        g1 = [ctx.real(f"g{s}_{i}") for i in range(N)]
        # the direction of the previous step does not matter for the algebra: any vector
        p0 = [ctx.real(f"p{s}_{i}") for i in range(N)]
        lam = ctx.real(f"lam{s}", pos=True)
        d = [-lam * x for x in p0]
        y = [a - b for a, b in zip(g1, g)]
        c = dot(d, y)
        ctx.assume(c > 1e-3 if not ctx.symbolic else (c > 0))
        pairs = (pairs + [(d, y)])[-m:]
        k, p = ctx.private(E, "_compute_search_direction", k + 1, np.array(g1), previous_lambda=lam,
                           previous_gradient_vector=np.array(g), previous_search_direction=np.array(p0))
        ctx.ensure("number of the step", k == s)
        ctx.eq("direction", list(p), bfgs(ctx, g1, pairs), tol=1e-6)
        g = g1
    # negative curvature: the memory is dropped
    g1 = [ctx.real(f"h_{i}") for i in range(N)]
    p0 = [ctx.real(f"r_{i}") for i in range(N)]
    lam = ctx.real("lamh", pos=True)
    ctx.assume(dot(p0, [a - b for a, b in zip(g1, g)]) > 0)
    k, p = ctx.private(E, "_compute_search_direction", k + 1, np.array(g1), previous_lambda=lam,
                       previous_gradient_vector=np.array(g), previous_search_direction=np.array(p0))
    ctx.ensure("starts again", k == 0)
    ctx.eq("with the gradient", list(p), g1)


@REG.scenario("length of a step", bound="line searches of up to four trials; any values of the energy and of its slopes", conc=60, budget=60)
def length(ctx):
    np = ctx.np
    h = cell_model(ctx, ("ab",), (0,), dc=False, sn=False)
    E = ctx.world.Energy(h.h)
    c1, c2 = ctx.real("c1"), ctx.real("c2")
    ctx.assume(c1 > 0)
    ctx.assume(c2 > 0)
    ctx.assume(c1 < 1)
    ctx.assume(c2 < 1)
    E.wolfe_c1, E.wolfe_c2 = c1, c2
    ctx.eq("constants of the conditions", [E.wolfe_c1, E.wolfe_c2], [c1, c2])
    for bad in ("x", None, [1.0, 2.0]):
        ctx.raises("wrong constants are refused", ValueError, setattr, E, "wolfe_c1", bad)
        ctx.raises("wrong constants are refused", ValueError, setattr, E, "wolfe_c2", bad)
    f0, s0 = ctx.real("f0"), ctx.real("s0", pos=True)
    ctx.assume(s0 > 1e-9 * (1 + ctx.np.abs(f0)))                # smaller ones are rounding errors
    vals = {0: (f0, s0)}

    class Enough(Exception):
        pass

    def phi(t):
        if t not in vals:
            i = len(vals)
            if i > 4:
                raise Enough
            vals[t] = (ctx.real(f"f{i}"), ctx.real(f"s{i}"))
        return vals[t]
    p = np.array([1.0])
    try:
        t = ctx.private(E, "_lambda", 0, p, energy=lambda t: phi(t)[0], _unpack=lambda x: (x,), _update=lambda x, d, s: x + s,
                        _grad=lambda t: (np.array([phi(t)[1]]), None))
    except Enough:
        return
    except ValueError:
        ctx.ensure("does not give up after four trials", len(vals) > 4)
        return
    ctx.ensure("the step is forward", t > 0)
    ctx.ensure("the step was tried", t in vals)
    f, s = phi(t)
    err = 1e-11 * ctx.np.abs(f0) + 1e-11
    ctx.le("the energy goes down enough", f, f0 - c1 * t * s0 + err)
    ctx.le("the slope goes down enough", s, c2 * s0)


@REG.scenario("length of a step after many trials", bound="line searches with any number of trials (loop invariant); any values of the energy and of its slopes", conc=60, budget=60,
              variants=[dict(upper=u) for u in (False, True)])
def length_many(ctx, upper):
    """invariant: 0 <= step_min < step, and step < step_max once a step was too long"""
    np = ctx.np
    h = cell_model(ctx, ("ab",), (0,), dc=False, sn=False)
    E = ctx.world.Energy(h.h)
    c1, c2 = ctx.real("c1", lo=0, hi=1), ctx.real("c2", lo=0, hi=1)
    ctx.assume(ctx.both(c1 > 0, c1 < 1))
    ctx.assume(ctx.both(c2 > 0, c2 < 1))
    E.wolfe_c1, E.wolfe_c2 = c1, c2
    f0, s0 = ctx.real("f0"), ctx.real("s0", pos=True)
    ctx.assume(s0 > 1e-9 * (1 + ctx.np.abs(f0)))

    class Head(Exception):
        pass

    if ctx.symbolic:
        from symx.loops import Repeat
        lo, step, hi = ctx.real("lo"), ctx.real("step"), ctx.real("hi") if upper else None
        ctx.assume(ctx.both(lo >= 0, step > lo))
        if upper:
            ctx.assume(step < hi)
        f1, s1 = ctx.real("f1"), ctx.real("s1")
        names = ("step_min", "step", "step_max")

        def state(l):
            if not all(n in l for n in names):
                ctx.unsupported("variables of the line search are gone")
            invariant(l, "before the first trial")
            return dict(zip(names, (lo, step, hi)))

        def invariant(l, when):
            a, t, b = (l[n] for n in names)
            ctx.ensure(f"trials are increasing or in an interval, {when}: any number of trials", ctx.both(a >= 0, t > a))
            if b is not None:
                ctx.ensure(f"trials stay below what was too long, {when}: any number of trials", t < b)

        def again(l):
            invariant(l, "after a trial")
            raise Head

        E._wolfe_iter_max = Repeat(ctx, state, again)
        seen = []

        def phi(t):
            if isinstance(t, int) and t == 0:
                return f0, s0
            if not ctx.same(t, step):
                ctx.unsupported("a trial is not the current step")
            return f1, s1
    else:
        # trials that fail in a given way until the last one
        n = ctx.choice("trials", [1, 2, 3, 5, 8, 13])
        kind = [ctx.choice(f"kind{i}", ["long", "short"]) for i in range(3)]
        end = ctx.real("end")
        seen = [0]
        vals = {0: (f0, s0)}

        def phi(t):
            if t not in vals:
                k = len(vals)
                vals[t] = (f0 - c1 * t * s0 - 1e-3, end * c2 * s0 / 4) if k > n else ((f0 + 1 + abs(f0), 0.0) if kind[k % 3] == "long" or k == 12 else (f0 - c1 * t * s0 - 1, (c2 * s0 + s0) / 2))
            return vals[t]
    try:
        t = ctx.private(E, "_lambda", 0, np.array([1.0]), energy=lambda t: phi(t)[0], _unpack=lambda x: (x,), _update=lambda x, d, s: s if ctx.symbolic else x + s,
                        _grad=lambda t: (np.array([phi(t)[1]]), None))
    except Head:
        return
    if ctx.symbolic and not E._wolfe_iter_max.met:
        ctx.unsupported("the loop over the trials was not met")
    f, s = phi(t)
    ctx.ensure("the step is forward: any number of trials", t > 0)
    ctx.le("the energy goes down enough: any number of trials", f, f0 - c1 * t * s0 + 1e-11 * ctx.np.abs(f0) + 1e-11)
    ctx.le("the slope goes down enough: any number of trials", s, c2 * s0)


# -------------------------------------------------------------------------------------------- run-time, on the public interface
def numeric_torques(E, case, v, q):
    """independent derivative (five-point) of the energy in every rotated vector"""
    import numpy as np
    v = [np.array(z, dtype=float) for z in v]

    def f():
        if case == "ferro":
            return E.ferro(np.array(v))
        return getattr(E, case)(np.array(v[:-1]), v[-1].copy(), np.array(q))
    out, h = [], 1e-3
    for a in v:
        g = np.zeros(3)
        for j in range(3):
            x0 = a[j]
            w = []
            for s in (-2, -1, 1, 2):
                a[j] = x0 + s * h
                w.append(f())
            a[j] = x0
            g[j] = (w[0] - 8 * w[1] + 8 * w[2] - w[3]) / 12 / h
        out.append(np.cross(a, g))
    return out


def weak_model(ctx, k):
    """energies small enough for a step of one to turn no spin by more than pi"""
    shapes = {1: [("aa",)], 2: [("ab",), ("ab", "bb"), ("aa", "ab")], 3: [("ab", "bc"), ("ab", "bc", "ca")]}[k]
    import numpy as np
    dc, sn = ctx.bool("dc"), ctx.bool("sn")
    cell = sym_cell(ctx)
    at = make_atoms(ctx, k, spin="number", pos=False, g_factor=[ctx.real(f"g{i}") for i in range(k)])
    os = [orbit(ctx, at, s, i) for i, s in enumerate(ctx.choice("shape", shapes))]
    for o in os:
        o.M = scale(0.02, o.M)
    return Model(ctx, at, dc, sn, os, {i: scale(0.02, rows(ctx.mat(f"A{i}"))) for i in range(k) if ctx.bool(f"on{i}")}, cell=rows(cell), f=1.0, fo=1.0)


@REG.scenario("gradients of the real energy", sym=False, conc=20, conc_thorough=800, bound="run-time check with up to three atoms: numerical derivatives of the energy to 1e-5",
              variants=[dict(case=c) for c in CASES])
def gradient(ctx, case):
    k = ctx.choice("k", [1, 2, 3])
    m = weak_model(ctx, k)
    E = ctx.world.Energy(m.h)
    if ctx.bool("field"):
        E.magnetic_field = ctx.vec("B")
    dirs, n, q = [unit(ctx, nonzero_vec(ctx, f"d{i}")) for i in range(k)], unit(ctx, nonzero_vec(ctx, "n")), ctx.vec("q")
    x = pack(ctx, case, dirs, n, q)
    G, T = grad(ctx, E, case, x)
    v = [list(d) for d in dirs] + ([list(n)] if case != "ferro" else [])
    want = numeric_torques(E, case, v, q)
    ctx.eq("torques", [list(t) for t in T], [list(t) for t in want], tol=2e-6)
    ctx.eq("state", parts(case, x, k)[0], v)
    step = 0.5
    y = update(ctx, case, x, G, step)
    v1, q1 = parts(case, y, k)
    for a, b, t in zip(v, v1, want):
        th = norm(ctx, t) * step
        if th > 1e-4:
            ctx.eq("rotated vector", list(b), rot([-z * step / th for z in t], a, ctx.cos(th), ctx.sin(th)), tol=1e-5)
    if case == "spiral":
        import numpy as np
        h = 1e-3
        w = []
        for j in range(3):
            e = []
            for s in (-2, -1, 1, 2):
                qq = np.array(q, dtype=float)
                qq[j] += s * h
                e.append(E.spiral(dirs, n, qq))
            w.append((e[0] - 8 * e[1] + 8 * e[2] - e[3]) / 12 / h)
        ctx.eq("wave vector", [(a - b) / step for a, b in zip(q, q1)], w, tol=1e-5)


def search(f, *a, **kw):
    """nothing is claimed when the line search gives up (it reports that; below the accuracy of the numerical gradient it has to)"""
    try:
        return f(*a, **kw)
    except ValueError as e:
        if "Wolfe" not in str(e):
            raise
        return None


@REG.scenario("iterations of the minimisation", sym=False, conc=6, conc_thorough=300, bound="run-time check with up to three atoms and four iterations",
              variants=[dict(case=c) for c in CASES])
def iterations(ctx, case):
    k = ctx.choice("k", [1, 2, 3])
    m = weak_model(ctx, k)
    E = ctx.world.Energy(m.h)
    E.wolfe_c2, E.wolfe_c1 = ctx.choice("c2", [0.9, 0.5, 0.2]), ctx.choice("c1", [1e-4, 0.1])
    dirs, n, q = [nonzero_vec(ctx, f"d{i}") for i in range(k)], nonzero_vec(ctx, "n"), ctx.vec("q")
    g = guess_of(ctx, case, dirs, n, q)
    if ctx.bool("random"):
        g = ctx.choice("part", {"ferro": [None], "antiferro": [None, (None, n), (dirs, None)], "spiral": [None, (None, n, q), (dirs, None, q), (dirs, n, None)]}[case])
    it = ctx.choice("it", [1, 2, 4])
    import os
    old = os.getcwd()
    os.chdir(ctx.scratch())
    try:
        r = search(run, E, case, g, it, q=q)
    finally:
        os.chdir(old)
    if r is None:
        ctx.assume(False)
    ctx.ensure("what is returned", len(r) == (1 if case == "ferro" else 3))
    ctx.ensure("shape", r[0].shape == (k, 3))
    vs = [list(v) for v in r[0]] + ([list(r[1])] if case != "ferro" else [])
    for v in vs:
        ctx.eq("unit vector", dot(v, v), 1.0)
    if case == "antiferro":
        ctx.eq("wave vector is fixed", list(r[2]), list(q))
    if it == 1 and g is not None and all(z is not None for z in (g if case != "ferro" else [1])):
        v0 = [unit(ctx, d) for d in dirs] + ([unit(ctx, n)] if case != "ferro" else [])
        T = numeric_torques(E, case, v0, q)
        for a, b, t in zip(v0, vs, T):
            tn = norm(ctx, t)
            if 1e-4 < tn < 2.5:
                ctx.le("the first step turns the vector about the torque axis", abs(dot(b, t)) / tn, 1e-4)
                ctx.le("the first step goes downhill", dot(cross(a, b), t) / tn, 1e-6)
        if case == "spiral":
            import numpy as np
            e = lambda qq: E.spiral(dirs, n, qq)
            gq = []
            for j in range(3):
                d = np.zeros(3); d[j] = 1e-4
                gq.append((e(np.array(q) + d) - e(np.array(q) - d)) / 2e-4)
            sh = [b - a for a, b in zip(q, r[2])]
            if norm(ctx, gq) > 1e-3:
                ctx.le("the wave vector goes against its gradient", dot(sh, gq) / norm(ctx, gq), 1e-9)
                ctx.eq("along it", cross(sh, [z / norm(ctx, gq) for z in gq]), [0, 0, 0], tol=1e-4)


@REG.scenario("the energy goes down", sym=False, conc=6, conc_thorough=200, bound="run-time check with up to three atoms and six iterations",
              variants=[dict(case=c) for c in CASES])
def descends(ctx, case):
    """the state after n + 1 iterations lies below the one after n iterations"""
    k = ctx.choice("k", [1, 2, 3])
    m = weak_model(ctx, k)
    E = ctx.world.Energy(m.h)
    if ctx.bool("field"):
        E.magnetic_field = ctx.vec("B")
    E.m = ctx.choice("m", [1, 2, 10])
    dirs, n, q = [nonzero_vec(ctx, f"d{i}") for i in range(k)], nonzero_vec(ctx, "n"), ctx.vec("q")
    es = []
    for it in range(6):
        r = search(run, E, case, guess_of(ctx, case, dirs, n, q), it, q=q, tolerance=(1e-12,) * (2 if case == "ferro" else 3))
        if r is None:
            break
        es.append(getattr(E, case)(*r))
    for a, b in zip(es, es[1:]):
        ctx.le("energy of the next state", b, a + 1e-9 * (1 + abs(a)))


@REG.scenario("minima", sym=False, conc=6, conc_thorough=150, bound="run-time check with up to three atoms; at most 400 iterations",
              variants=[dict(case=c) for c in CASES])
def minima(ctx, case):
    """when the minimisation stops by itself the torques of the returned state are below the tolerance"""
    k = ctx.choice("k", [1, 2, 3])
    m = weak_model(ctx, k)
    E = ctx.world.Energy(m.h)
    if ctx.bool("field"):
        E.magnetic_field = ctx.vec("B")
    dirs, n, q = [nonzero_vec(ctx, f"d{i}") for i in range(k)], nonzero_vec(ctx, "n"), ctx.vec("q")
    tol = ctx.choice("tol", [1e-3, 1e-5, None])
    kw = {} if tol is None else dict(tolerance=(tol,) * (2 if case == "ferro" else 3))
    tol = 1e-5 if tol is None else tol
    it = 400
    r = search(run, E, case, guess_of(ctx, case, dirs, n, q), it, q=q, **kw)
    again = search(run, E, case, guess_of(ctx, case, dirs, n, q), it + 1, q=q, **kw)
    if r is None or again is None or any((a != b).any() for a, b in zip(r, again)):
        ctx.assume(False)               # not converged yet
    vs = [list(v) for v in r[0]] + ([list(r[1])] if case != "ferro" else [])
    for t in numeric_torques(E, case, vs, q if case != "spiral" else r[2]):
        ctx.le("torque", norm(ctx, list(t)), tol * (1 + 1e-3) + 1e-8)


@REG.scenario("known ground states", sym=False, conc=3, conc_thorough=60, bound="run-time check: ferromagnets and antiferromagnets with one or two atoms, up to 400 iterations",
              variants=[dict(case=c) for c in CASES])
def known(ctx, case):
    """a chain with isotropic interactions (and an easy axis) reaches the energy of the ordered state"""
    import numpy as np
    w = ctx.world
    J, S = ctx.choice("J", [0.2, 1.0, 7.0]), ctx.choice("S", [0.5, 1.0, 2.0])
    A = ctx.choice("A", [0.0, 0.1, 0.5]) if case == "ferro" else 0.0
    ax = np.array(unit(ctx, nonzero_vec(ctx, "ax")))
    h = w.SpinHamiltonian(cell=[[3.0, 0.0, 0.0], [0.0, 4.0, 0.0], [0.5, 0.0, 5.0]], notation=(True, False, 1.0, 1.0))
    two = case == "ferro" and ctx.bool("two")
    af = ctx.bool("af") if two or case == "spiral" else case == "antiferro"
    sgn = 1 if af else -1
    at = [w.Atom(nm, (0.5 * i, 0, 0), spin=S) for i, nm in enumerate("AB"[:1 + two])]
    for a in at:
        h.add_atom(a)
        if A:
            h.add_on_site(a, matrix=-A * np.outer(ax, ax))
    if two:
        h.add_exchange(at[0], at[1], (0, 0, 0), iso=sgn * J)
        h.add_exchange(at[0], at[1], (-1, 0, 0), iso=sgn * J)
    else:
        h.add_exchange(at[0], at[0], (1, 0, 0), iso=sgn * J)
    want = (-4 * J if two else -2 * J) * S * S - A * S * S * len(at)
    E = w.Energy(h)
    dirs, n = [nonzero_vec(ctx, f"d{i}") for i in range(1 + two)], nonzero_vec(ctx, "n")
    for d in dirs:
        ctx.assume(abs(dot(unit(ctx, d), list(ax))) > 0.05)
        ctx.assume(abs(dot(unit(ctx, d), unit(ctx, n))) < 0.95)
    if two:
        ctx.assume(abs(dot(unit(ctx, dirs[0]), unit(ctx, dirs[1]))) < 0.95)
    q = np.array([0.5, 0.0, 0.0]) @ h.reciprocal_cell if af else np.zeros(3)
    if case == "spiral":
        q = np.array([ctx.choice("turn", [0.07, 0.2, 0.31, 0.43]), 0.1, -0.2]) @ h.reciprocal_cell
    r = run(E, case, guess_of(ctx, case, dirs, n, q), 400, q=q, tolerance=(1e-9, 1e-5) if case == "ferro" else (1e-9, 1e-5, 1e-5))
    ctx.eq("energy", getattr(E, case)(*r), want, tol=1e-4)
