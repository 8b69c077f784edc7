"""C13: bosonic diagonalisation gives the spectrum and a para-unitary transformation; frequencies are those of the magnon matrix."""
from symx.run import Registry
from .common import *
from .c12 import Cx, cx, cpl, model

REG = Registry()
REG.assumptions = ["numpy's Cholesky factorisation, Hermitian eigen-decomposition and inverse satisfy their defining equations (2x2: closed form)"]


def cmul(a, b):
    return [[_sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def _sum(it):
    r = Cx(0)
    for x in it:
        r = r + x
    return r


def cadj(a):
    return [[a[j][i].conj() for j in range(len(a))] for i in range(len(a[0]))]


def cm(m):
    return [[cx(x) for x in r] for r in m]


def flat(m):
    return [[[x.re, x.im] for x in r] for r in m]


def diag(v):
    return [[Cx(v[i] if i == j else 0) for j in range(len(v))] for i in range(len(v))]


def contract(ctx, D, E, G, tol=1e-7):
    """D: list of lists of Cx"""
    n = len(D)
    N = n // 2
    E = [cx(e) for e in E]
    ctx.ensure("number of energies", len(E) == n)
    ctx.eq("energies are real", [e.im for e in E], [0] * n)
    E = [e.re for e in E]
    for e in E:
        ctx.le("energies are not negative", 0, e)
    for i in range(N - 1):
        ctx.le("first half is descending", E[i + 1], E[i])
        ctx.le("second half is ascending", E[N + i], E[N + i + 1])
    G = cm(G)
    g = [1] * N + [-1] * N
    ctx.eq("commutation metric", flat(cmul(cmul(G, diag(g)), cadj(G))), flat(diag(g)), tol=tol)
    ctx.eq("diagonalisation", flat(cmul(cmul(cadj(G), diag(E)), G)), flat(D), tol=tol)


@REG.scenario("failure is reported", bound="2x2 matrices (one magnetic atom), all entries", conc=60, budget=60, variants=[dict(real=r) for r in (True, False)])
def one(ctx, real):
    a, b = ctx.real("a"), ctx.real("b")
    c = Cx(ctx.real("c"), 0 if real else ctx.real("d"))
    det = a * b - c.re * c.re - c.im * c.im
    if ctx.symbolic:
        ctx.linalg["eigh"] = lambda m: (ctx.array([-1, 1]), ctx.array([[1, 0], [0, 1]]))     # not part of this contract
        ctx.linalg["inv"] = lambda m: ctx.array([[1, 0], [0, 1]])
    else:
        # away from singular matrices; the sign of the first pivot alone is decided without rounding
        ctx.assume((a < 0 and ctx.mode == "small") or (abs(det) > 1e-3 and abs(a) > 1e-2))
    D = [[Cx(a), c.conj()], [c, Cx(b)]]
    M = ctx.np.array([[x.re + 1j * x.im for x in r] for r in D]) if not real else ctx.np.array([[x.re for x in r] for r in D])
    pd = ctx.both(a > 0, det > 0)
    try:
        ctx.world.diag.solve_via_colpa(M)
    except ctx.world.exceptions.ColpaFailed:
        ctx.ensure("failure is reported only for matrices that are not positive definite", ctx.neg(pd))
        return
    ctx.ensure("a matrix that is not positive definite is a failure", pd)


def rot(ctx, n, i, j, t, ph=None):
    """unitary rotation of components i and j"""
    c, s = ctx.cos(t), ctx.sin(t)
    e = Cx(1) if ph is None else Cx(ctx.cos(ph), ctx.sin(ph))
    m = [[Cx(1 if a == b else 0) for b in range(n)] for a in range(n)]
    m[i][i], m[j][j] = Cx(c), Cx(c)
    m[i][j], m[j][i] = Cx(-s) * e, Cx(s) * e.conj()
    return m


def boost(ctx, n, i, j, s, ph=None):
    """para-unitary mixing of a particle and a hole component"""
    c = ctx.sqrt(1 + s * s)
    e = Cx(1) if ph is None else Cx(ctx.cos(ph), ctx.sin(ph))
    m = [[Cx(1 if a == b else 0) for b in range(n)] for a in range(n)]
    m[i][i], m[j][j] = Cx(c), Cx(c)
    m[i][j], m[j][i] = Cx(s) * e, Cx(s) * e.conj()
    return m


def mat_of(ctx, m):
    return ctx.np.array([[x.re + 1j * x.im for x in r] for r in m])


def prod(*ms):
    r = ms[0]
    for m in ms[1:]:
        r = cmul(r, m)
    return r


CASES = {
    "one mode": (1, [(0, 1, True)], [(0, 1, True)]),
    "two modes, mixed": (2, [(0, 2, False), (1, 3, True)], [(0, 1, False), (2, 3, False)]),
    "two modes, pair": (2, [(0, 3, False)], [(0, 1, True), (0, 2, False)]),
    "two modes, four": (2, [(0, 2, False), (1, 2, False)], [(1, 2, False), (0, 3, True)]),
    "three modes": (3, [(0, 5, True), (1, 3, False)], [(0, 4, False), (2, 5, True)]),
}


@REG.scenario("para-unitary diagonalisation", bound="positive-definite matrices P^+ diag P of one to three modes, P and the eigenvectors products of symbolic two-component boosts and rotations",
              conc=60, budget=60, variants=[dict(case=c) for c in CASES])
def para(ctx, case):
    """every positive-definite D is P^+ |L| P with a para-unitary P; the factorisation K^+ K = D and the eigenvectors U of
    K g K^+ are then any K = U |L|^(1/2) P and U: the contracts of cholesky and eigh, with every choice they leave open"""
    N, boosts, rots = CASES[case]
    n = 2 * N
    l = [ctx.real(f"l{i}", lo=0.01, hi=100) for i in range(n)]
    for i in range(N - 1):
        ctx.assume(l[i + 1] <= l[i])
        ctx.assume(l[N + i] <= l[N + i + 1])
    P = [[Cx(1 if a == b else 0) for b in range(n)] for a in range(n)]
    Pi = P
    for k, (i, j, ph) in enumerate(boosts):
        s, f = ctx.real(f"s{k}", lo=-2, hi=2), ctx.real(f"f{k}") if ph else None
        P = cmul(boost(ctx, n, i, j, s, f), P) if (i < N) != (j < N) else cmul(rot(ctx, n, i, j, s, f), P)
    g = diag([1] * N + [-1] * N)
    Pi = prod(g, cadj(P), g)
    U = [[Cx(1 if a == b else 0) for b in range(n)] for a in range(n)]
    for k, (i, j, ph) in enumerate(rots):
        U = cmul(rot(ctx, n, i, j, ctx.real(f"t{k}"), ctx.real(f"h{k}") if ph else None), U)
    D = prod(cadj(P), diag(l), P)
    real = not any(x[2] for x in boosts)
    M = mat_of(ctx, D) if not real else ctx.np.array([[x.re for x in r] for r in D])
    if ctx.symbolic:
        q = [ctx.sqrt(x) for x in l]
        K = prod(U, diag(q), P)
        Kc, Ki = cadj(K), prod(Pi, diag([1 / x for x in q]), cadj(U))
        order = [N + i for i in range(N)][::-1] + list(range(N))[::-1]

        def known(x, m):
            return ctx.holds_eq(flat(cm(x)), flat(m))

        def cholesky(x):
            if not known(x, D):
                ctx.unsupported("another matrix is factorised")
            return mat_of(ctx, Kc)

        def eigh(x):
            if not known(x, prod(K, g, Kc)):
                ctx.unsupported("the eigenvectors of another matrix are used")
            ev = [-l[i] if i >= N else l[i] for i in order]
            return ctx.array(ev), mat_of(ctx, [[U[r][i] for i in order] for r in range(n)])

        def inv(x):
            if known(x, K):
                return mat_of(ctx, Ki)
            if known(x, Kc):
                return mat_of(ctx, cadj(Ki))
            ctx.unsupported("another matrix is inverted")
        ctx.linalg.update(cholesky=cholesky, eigh=eigh, inv=inv)
    E, G = ctx.world.diag.solve_via_colpa(M)
    contract(ctx, D, E, G)
    ctx.eq("energies", [cx(e).re for e in E], l)


def random_pd(ctx, N, kind):
    """positive-definite Hermitian matrix of size 2N"""
    import numpy as np
    n = 2 * N
    if kind == "general":
        X = np.array([[ctx.real(f"a{i}{j}") + 1j * ctx.real(f"b{i}{j}") for j in range(n)] for i in range(n)])
        D = X @ X.conj().T + 0.3 * np.eye(n)
    elif kind == "real":
        X = np.array([[ctx.real(f"a{i}{j}") for j in range(n)] for i in range(n)])
        D = X @ X.T + 0.3 * np.eye(n)
    elif kind == "magnon":          # [[A, B], [B*, A*]]: every energy twice
        X = np.array([[ctx.real(f"a{i}{j}") + 1j * ctx.real(f"b{i}{j}") for j in range(N)] for i in range(N)])
        A = X @ X.conj().T
        Y = np.array([[ctx.real(f"p{i}{j}") + 1j * ctx.real(f"q{i}{j}") for j in range(N)] for i in range(N)])
        B = Y + Y.T
        D = np.block([[A, B], [B.conj(), A.conj()]])
        w = np.linalg.eigvalsh(D)[0]
        D = D + (0.5 - min(w, 0)) * np.eye(n)
    else:                           # degenerate modes: several equal energies, mixed by a para-unitary transformation
        e = [ctx.choice(f"e{i}", [1.0, 1.0, 2.0]) for i in range(N)]
        Z = np.array([[ctx.real(f"a{i}{j}") + 1j * ctx.real(f"b{i}{j}") for j in range(N)] for i in range(N)])
        W = np.linalg.qr(Z + 3 * np.eye(N))[0]
        t = ctx.real("t", lo=-1.0, hi=1.0)
        P = np.block([[np.cosh(t) * W, np.sinh(t) * W], [np.sinh(t) * W.conj(), np.cosh(t) * W.conj()]])
        D = P.conj().T @ np.diag(e + e) @ P
        D = (D + D.conj().T) / 2
    return D


@REG.scenario("several modes", sym=False, conc=40, conc_thorough=3000, bound="run-time check: 2 to 5 modes, general, real, magnon-like and degenerate matrices",
              variants=[dict(kind=k) for k in ("general", "real", "magnon", "degenerate")])
def several(ctx, kind):
    import numpy as np
    N = ctx.choice("N", [1, 2, 3, 4, 5])
    D = random_pd(ctx, N, kind)
    given = D.copy()
    E, G = ctx.world.diag.solve_via_colpa(given.tolist() if ctx.bool("list") else given)
    ctx.eq("the matrix passed in is intact", cpl(given), cpl(D))
    contract(ctx, cm(D), E, G, tol=1e-6)
    w = np.linalg.eigvals(np.diag([1.0] * N + [-1.0] * N) @ D)
    ctx.eq("energies of the first half", list(E[:N]), sorted((z.real for z in w if z.real > 0), reverse=True), tol=1e-5)
    ctx.eq("energies of the second half", list(E[N:]), sorted(-z.real for z in w if z.real < 0), tol=1e-5)


@REG.scenario("failures", sym=False, conc=40, conc_thorough=1000, bound="run-time check: matrices with a negative eigenvalue are refused")
def failures(ctx):
    import numpy as np
    N = ctx.choice("N", [1, 2, 3])
    D = random_pd(ctx, N, ctx.choice("kind", ["general", "real", "magnon"]))
    w, U = np.linalg.eigh(D)
    k = ctx.int("k", lo=0, hi=2 * N - 1)
    w[k] = -abs(w[k])
    D = U @ np.diag(w) @ U.conj().T
    ctx.raises("not positive definite", ctx.world.exceptions.ColpaFailed, ctx.world.diag.solve_via_colpa, (D + D.conj().T) / 2)


# ------------------------------------------------------------------------------------------------ frequencies
def with_stub(ctx, attempts):
    """the diagonalisation replaced by its contract: fails or returns arbitrary energies; its arguments are recorded"""
    d = ctx.world.disp
    if not hasattr(d, "solve_via_colpa") or not hasattr(d, "ColpaFailed"):
        ctx.unsupported("the diagonalisation is called under another name")
    old = d.solve_via_colpa

    class Stub:
        calls = []

        def __enter__(self):
            def f(D):
                self.calls.append(cpl(D))
                k = len(self.calls)
                ok = attempts(k, D)
                if ok is None:
                    raise d.ColpaFailed
                return ok
            self.calls = []
            d.solve_via_colpa = f
            return self

        def __exit__(self, *a):
            d.solve_via_colpa = old
    return Stub()


@REG.scenario("frequencies at a wave vector", bound="one or two magnetic atoms; whichever attempt of the diagonalisation succeeds, any energies", conc=40, budget=60,
              variants=[dict(N=n, ok=k) for n in (1, 2) for k in (1, 2, 3, 4, None)])
def frequency(ctx, N, ok):
    np = ctx.np
    m, cell = model(ctx, ("aa",) if N == 1 else ("ab",), (), True, False, n=N, cell=ctx.array(CELL), pos=False)
    d = ctx.world.disp.MagnonDispersion(m.h)
    k = [0.5, 0.25, 0.125]
    h = cpl(d.h(k))
    e = [ctx.real(f"w{i}", lo=0.01) for i in range(2 * N)]
    G = [[Cx(ctx.real(f"r{i}{j}"), ctx.real(f"s{i}{j}")) for j in range(2 * N)] for i in range(2 * N)]

    def attempt(c, D):
        if ok is None or c < ok:
            return None
        return np.array(list(e)), np.array([[x.re + 1j * x.im for x in r] for r in G])
    with with_stub(ctx, attempt) as st:
        want_g = ctx.bool("return_G")
        none = ctx.bool("zeros_to_none") if ok is not None else False
        r = d.omega(k, return_G=want_g, zeros_to_none=none)
        calls = list(st.calls)
    om = r[0] if want_g else r
    if ok is None or len(calls) < ok:
        if not calls:
            ctx.unsupported("the diagonalisation is not called")
        ctx.eq("no frequency when nothing can be diagonalised", list(om)[:N], [0] * N)
        return
    used = calls[-1]
    n = 2 * N
    plus, minus = [], []
    for i in range(n):
        for j in range(n):
            for t in range(2):
                plus.append((used[i][j][t], h[i][j][t], i == j and t == 0))
                minus.append((used[i][j][t], -h[i][j][t], i == j and t == 0))

    def close(l):
        return ctx.both(*[ctx.both(a - b <= (1.1e-8 if dg else 1e-12), b - a <= (1.1e-8 if dg else 1e-12)) for a, b, dg in l])
    sign = 1 if _yes(close(plus)) else (-1 if _yes(close(minus)) else 0)
    if sign == 1 and _yes(close(minus)):
        ctx.assume(False)               # a matrix that is zero (within the shift) is also its own negative
    ctx.ensure("what is diagonalised is the magnon matrix or its negative (up to a shift of 1e-8)", sign != 0)
    ctx.eq("frequencies", [cx(z).re for z in list(om)[:N]], [sign * z for z in e[:N]])
    if want_g:
        ctx.ensure("all energies are returned with the transformation", len(om) == n)
        ctx.eq("energies", [cx(z).re for z in om], [sign * z for z in e])
        g2 = cm(r[1])
        ctx.ensure("transformation is the one found, up to its sign", ctx.either(ctx.same(flat(g2), flat(G)), ctx.same(flat(g2), [[[-x.re, -x.im] for x in row] for row in G])))
    else:
        ctx.ensure("one frequency per magnetic atom", len(om) == N)


def _yes(c):
    return c is True or (c is not False and bool(c))


def oracle(h, N):
    """positive eigenvalues of g h, in descending order, for positive-definite h"""
    import numpy as np
    w = np.linalg.eigvals(np.diag([1.0] * N + [-1.0] * N) @ h)
    return sorted((z.real for z in w if z.real > 0), reverse=True)


@REG.scenario("frequencies of the Hamiltonian", sym=False, conc=60, conc_thorough=3000, bound="run-time check: up to three atoms, states stabilised (or destabilised) by on-site terms",
              variants=[dict(sign=s) for s in (1, -1, "semi", "-semi")])
def end_to_end(ctx, sign):
    import numpy as np
    n = ctx.choice("n", [1, 2, 3])
    cell = sym_cell(ctx)
    at = make_atoms(ctx, n, ctx.choice("naming", ["distinct", "reversed"]), spin=None)
    axis = unit(ctx, nonzero_vec(ctx, "axis"))
    sg = -1 if sign in (-1, "-semi") else 1
    for k, a in enumerate(at):
        a.spin = [x * ctx.choice(f"S{k}", [0.5, 1.0, 2.0]) for x in axis]
    cand = [o for o in [orbit(ctx, at, s, k) for k, s in enumerate({1: ("aa", "aa"), 2: ("ab", "bb"), 3: ("ab", "bc", "ca")}[n])]]
    os = []
    for o in cand:
        if not any((o.a is p.a and o.b is p.b and o.R == p.R) or (o.a is p.b and o.b is p.a and o.R == neg3(p.R)) for p in os):
            os.append(o)
    if sign in ("semi", "-semi"):
        for o in os:
            o.M = scale(-sg * (abs(o.M[0][0]) + 0.1), ID)
        A = {}
        k = [0.0, 0.0, 0.0]
    else:
        A = {i: scale(-40.0 * sg, [[x * y for y in axis] for x in axis]) for i in range(n)}
        k = list(ctx.vec("k"))
    m = Model(ctx, at, True, False, os, A, cell=rows(cell), f=1.0, fo=1.0)
    d = ctx.world.disp.MagnonDispersion(m.h)
    N = len(m.mag)
    h = d.h(k)
    w = np.linalg.eigvalsh(sg * h)
    if sign in ("semi", "-semi"):
        ctx.assume(w[0] > -1e-9)
        got = d.omega(k)
        ww = np.linalg.eigvals(np.diag([1.0] * N + [-1.0] * N) @ (sg * h + 1e-8 * np.eye(2 * N)))
        want = [sg * z for z in sorted((z.real for z in ww), reverse=True)[:N]]
        for a, b in zip(got, want):
            ctx.ensure("frequency of a semi-definite matrix", abs(a - b) < 2e-3 * max(1.0, abs(b)), detail=f"{a} {b}")
        return
    ctx.assume(w[0] > 0.05)
    got = d.omega(k)
    ctx.ensure("one frequency per magnetic atom", got.shape == (N,))
    ctx.eq("frequencies", list(got), [sg * z for z in oracle(sg * h, N)], tol=1e-6)
    E, G = d.omega(k, return_G=True)
    g = np.diag([1.0] * N + [-1.0] * N)
    ctx.eq("para-unitary", cpl(G @ g @ G.conj().T), cpl(g + 0j), tol=1e-6)
    ctx.eq("diagonalises", cpl(G.conj().T @ np.diag(E) @ G), cpl(h), tol=1e-6)


class Points:
    pass


@REG.scenario("lists of wave vectors", bound="up to three points; the frequencies of each point replaced by arbitrary values", conc=40,
              variants=[dict(n=n, form=f) for n in (1, 2, 3) for f in ("list", "array", "tuples")])
def many(ctx, n, form):
    np = ctx.np
    m, cell = model(ctx, ("ab",), (), True, False, cell=ctx.array(CELL), pos=False)
    d = ctx.world.disp.MagnonDispersion(m.h)
    pts = [[ctx.real(f"k{i}{j}") for j in range(3)] for i in range(n)]
    a, b = ctx.vec("a"), ctx.vec("b")
    seen = []

    def omega(k, zeros_to_none=False, **kw):
        seen.append((list(k), zeros_to_none))
        return np.array([dot(a, k), dot(b, k)])
    d.omega = omega
    given = {"list": [list(p) for p in pts], "array": np.array(pts), "tuples": tuple(tuple(p) for p in pts)}[form]
    z = ctx.bool("zeros_to_none")
    f = ctx.choice("how", ["omegas", "call"])
    r = (d.omegas if f == "omegas" else d)(given, zeros_to_none=z)
    if not seen:
        ctx.unsupported("frequencies of a list do not use those of a point")
    ctx.ensure("shape", r.shape == (2, n))
    for i, p in enumerate(pts):
        ctx.eq("frequencies of the point", [r[0][i], r[1][i]], [dot(a, p), dot(b, p)])
    ctx.ensure("options are passed on", all(s[1] == z for s in seen))


@REG.scenario("lists of wave vectors with the real frequencies", sym=False, conc=20, conc_thorough=600, bound="run-time check with two atoms and up to four points, lists and Kpoints")
def many_real(ctx):
    import numpy as np
    at = make_atoms(ctx, 2, spin=None)
    for k, a in enumerate(at):
        a.spin = [0.0, 0.0, ctx.real(f"S{k}", pos=True)]
    o = orbit(ctx, at, "ab", 0)
    m = Model(ctx, at, True, False, [o], {i: scale(-40.0, [[0, 0, 0], [0, 0, 0], [0, 0, 1]]) for i in range(2)}, f=1.0, fo=1.0)
    d = ctx.world.disp.MagnonDispersion(m.h)
    pts = [list(ctx.vec(f"k{i}")) for i in range(ctx.choice("n", [1, 2, 4]))]
    one = np.array([d.omega(p) for p in pts]).T
    ctx.eq("list", d.omegas(pts).tolist(), one.tolist())
    ctx.eq("call", d(np.array(pts)).tolist(), one.tolist())
    kp = ctx.world.wulfric.Kpoints([1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0], coordinates=[[0.0, 0.0, 0.0], [0.5, 0.0, 0.0], [0.5, 0.5, 0.0]], names=["G", "X", "M"], labels=["G", "X", "M"], path="G-X-M", n=3)
    r = d.omegas(kp)
    w = np.array([d.omega(p) for p in kp.points()]).T
    ctx.eq("k-points", r.tolist(), w.tolist())
