"""C03: arithmetic on parameters is arithmetic on matrices; operands are never disturbed."""
from symx.run import Registry
from .common import *

REG = Registry()
UN = ["neg", "pos", "abs", "T"]
BIN = ["add", "sub"]
NUM = ["mul", "rmul", "div"]
MAT = ["matmul", "rmatmul", "matmul_vec", "rmatmul_vec", "rmatmul_list", "rmatmul_list_vec", "matmul_parameter"]


def disturb(ctx, p, tag):
    """write through every public route of p"""
    z = ctx.real("z" + tag)
    for c in ("xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"):
        setattr(p, c, z)


def result(ctx, op):
    w = ctx.world
    A = rows(ctx.mat("A"))
    p = w.MatrixParameter(matrix=A)
    q = B = None
    if op == "neg":
        r, spec = -p, scale(-1, A)
    elif op == "pos":
        r, spec = +p, A
    elif op == "abs":
        r = abs(p)
        spec = None
        got = rows(r.matrix)
        for i in range(3):
            for j in range(3):
                ctx.ensure("absolute value is not negative", got[i][j] >= 0)
        ctx.eq("absolute value squared", [[x * x for x in row] for row in got], [[x * x for x in row] for row in A])
    elif op == "T":
        r, spec = p.T, tr(A)
    elif op in BIN:
        B = rows(ctx.mat("B"))
        q = w.MatrixParameter(matrix=B)
        r, spec = (p + q, addm(A, B)) if op == "add" else (p - q, subm(A, B))
    elif op == "mul":
        x = ctx.real("x")
        r, spec = p * x, scale(x, A)
    elif op == "rmul":
        x = ctx.real("x")
        r, spec = x * p, scale(x, A)
    elif op == "div":
        x = ctx.real("x", nonzero=True)
        r, spec = p / x, scale(1 / x, A)
    return p, A, q, B, r, spec


@REG.scenario("operators", variants=[dict(op=o) for o in UN + BIN + NUM], conc=60)
def operators(ctx, op):
    w = ctx.world
    p, A, q, B, r, spec = result(ctx, op)
    ctx.ensure("the result is a parameter", isinstance(r, w.MatrixParameter), detail=type(r).__name__)
    ctx.ensure("the result is a new object", r is not p and r is not q)
    if spec is not None:
        ctx.eq("value", rows(r.matrix), spec)
    ctx.eq("left operand", rows(p.matrix), A)
    if q is not None:
        ctx.eq("right operand", rows(q.matrix), B)
    r0 = rows(r.matrix)
    disturb(ctx, r, "r")
    ctx.eq("left operand after changing the result", rows(p.matrix), A)
    if q is not None:
        ctx.eq("right operand after changing the result", rows(q.matrix), B)


@REG.scenario("result survives changes of operands", variants=[dict(op=o) for o in UN + BIN + NUM], conc=60)
def survives(ctx, op):
    p, A, q, B, r, spec = result(ctx, op)
    r0 = rows(r.matrix)
    disturb(ctx, p, "p")
    if q is not None:
        disturb(ctx, q, "q")
    ctx.eq("value after changing the operands", rows(r.matrix), r0)


@REG.scenario("same operand twice", variants=[dict(op=o) for o in BIN], conc=40)
def twice(ctx, op):
    A = rows(ctx.mat("A"))
    p = ctx.world.MatrixParameter(matrix=A)
    r = p + p if op == "add" else p - p
    ctx.eq("value", rows(r.matrix), scale(2, A) if op == "add" else ZERO)
    ctx.eq("operand", rows(p.matrix), A)


@REG.scenario("augmented assignment", variants=[dict(op=o) for o in ["add", "sub", "mul", "div"]], conc=40)
def augmented(ctx, op):
    """p op= x must not disturb the object another name still refers to, unless it is a documented in-place operator"""
    w = ctx.world
    A, B = rows(ctx.mat("A")), rows(ctx.mat("B"))
    x = ctx.real("x", nonzero=True)
    p = other = w.MatrixParameter(matrix=A)
    q = w.MatrixParameter(matrix=B)
    if op == "add":
        p += q
        spec = addm(A, B)
    elif op == "sub":
        p -= q
        spec = subm(A, B)
    elif op == "mul":
        p *= x
        spec = scale(x, A)
    else:
        p /= x
        spec = scale(1 / x, A)
    ctx.eq("value", rows(p.matrix), spec)
    ctx.eq("right operand", rows(q.matrix), B)
    ctx.eq("operand seen through the other name", rows(other.matrix), A)


@REG.scenario("matrix products", variants=[dict(op=o) for o in MAT], conc=60)
def products(ctx, op):
    w, np = ctx.world, ctx.np
    A = rows(ctx.mat("A"))
    p = w.MatrixParameter(matrix=A)
    if op == "matmul_parameter":
        q = w.MatrixParameter(matrix=rows(ctx.mat("B")))
        B0 = rows(q.matrix)
        ctx.eq("value", rows(p @ q), matmul(A, B0))
        ctx.eq("right operand", rows(q.matrix), B0)
    elif op.endswith("vec"):
        v = ctx.vec("v")
        v0 = list(v)
        if op == "rmatmul_list_vec":
            v = list(v)
        r = list(p @ v) if op == "matmul_vec" else list(v @ p)
        ctx.eq("value", r, matvec(A, v0) if op == "matmul_vec" else vecmat(v0, A))
        ctx.eq("vector", list(v), v0)
    else:
        B = ctx.mat("B")
        B0 = rows(B)
        if op == "rmatmul_list":
            B = rows(B)
        r = (p @ B) if op == "matmul" else (B @ p)
        ctx.eq("value", rows(r), matmul(A, B0) if op == "matmul" else matmul(B0, A))
        ctx.eq("matrix operand", rows(B), B0)
        r[0][1] = ctx.real("z")
        ctx.eq("matrix operand after changing the result", rows(B), B0)
    ctx.eq("operand", rows(p.matrix), A)


@REG.scenario("division with a remainder", variants=[dict(op=o) for o in ("quotient", "remainder", "both")], conc=60, bound="divisors of either sign")
def remainder(ctx, op):
    """a = x q + r with a whole q and r between zero and x"""
    w = ctx.world
    A = rows(ctx.mat("A"))
    p = w.MatrixParameter(matrix=A)
    x = ctx.real("x", nonzero=True)
    if op != "remainder":
        q = p // x
        ctx.ensure("the quotient is a parameter", isinstance(q, w.MatrixParameter) and q is not p)
        Q = rows(q.matrix)
    if op != "quotient":
        m = p % x
        ctx.ensure("the remainder is a parameter", isinstance(m, w.MatrixParameter) and m is not p)
        R = rows(m.matrix)
    if op == "both":
        ctx.eq("quotient and remainder", addm(scale(x, Q), R), A)
    for i, j in ((i, j) for i in range(3) for j in range(3)):
        if op == "quotient":
            ctx.ensure("the quotient is whole", Q[i][j].is_integer_valued() if ctx.symbolic and hasattr(Q[i][j], "p") else float(Q[i][j]).is_integer())
            ctx.le("not above", Q[i][j], A[i][j] / x)
            ctx.le("not a whole number below", A[i][j] / x, Q[i][j] + 1)
            ctx.ensure("the next whole number is above", A[i][j] / x < Q[i][j] + 1 if ctx.symbolic else True)
        elif op == "remainder":
            k = (A[i][j] - R[i][j]) / x
            ctx.ensure("what is removed is a whole number of times the divisor", k.is_integer_valued() if ctx.symbolic and hasattr(k, "p") else abs(k - round(float(k))) < 1e-6 * max(1, abs(k)))
            ctx.le("between zero and the divisor", 0, R[i][j] / x)
            ctx.le("between zero and the divisor", R[i][j] / x, 1)
            ctx.ensure("smaller than the divisor", R[i][j] / x < 1 if ctx.symbolic else True)
    ctx.eq("operand", rows(p.matrix), A)
    for r in ([q] if op == "quotient" else [m] if op == "remainder" else [q, m]):
        disturb(ctx, r, "q" if op != "remainder" and r is q else "m")
    ctx.eq("operand after changing the result", rows(p.matrix), A)


@REG.scenario("comparison", conc=60, variants=[dict(other=o, same=s) for o in ("parameter", "array", "list") for s in (True, False)])
def comparison(ctx, other, same):
    w = ctx.world
    A = rows(ctx.mat("A"))
    p = w.MatrixParameter(matrix=A)
    B = [list(r) for r in A]
    if not same:
        k = ctx.choice("k", range(9))
        d = ctx.real("d", nonzero=True)
        B[k // 3][k % 3] = B[k // 3][k % 3] + d
    o = w.MatrixParameter(matrix=B) if other == "parameter" else (ctx.array(B) if other == "array" else B)
    if same:
        ctx.ensure("equal", p == o)
        ctx.ensure("not different", ctx.neg(p != o))
    else:
        ctx.ensure("not equal", ctx.neg(p == o))
        ctx.ensure("different", p != o)
    ctx.eq("operand", rows(p.matrix), A)


@REG.scenario("wrong operands are refused", conc=5, variants=[dict(op=o) for o in BIN], budget=10)
def wrong(ctx, op):
    A = rows(ctx.mat("A"))
    p = ctx.world.MatrixParameter(matrix=A)
    x = ctx.choice("x", [1, "a", None])
    ctx.raises("TypeError", TypeError, (lambda: p + x) if op == "add" else (lambda: p - x))
    ctx.eq("operand", rows(p.matrix), A)
