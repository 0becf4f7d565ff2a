"""C04 at run time: block arithmetic against the operator algebra of the independent semantics."""
from bounded.gen import *
from oracle import dense as D
from bounded.run import Skip
import copy, itertools, operator
import numpy as np, sympy, torch

BOUND = "all pairs of 16 operand shapes on <= 3 qubits, 12 scalars, powers 0..4, random trees of depth <= 3, builtin sum/reduce of up to 4 blocks"
N_ = 3


def shapes():
    a = Parameter("a", value=DEFAULTS["a"])
    yield "leaf", lambda: S(0)
    yield "leaf1", lambda: H(1)
    yield "param", lambda: RX(0, 2 * a)
    yield "cnot", lambda: CNOT(2, 0)
    yield "ham", lambda: HamEvo(kron(X(0), Y(1)), a)
    yield "scaled", lambda: 2 * Y(0)
    yield "scaled_param", lambda: a * S(1)
    yield "scaled_c", lambda: ScaleBlock(chain(S(0), H(0)), 1j)
    yield "nested_scale", lambda: ScaleBlock(ScaleBlock(T(0), 3), a)
    yield "chain", lambda: chain(S(0), H(0), RX(1, a))
    yield "chain1", lambda: chain(H(2))
    yield "chain0", lambda: chain()
    yield "kron", lambda: kron(S(0), H(1))
    yield "kron2", lambda: kron(Y(2), RZ(1, a))
    yield "add", lambda: add(S(0), 2 * H(0), a * kron(X(0), Z(1)))
    yield "add_nested", lambda: add(add(S(0), Y(1)), 0.5 * add(X(1), Y(1)))
    yield "add0", lambda: add()
    yield "zero", lambda: Zero()
    yield "id", lambda: I(0)
    yield "sq_of_scaled", lambda: (2 * S(0)) ** 2


def m(b, n=N_):
    return D.mat(b, n, VALS)


# in matrix form "a then b" is M_b M_a
SPEC = {"mul": lambda x, y: y @ x, "add": lambda x, y: x + y, "sub": lambda x, y: x - y, "matmul": lambda x, y: y @ x}


def check(ctx, op, A, B, n=N_):
    base = op[1:] if op.startswith("i") else op
    ma, mb = m(A, n), m(B, n)
    sa, sb = snap(A), snap(B)
    disjoint = not (set(A.qubit_support) & set(B.qubit_support))
    if base == "matmul" and not disjoint:
        try:
            getattr(operator, op)(A, B)
        except (AssertionError, ValueError, NotImplementedError):
            return
        ctx.ok(False, f"{op} accepted overlapping {describe(A)} and {describe(B)}")
    keep = A
    r = getattr(operator, op)(A, B)
    ctx.close(m(r, n), SPEC[base](ma, mb), f"{describe(A)} {op} {describe(B)} = {describe(r)}")
    ctx.ok(set(r.qubit_support) <= set(keep.qubit_support) | set(B.qubit_support) | {0}, f"support of {describe(r)}")
    ctx.ok(snap(keep) == sa and snap(B) == sb, f"{op} modified an operand: {describe(keep)} / {describe(B)}")
    ctx.close(m(keep, n), ma, "left operand changed"); ctx.close(m(B, n), mb, "right operand changed")


def scalars():
    a, b = Parameter("a", value=DEFAULTS["a"]), Parameter("b", value=DEFAULTS["b"])
    return [2, -1.5, 0, 1j, 2 - 1j, np.float64(0.5), np.int64(3), np.complex128(1 + 2j), a, a * b + 1, sympy.Rational(1, 3), -a]


def scal(ctx, mk, i):
    s = scalars()[i]
    A = mk()
    ma, sa = m(A), snap(A)
    v = complex(D.num(s, VALS)) if isinstance(s, sympy.Basic) else complex(s)
    r = A * s
    ctx.close(m(r), v * ma, f"{describe(A)} * {s} = {describe(r)}")
    try:
        r = s * A
    except TypeError:
        raise
    ctx.close(m(r), v * ma, f"{s} * {describe(A)} = {describe(r)}")
    if v != 0:
        r = A / s
        ctx.close(m(r), ma / v, f"{describe(A)} / {s} = {describe(r)}")
    ctx.ok(snap(A) == sa, "operand modified")
    B = A
    try:
        B *= s
    except (TypeError, ValueError):
        return
    ctx.close(m(B), v * ma, "in-place scalar product")


def unary(ctx, mk):
    A = mk()
    ma, sa = m(A), snap(A)
    ctx.close(m(-A), -ma, f"-{describe(A)}")
    ctx.close(m(+A), ma, f"+{describe(A)}")
    ctx.close(m(0 + A), ma, "0 + A")
    for k in range(5):
        if k == 0 and isinstance(A, Zero):
            continue
        r = A ** k
        ctx.close(m(r), np.linalg.matrix_power(ma, k), f"{describe(A)} ** {k} = {describe(r)}")
    ctx.ok(snap(A) == sa, "operand modified")
    if not isinstance(A, (Zero, I)):
        for k in (-1, -2):
            try:
                r = A ** k
            except (ValueError, TypeError, NotImplementedError):
                continue
            ctx.close(m(r), np.linalg.matrix_power(ma, k), f"{describe(A)} ** {k} = {describe(r)}")
    with_none = [lambda: A + 1, lambda: A - 1.0, lambda: A @ 2, lambda: A / A]
    if not isinstance(A, Zero):
        for f in with_none:
            try:
                f()
            except (TypeError, ValueError):
                continue
            ctx.ok(False, "ill-typed arithmetic accepted")


def sums(ctx, i):
    rng = ctx.rng(f"sum{i}")
    bs = [tree(rng, range(3), 1) for _ in range(rng.choice([1, 2, 3, 4]))]
    want = sum(m(b) for b in bs)
    ctx.close(m(sum(bs)), want, "builtin sum")
    acc = Zero()
    for b in bs:
        acc = acc + b
    ctx.close(m(acc), want, "sum accumulated from Zero")
    acc = Zero()
    for b in bs:
        acc += b
    ctx.close(m(acc), want, "in-place sum accumulated from Zero")
    acc = bs[0]
    for b in bs[1:]:
        acc -= b
    ctx.close(m(acc), m(bs[0]) - sum([m(b) for b in bs[1:]], 0 * want), "in-place difference")
    acc = I(0)
    for b in bs:
        acc *= b
    want = np.eye(8)
    for b in bs:
        want = m(b) @ want
    ctx.close(m(acc), want, "in-place product accumulated from I")
    ctx.close(m(add(b for b in bs)), sum(m(b) for b in bs), "add of a generator")
    ctx.close(m(chain(b for b in bs)), want, "chain of a generator")
    ctx.close(m(add(*bs)), sum(m(b) for b in bs), "add of arguments")
    ctx.close(m(chain(*bs)), want, "chain of arguments")


def aliasing(ctx, i):
    rng = ctx.rng(f"al{i}")
    b = tree(rng, range(3), 2)
    mb = m(b)
    x = b
    x += b
    ctx.close(m(x), 2 * mb, "b += b")
    y = b
    y -= b
    ctx.close(m(y), 0 * mb, "b -= b")
    z = b
    z *= b
    ctx.close(m(z), mb @ mb, "b *= b")
    ctx.close(m(b), mb, "aliased operand changed")
    x -= b
    ctx.close(m(x), mb, "(b + b) - b")
    x *= z
    ctx.close(m(x), mb @ mb @ mb, "in-place product of composites")
    ctx.close(m((b + b) - (b + 2 * b)), -mb, "nested difference")
    ctx.close(m(3 * (2 * b) / 4), 1.5 * mb, "rescaled twice")


def randkron(ctx, i):
    rng = ctx.rng(f"kr{i}")
    qs = list(range(4)); rng.shuffle(qs)
    c = rng.choice([1, 2, 3])
    A, B = tree(rng, qs[:c], 2), tree(rng, qs[c:], 2)
    for op in ("matmul", "imatmul"):
        check(ctx, op, A, B, 4)


def run(ctx):
    sh = dict(shapes())
    for op in ("mul", "imul", "add", "iadd", "sub", "isub", "matmul", "imatmul"):
        for (na, fa), (nb, fb) in itertools.product(sh.items(), sh.items()):
            if "matmul" in op and ("zero" in (na, nb) or na in ("chain0", "add0") or nb in ("chain0", "add0")):
                continue
            ctx.case(f"{op}/{na},{nb}", lambda: check(ctx, op, fa(), fb()))
    for nm, f in sh.items():
        for i in range(len(scalars())):
            ctx.case(f"scalar/{nm},{i}", scal, ctx, f, i)
        ctx.case(f"unary/{nm}", unary, ctx, f)
    for i in range(ctx.n(60, 600)):
        ctx.case(f"sum/{i}", sums, ctx, i)
        ctx.case(f"alias/{i}", aliasing, ctx, i)
        ctx.case(f"kron/{i}", randkron, ctx, i)
    for i in range(ctx.n(150, 2000)):
        def f(i=i):
            rng = ctx.rng(f"tree{i}")
            A, B = tree(rng, range(3), 2), tree(rng, range(3), 2)
            for op in ("mul", "imul", "add", "iadd", "sub", "isub"):
                check(ctx, op, A, B)
            scal(ctx, lambda: tree(ctx.rng(f"tree{i}"), range(3), 2), rng.randrange(len(scalars())))
        ctx.case(f"tree/{i}", f)
