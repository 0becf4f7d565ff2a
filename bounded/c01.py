"""C01 at run time: dagger() against the dense oracle."""
from bounded.gen import *
from oracle import dense as D
import itertools
from qadence import QuantumCircuit, Register
from qadence.operations import TDagger
from qadence.blocks import PutBlock

BOUND = "every gate class on permuted supports; random trees of depth <= 4 on <= 4 qubits"


def check(ctx, b, n, twice=True):
    before = snap(b)
    want = D.mat(b, n, VALS).conj().T
    r = b.dagger()
    ctx.close(D.mat(r, n, VALS), want, f"dagger of {describe(b)} is {describe(r)}")
    ctx.ok(sorted(set(r.qubit_support)) == sorted(set(b.qubit_support)), f"support of dagger of {describe(b)}: {r.qubit_support}")
    ctx.ok(snap(b) == before, f"dagger changed its operand {describe(b)}")
    if twice:
        ctx.close(D.mat(r.dagger(), n, VALS), D.mat(b, n, VALS), f"double dagger of {describe(b)}")


def run(ctx):
    p, q = Parameter("a", value=DEFAULTS["a"]), Parameter("c", value=DEFAULTS["c"], trainable=False)
    exprs = [p, 2 * p, p + q, sympy.sin(p) * q, 0.7, -2, 0, sympy.pi / 3]
    for nm in SINGLE + ["TDagger", "Zero"]:
        for t in ((0, 2) if nm != "Zero" else (0,)):
            G = TDagger if nm == "TDagger" else getattr(Q, nm)
            ctx.case(f"gate/{nm}/{t}", lambda: check(ctx, G(t) if nm != "Zero" else G(), 3))
    for nm in SINGLE_P:
        for k, e in enumerate(exprs):
            ctx.case(f"gate/{nm}/e{k}", lambda: check(ctx, getattr(Q, nm)(1, e), 2))
    for k, (e, f, g) in enumerate(itertools.product(exprs[:3], exprs[1:4], [0.4, p * q, q])):
        ctx.case(f"gate/U/{k}", lambda: check(ctx, U(1, e, f, g), 2))
    for a, b in ((0, 1), (2, 0), (1, 2)):
        for nm in TWO:
            ctx.case(f"gate/{nm}/{a}{b}", lambda: check(ctx, getattr(Q, nm)(a, b), 3))
        for nm in TWO_P:
            for k, e in enumerate(exprs):
                ctx.case(f"gate/{nm}/{a}{b}/e{k}", lambda: check(ctx, getattr(Q, nm)(a, b, e), 3))
    for pr in itertools.permutations(range(3)):
        s = "".join(map(str, pr))
        ctx.case(f"gate/Toffoli/{s}", lambda: check(ctx, Toffoli(pr[:2], pr[2]), 3))
        ctx.case(f"gate/CSWAP/{s}", lambda: check(ctx, CSWAP(*pr), 3))
        ctx.case(f"gate/MCZ/{s}", lambda: check(ctx, MCZ(pr[:2], pr[2]), 3))
        for G in (MCRX, MCRY, MCRZ, MCPHASE):
            for k, e in enumerate(exprs[:6]):
                ctx.case(f"gate/{G.__name__}/{s}/e{k}", lambda: check(ctx, G(pr[:2], pr[2], e), 3))
    for ket in ("0", "1"):
        for bra in ("0", "1"):
            ctx.case(f"gate/Projector/{ket}{bra}", lambda: check(ctx, Projector(ket, bra, 1), 2))
    for ket, bra in itertools.product(["00", "01", "10", "11"], repeat=2):
        ctx.case(f"gate/Projector/{ket}/{bra}", lambda: check(ctx, Projector(ket, bra, (2, 0)), 3))
    ctx.case("gate/N0", lambda: check(ctx, N(0, "0"), 1))
    gens = [X(0), X(0) + Z(1), kron(X(0), Y(2)), 2 * Z(1) + p * X(0), chain(Z(0), Z(1)), N(0) @ N(1) if False else kron(N(0), N(1))]
    for i, g in enumerate(gens):
        for k, e in enumerate(exprs):
            ctx.case(f"hamevo/{i}/e{k}", lambda: check(ctx, HamEvo(g, e), 3))
    hm = torch.tensor([[1, 2 - 1j], [2 + 1j, 0]], dtype=torch.cdouble)
    ctx.case("hamevo/tensor1", lambda: check(ctx, HamEvo(hm, p, (1,)), 2))
    ctx.case("hamevo/tensor2", lambda: check(ctx, HamEvo(torch.kron(hm, hm), 0.7, (2, 0)), 3))
    mu = torch.tensor([[1, 1], [1j, -1j]], dtype=torch.cdouble) / 2 ** 0.5
    ctx.case("matrix/1", lambda: check(ctx, MatrixBlock(mu, (1,)), 2))
    ctx.case("put/1", lambda: check(ctx, PutBlock(chain(S(0), H(0), RX(0, p)), (2,)), 3))
    for k, s in enumerate([2, -1, 1j, 1 + 2j, p, 1j * p, sympy.I * sympy.sin(p) + q, 0]):
        ctx.case(f"scale/{k}", lambda: check(ctx, ScaleBlock(chain(S(0), RY(0, p)), s), 1))
    ctx.case("empty/chain", lambda: check(ctx, chain(), 1))
    ctx.case("empty/add", lambda: check(ctx, AddBlock(()), 1))
    for i in range(ctx.n(150, 2500)):
        rng = ctx.rng(f"tree{i}")
        n = rng.choice([1, 2, 3, 3, 4])
        b = tree(rng, range(n), rng.choice([1, 2, 3, 3]))
        ctx.case(f"tree/{i}", lambda: check(ctx, b, n))
    def circ(i):
        rng = ctx.rng(f"circ{i}")
        n = rng.choice([2, 3])
        b = tree(rng, range(n), 2)
        c = QuantumCircuit(Register.line(n + 1), b)
        before = snap(b)
        r = c.dagger()
        ctx.close(D.mat(r.block, n + 1, VALS), D.mat(b, n + 1, VALS).conj().T, f"circuit dagger of {describe(b)}")
        ctx.ok(r.n_qubits == n + 1, "width of the adjoint circuit")
        ctx.ok(snap(c.block) == before and c.block is b, "circuit dagger changed its operand")
    for i in range(ctx.n(20, 200)):
        ctx.case(f"circuit/{i}", circ, i)
