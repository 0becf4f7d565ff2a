"""C05 at run time: supports, widths and the acceptance checks on the real classes."""
from bounded.gen import *
from bounded.run import Skip
import itertools
import torch
from qadence import QuantumCircuit, Register, AnalogRX, AnalogInteraction
from qadence.qubit_support import QubitSupport
from qadence.transpile import flatten

BOUND = "all supports of <= 3 indices from {0,1,2,5,8,9,17} pairwise and in triples (sampled), every gate class on permuted/shifted qubits, random trees of depth <= 4 on <= 6 qubits with gaps, registers of width 1..20"
IDX = (0, 1, 2, 5, 8, 9, 17)


def spec(b):
    """the qubits of the leaves of a block"""
    n = type(b).__name__
    if n in ("ChainBlock", "KronBlock", "AddBlock"):
        return set().union(*[spec(x) for x in b.blocks])
    if n == "ScaleBlock":
        return spec(b.block)
    if n == "HamEvo" and isinstance(b.generator, AbstractBlock):
        return spec(b.generator)
    if hasattr(b, "blocks") and hasattr(b, "control"):
        return set(b.control) | spec(b.blocks[0])
    return set(b.qubit_support)


def check(ctx, b, want=None):
    w = spec(b) if want is None else set(want)
    s = b.qubit_support
    ctx.ok(isinstance(s, tuple), "support is a tuple")
    ctx.ok(set(s) == w, f"support {s} of {describe(b)}, leaves act on {sorted(w)}")
    ctx.ok(len(s) == len(set(s)), f"duplicates in {s}")
    ctx.ok(b.n_supports == len(w), f"n_supports {b.n_supports} of {describe(b)}")
    ctx.ok(b.n_qubits == (max(w) + 1 if w else 0), f"n_qubits {b.n_qubits} of {describe(b)}")
    for x in getattr(b, "blocks", ()):
        if isinstance(x, AbstractBlock):
            check(ctx, x)


def accepts(f):
    try:
        f()
        return True
    except (AssertionError, ValueError, NotImplementedError):
        return False


def unions(ctx, A, B, C):
    qa, qb, qc = QubitSupport(*A), QubitSupport(*B), QubitSupport(*C)
    u = qa + qb
    ctx.ok(isinstance(u, QubitSupport), "union is a QubitSupport")
    ctx.ok(set(u) == set(A) | set(B) and len(u) == len(set(u)), f"{A}+{B} = {u}")
    ctx.ok(set(qb + qa) == set(u) and len(qb + qa) == len(u), "commutative")
    ctx.ok((qb + qa) == u, f"union depends on the order: {qa}+{qb} = {u}, {qb}+{qa} = {qb + qa}") if A != B and len(A) * len(B) else None
    ctx.ok(set((qa + qb) + qc) == set(qa + (qb + qc)) == set(A) | set(B) | set(C), "associative")
    ctx.ok(set(qa + qa) == set(A), "idempotent")
    ctx.ok(set(qa + tuple(B)) == set(u) and set(tuple(B) + qa) >= set(B), "plain tuple")
    ctx.ok(set(sum([qa, qb, qc], start=QubitSupport())) == set(A) | set(B) | set(C), "sum")
    d = not (set(A) & set(B))
    ctx.ok(qa.is_disjoint(qb) == d and qb.is_disjoint(qa) == d and qa.is_disjoint(tuple(B)) == d, f"is_disjoint({A}, {B})")
    g = QubitSupport("global")
    ctx.ok(g.is_global and not qa.is_global, "is_global")
    ctx.ok(not g.is_disjoint(qa) and not qa.is_disjoint(g), "global overlaps")
    if A:
        ctx.ok(set(g + qa) == set(qa + g) == set(range(max(A) + 1)), "union with global")
    ctx.ok((g + g).is_global and (g + QubitSupport()).is_global, "global union")


def kron_accept(ctx, bs):
    sup = [spec(b) for b in bs]
    disjoint = sum(len(s) for s in sup) == len(set().union(*sup))
    ctx.ok(accepts(lambda: kron(*bs)) == disjoint, f"kron of {[describe(b) for b in bs]} accepted={not disjoint}")
    ctx.ok(accepts(lambda: KronBlock(tuple(bs))) == disjoint, "KronBlock")
    if disjoint:
        check(ctx, kron(*bs))
        ctx.ok([id(x) for x in kron(*bs).blocks] == [id(x) for x in bs], "factors kept")


def circ(ctx, b, w):
    need = max(spec(b)) + 1 if spec(b) else 0
    reg = Register(w)
    ctx.ok(accepts(lambda: QuantumCircuit(reg, b)) == (need <= w), f"circuit of width {w} with {describe(b)}")
    ctx.ok(accepts(lambda: QuantumCircuit(w, b)) == (need <= w), f"circuit of width {w} with {describe(b)}")
    ctx.ok(accepts(lambda: QuantumCircuit(w, b, X(0))) == (need <= w), f"circuit of width {w} with {describe(b)} and X(0)")
    ctx.ok(accepts(lambda: QuantumCircuit(w, chain(X(0), b))) == (need <= w), "chain in a circuit")
    ctx.ok(accepts(lambda: QuantumCircuit(w, 2 * chain(b))) == (need <= w), "scaled chain in a circuit")
    if need <= w:
        ctx.ok(QuantumCircuit(w, b).n_qubits == w, "width of the circuit")


def gates():
    a = Parameter("a", value=0.3)
    for qs in ((0, 1, 2), (5, 2, 7), (9, 1, 0), (3, 17, 8)):
        p, q, r = qs
        for nm in ("X", "Y", "Z", "I", "H", "S", "SDagger", "T", "N"):
            yield getattr(Q, nm)(p), (p,)
        yield N(r), (r,)
        for nm in ("RX", "RY", "RZ", "PHASE"):
            yield getattr(Q, nm)(p, a), (p,)
        yield U(q, a, 0.2, 0.3), (q,)
        for nm in ("CNOT", "CZ", "SWAP"):
            yield getattr(Q, nm)(p, q), (p, q)
        for nm in ("CRX", "CRY", "CRZ", "CPHASE"):
            yield getattr(Q, nm)(p, q, a), (p, q)
        yield Toffoli((p, q), r), qs
        yield CSWAP(p, q, r), qs
        yield MCZ((p, q), r), qs
        for K in (MCRX, MCRY, MCRZ, MCPHASE):
            yield K((p, q), r, a), qs
        yield Projector("01", "10", (p, q)), (p, q)
        yield HamEvo(add(X(p), Z(q)), a), (p, q)
        yield HamEvo(torch.rand(4, 4, dtype=torch.cdouble), a, (p, q)), (p, q)
        yield MatrixBlock(torch.eye(4, dtype=torch.cdouble), (p, q)), (p, q)
        yield MatrixBlock(torch.eye(2, dtype=torch.cdouble), (r,)), (r,)
        yield 2 * X(p), (p,)


def run(ctx):
    subs = [()] + [(i,) for i in IDX] + list(itertools.permutations(IDX, 2)) + [(5, 1, 9), (17, 0, 2), (8, 9, 1)]
    rng = ctx.rng("subs")
    pairs = list(itertools.product(subs, subs))
    if not ctx.thorough:
        pairs = rng.sample(pairs, 700)
    for A, B in pairs:
        ctx.case(f"union/{A}+{B}", unions, ctx, A, B, rng.choice(subs))
    for bad in ((-1,), (0, -2), (3, 1, -7)):
        ctx.case(f"invalid/{bad}", lambda bad=bad: (ctx.ok(not accepts(lambda: QubitSupport(*bad)), "negative index accepted"), ctx.ok(not accepts(lambda: QubitSupport(bad)), "negative index accepted")))
    gs = list(gates())
    for i, (g, w) in enumerate(gs):
        ctx.case(f"gate/{i}-{describe(g)}", check, ctx, g, w)
        ctx.case(f"circuit-gate/{i}", lambda g=g, w=w: [circ(ctx, g, k) for k in {1, len(w), max(w), max(w) + 1, max(w) + 2} if k > 0])
        ctx.case(f"scaled/{i}", lambda g=g, w=w: (check(ctx, 2 * g, w), check(ctx, chain(g), w), check(ctx, add(g, g), w)))
    for i in range(ctx.n(250, 3000)):
        def f(i=i):
            rng = ctx.rng(f"t{i}")
            qs = rng.sample(range(20), rng.choice([1, 2, 3, 4, 6]))
            b = tree(rng, qs, rng.choice([1, 2, 3, 4]))
            check(ctx, b)
            check(ctx, flatten(b), spec(b))
            circ(ctx, b, rng.choice([1, max(spec(b)) or 1, max(spec(b)) + 1, 20]))
        ctx.case(f"tree/{i}", f)
    for i in range(ctx.n(250, 3000)):
        def f(i=i):
            rng = ctx.rng(f"k{i}")
            k = rng.choice([1, 2, 3, 4])
            pool = list(range(rng.choice([4, 8, 12]))); rng.shuffle(pool)
            bs = []
            for j in range(k):
                m = rng.choice([1, 2])
                part = pool[2 * j:2 * j + m] if rng.random() < 0.75 else rng.sample(pool, m)
                bs.append(tree(rng, part or [pool[0]], rng.choice([0, 1, 2])))
            kron_accept(ctx, bs)
        ctx.case(f"kron/{i}", f)
    def glob():
        g = AnalogRX(0.3)
        ctx.ok(g.qubit_support.is_global, "global")
        for bs in ((g, X(0)), (X(0), g), (AnalogInteraction(100), AnalogInteraction(100)), (g,), (X(0), Y(1), g)):
            ctx.ok(not accepts(lambda: kron(*bs)), "kron of a global block accepted")
        ctx.ok(not accepts(lambda: kron()), "empty kron")
        ctx.ok(set(chain(X(3), g).qubit_support) == {0, 1, 2, 3}, "digital and global")
        ctx.ok(set(chain(X(3), g, Y(5)).qubit_support) == set(range(6)), "digital and global")
        ctx.ok(set(chain(g, X(1), Y(5)).qubit_support) == set(range(6)), "digital and global")
        l = AnalogRX(0.3, qubit_support=(1, 4))
        ctx.ok(set(l.qubit_support) == {1, 4} and l.n_qubits == 5 and l.n_supports == 2, "local analog block")
        ctx.ok(not accepts(lambda: QuantumCircuit(4, l)) and accepts(lambda: QuantumCircuit(5, l)), "analog block in a circuit")
        ctx.ok(accepts(lambda: QuantumCircuit(1, g)), "global block in a circuit")
        k = kron(AnalogRX(0.3, qubit_support=(0,)), AnalogRX(0.3, qubit_support=(2,)))
        ctx.ok(set(k.qubit_support) == {0, 2}, "analog kron")
        ctx.ok(not accepts(lambda: kron(AnalogRX(0.3, qubit_support=(0, 1)), AnalogRX(0.3, qubit_support=(1,)))), "overlapping analog kron accepted")
        ctx.ok(set(chain(k, X(7)).qubit_support) == {0, 2, 7}, "mixed")
    ctx.case("global/analog", glob)
