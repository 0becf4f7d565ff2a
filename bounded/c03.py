"""C03 at run time: relabelling and bit-order inversion against permuted dense operators."""
from bounded.gen import *
from bounded.run import Skip
from oracle import dense as D
import itertools
import numpy as np
from collections import Counter
from qadence import QuantumCircuit, Register
from qadence.transpile import reassign, invert_endianness
from qadence.types import Endianness

BOUND = "random trees of depth <= 3 on <= 4 qubits, random injective maps into <= 6 qubits; states and counters up to 8 qubits (counters exhaustive up to 6)"


def perm_op(M, n_from, n_to, qmap):
    """the operator M on n_from qubits moved through the injective map to n_to qubits (independent: index shuffling)"""
    rest = [q for q in range(n_to) if q not in qmap.values()]
    out = np.zeros((2**n_to, 2**n_to), dtype=complex)
    used = [qmap.get(i) for i in range(n_from)]
    for r in range(2**n_to):
        rb = [(r >> (n_to - 1 - q)) & 1 for q in range(n_to)]
        for c in range(2**n_to):
            cb = [(c >> (n_to - 1 - q)) & 1 for q in range(n_to)]
            if any(rb[q] != cb[q] for q in rest):
                continue
            a = sum(rb[used[i]] << (n_from - 1 - i) for i in range(n_from))
            b = sum(cb[used[i]] << (n_from - 1 - i) for i in range(n_from))
            out[r, c] = M[a, b]
    return out


def c_reassign(ctx, b, n, n2, qmap):
    want = perm_op(D.mat(b, n, VALS), n, n2, qmap)
    s0 = snap(b)
    m0 = dict(qmap)
    r = reassign(b, qmap)
    ctx.close(D.mat(r, n2, VALS), want, f"reassign({describe(b)}, {qmap}) gave {describe(r)}")
    ctx.ok(set(r.qubit_support) == {qmap[q] for q in b.qubit_support}, f"support {r.qubit_support} of reassign({describe(b)}, {qmap})")
    ctx.ok(snap(b) == s0 and qmap == m0, f"reassign changed its input {describe(b)}")
    back = reassign(r, {v: k for k, v in qmap.items()})
    ctx.close(D.mat(back, n, VALS), D.mat(b, n, VALS), f"inverse relabelling of {describe(b)}")
    ctx.ok(tags(r) == tags(b), f"tags of {describe(b)}: {tags(r)} vs {tags(b)}")


def tags(b):
    if type(b) in (ChainBlock, KronBlock, AddBlock):
        return (b.tag, *[tags(x) for x in b.blocks])
    return None


def attrs(ctx, b, qmap):
    r = reassign(b, qmap)
    for at in ("control", "target"):
        if hasattr(b, at):
            ctx.ok(tuple(getattr(r, at)) == tuple(qmap[q] for q in getattr(b, at)), f"{at} of reassign({describe(b)}, {qmap}) is {getattr(r, at)}")
    ctx.ok(tuple(r.qubit_support) == tuple(qmap[q] for q in b.qubit_support), f"ordered support of reassign({describe(b)}, {qmap}) is {tuple(r.qubit_support)}")


def c_invert(ctx, b, n):
    want = perm_op(D.mat(b, n, VALS), n, n, {i: n - 1 - i for i in range(n)})
    s0 = snap(b)
    r = invert_endianness(b, n)
    ctx.close(D.mat(r, n, VALS), want, f"invert_endianness({describe(b)}, {n}) gave {describe(r)}")
    ctx.ok(snap(b) == s0, "input changed")
    ctx.close(D.mat(invert_endianness(r, n), n, VALS), D.mat(b, n, VALS), f"involution on {describe(b)}")
    if max(b.qubit_support) == n - 1:
        r2 = invert_endianness(b)
        ctx.close(D.mat(r2, n, VALS), want, f"invert_endianness({describe(b)}) with default width")
    c = QuantumCircuit(n, b)
    rc = invert_endianness(c)
    ctx.ok(rc.n_qubits == n, "circuit width")
    ctx.close(D.mat(rc.block, n, VALS), want, f"invert_endianness(circuit {describe(b)})")
    ctx.close(D.mat(c.block, n, VALS), D.mat(b, n, VALS), "circuit changed")


def corners():
    a = Parameter("a", value=DEFAULTS["a"])
    yield CRX(0, 2, a)
    yield CNOT(2, 0)
    yield MCRZ((0, 3), 1, a)
    yield CSWAP(1, 0, 3)
    yield Toffoli((2, 0), 1)
    yield SWAP(0, 3)
    yield MCPHASE((1, 2), 0, 2 * a)
    yield HamEvo(X(0) + Z(1), a)
    yield HamEvo(kron(X(0), Z(2)) + 0.3 * Y(1), a)
    yield HamEvo(a * X(0) + Z(1), 0.7)
    yield HamEvo(torch.diag(torch.tensor([1.0, 2.0, 3.0, 5.0], dtype=torch.cdouble)), a, qubit_support=(0, 1))
    yield HamEvo(torch.diag(torch.tensor([1.0, 2.0, 3.0, 5.0], dtype=torch.cdouble)), a, qubit_support=(2, 0))
    yield chain(HamEvo(X(0) + Z(1), a), CRY(1, 2, a))
    yield 2 * HamEvo(X(1) + Y(3), a)
    yield Projector("01", "10", (1, 3))
    yield MatrixBlock(torch.tensor([[0, 1j], [2, 3]], dtype=torch.cdouble), (2,))
    yield U(1, a, 2 * a, 0.3)
    yield N(1)
    x = chain(kron(X(0), 2 * Y(2)), add(Z(0), CNOT(0, 1)))
    x.tag = "outer"
    x.blocks[0].tag = "inner"
    yield x
    yield ScaleBlock(ScaleBlock(chain(X(0), CZ(0, 1)), a), 3)


def run(ctx):
    maps = [{0: 3, 1: 2, 2: 1, 3: 0}, {0: 1, 1: 2, 2: 3, 3: 0}, {0: 0, 1: 1, 2: 2, 3: 3}, {0: 4, 1: 0, 2: 5, 3: 2}, {0: 1, 1: 0, 2: 2, 3: 3}]
    for i, b in enumerate(corners()):
        for j, mp in enumerate(maps):
            ctx.case(f"corner/{i}/map{j}", c_reassign, ctx, b, 4, max(mp.values()) + 1, dict(mp))
            if not isinstance(b, (ChainBlock, KronBlock, AddBlock, ScaleBlock)):
                ctx.case(f"attr/{i}/map{j}", attrs, ctx, b, dict(mp))
        for n in (4, 5):
            ctx.case(f"invert/{i}/{n}", c_invert, ctx, b, n)
    for i in range(ctx.n(250, 3000)):
        rng = ctx.rng(f"t{i}")
        n = rng.choice([1, 2, 3, 3, 4])
        b = tree(rng, range(n), rng.choice([1, 2, 3]))
        n2 = rng.choice([n, n, n + 1, 5])
        mp = dict(zip(range(n), rng.sample(range(n2), n)))
        ctx.case(f"tree/{i}", c_reassign, ctx, b, n, n2, mp)
        ctx.case(f"tree-inv/{i}", c_invert, ctx, b, n)
    # a map restricted to the support is enough
    for i in range(ctx.n(40, 300)):
        rng = ctx.rng(f"part{i}")
        b = tree(rng, [1, 3], 2)
        mp = {1: 0, 3: 2}
        def f():
            sup = set(b.qubit_support)
            r = reassign(b, {k: v for k, v in mp.items() if k in sup})
            want = perm_op(D.mat(reassign(b, {1: 0, 3: 1}), 2, VALS), 2, 3, {0: 0, 1: 2})
            ctx.close(D.mat(r, 3, VALS), want, f"partial map on {describe(b)}")
        ctx.case(f"partial/{i}", f)
    # states
    for n in range(1, ctx.n(8, 11)):
        for bs in (1, 3):
            def f():
                rng = np.random.default_rng(n * 10 + bs)
                v = rng.normal(size=(bs, 2**n)) + 1j * rng.normal(size=(bs, 2**n))
                rev = [int(format(k, f"0{n}b")[::-1], 2) for k in range(2**n)]
                for kind in ("torch", "numpy"):
                    x = torch.tensor(v) if kind == "torch" else v.copy()
                    r = invert_endianness(x)
                    ra = np.asarray(r)
                    ctx.ok(type(r) is type(x), f"type {type(r)}")
                    ctx.ok(ra.shape == v.shape and np.array_equal(ra, v[:, rev]), f"{kind} state of {n} qubits, batch {bs}")
                    ctx.ok(np.array_equal(np.asarray(invert_endianness(r)), v), "involution")
                    ctx.ok(np.array_equal(np.asarray(x), v), "input changed")
            ctx.case(f"state/{n}/{bs}", f)
    # counters: every outcome of n bits, arbitrary counts
    for n in range(1, ctx.n(7, 11)):
        def f():
            keys = ["".join(x) for x in itertools.product("01", repeat=n)]
            c = Counter({k: 3 + 7 * i for i, k in enumerate(keys)})
            r = invert_endianness(c)
            ctx.ok(dict(r) == {k[::-1]: v for k, v in c.items()}, f"counter of {n} bits")
            ctx.ok(invert_endianness(r) == c and isinstance(r, Counter), "involution")
            ctx.ok(c == Counter({k: 3 + 7 * i for i, k in enumerate(keys)}), "input changed")
        ctx.case(f"counter/{n}", f)
    for i in range(ctx.n(40, 300)):
        rng = ctx.rng(f"cnt{i}")
        n = rng.randrange(1, 14)
        cs = [Counter({"".join(rng.choice("01") for _ in range(n)): rng.randrange(0, 50) for _ in range(rng.randrange(0, 6))}) for _ in range(rng.randrange(0, 4))]
        def f():
            r = invert_endianness(cs)
            ctx.ok(isinstance(r, list) and len(r) == len(cs), "list length")
            for x, y in zip(cs, r):
                ctx.ok(dict(y) == {k[::-1]: v for k, v in x.items()}, f"{x} -> {y}")
        ctx.case(f"counters/{i}", f)
    # end to end: running / sampling with the other bit order permutes the outcomes
    from qadence import run as qrun, sample
    for i in range(ctx.n(25, 150)):
        rng = ctx.rng(f"e{i}")
        n = rng.choice([2, 3])
        b = chain(*[tree(rng, range(n), 1, unitary=True) for _ in range(3)])
        c = QuantumCircuit(n, b)
        def f():
            v = {k: x for k, x in vals().items()}
            fv = {k: v[k] for k in v if k in "cd"}
            big = qrun(c, values=fv, endianness=Endianness.BIG)
            lit = qrun(c, values=fv, endianness=Endianness.LITTLE)
            rev = [int(format(k, f"0{n}b")[::-1], 2) for k in range(2**n)]
            ctx.close(lit.detach().numpy(), big.detach().numpy()[:, rev], f"little-endian run of {describe(b)}")
            inv = qrun(invert_endianness(c), values=fv)
            ctx.close(inv.detach().numpy(), big.detach().numpy()[:, rev], f"run of the inverted circuit {describe(b)}")
        ctx.case(f"run/{i}", f)
    for n in (2, 3):
        for bits in itertools.product("01", repeat=n):
            def f():
                b = kron(*[X(q) if bits[q] == "1" else I(q) for q in range(n)])
                s = sample(QuantumCircuit(n, b), n_shots=10, endianness=Endianness.LITTLE)[0]
                ctx.ok(dict(s) == {"".join(reversed(bits)): 10}, f"little-endian sample of {bits}: {s}")
                s = sample(QuantumCircuit(n, b), n_shots=10)[0]
                ctx.ok(dict(s) == {"".join(bits): 10}, f"sample of {bits}: {s}")
            ctx.case(f"sample/{''.join(bits)}", f)
