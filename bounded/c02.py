"""C02 at run time: every restructuring pass preserves the operator."""
from bounded.gen import *
from oracle import dense as D
from bounded.run import Skip
import itertools
import qadence.transpile as TP
from qadence import QuantumCircuit, Register
from qadence.transpile import flatten, transpile, blockfn_to_circfn, scale_primitive_blocks_only, chain_single_qubit_ops
from qadence.transpile.apply_fn import apply_fn_to_blocks
from qadence.transpile.block import fill_identities as fill_block
from qadence.transpile.circuit import fill_identities as fill_circ
from qadence.transpile import validate

BOUND = "random trees of depth <= 4 on <= 4 qubits plus enumerated corner shapes (empty, singleton, aliased, scaled, nested)"
TYPES = [[ChainBlock], [KronBlock], [AddBlock], [ChainBlock, KronBlock], [KronBlock, AddBlock], [AddBlock, ChainBlock], [ChainBlock, KronBlock, AddBlock],
         [AddBlock, KronBlock, ChainBlock]]
ID_PASSES = {
    "scale": scale_primitive_blocks_only, "chain1q": chain_single_qubit_ops, "apply_id": lambda b: apply_fn_to_blocks(b, lambda x: x),
    "flatten": lambda b: flatten(b), "combo": lambda b: transpile(flatten, scale_primitive_blocks_only)(b),
    "combo2": lambda b: transpile(chain_single_qubit_ops, scale_primitive_blocks_only, flatten)(b),
}
for k, t in enumerate(TYPES):
    ID_PASSES[f"flatten{k}"] = lambda b, t=t: flatten(b, t)


def _sup(b):
    return sorted(set(b.qubit_support))


def check(ctx, name, fn, b, n):
    want, s0 = D.mat(b, n, VALS), _sup(b)
    r = fn(b)
    ctx.close(D.mat(r, n, VALS), want, f"{name} of {describe(b)} gave {describe(r)}")
    ctx.ok(_sup(r) == s0, f"{name} changed the support of {describe(b)}: {_sup(r)} instead of {s0}")
    ctx.close(D.mat(b, n, VALS), want, f"{name} changed the operator of its input {describe(b)}")


def corners():
    a = Parameter("a", value=DEFAULTS["a"])
    k = kron(X(0), Y(1))
    c = chain(X(0), RX(0, a))
    yield "nested_chain", chain(chain(X(0), chain(Y(0), Z(1))), RX(1, a))
    yield "alias_kron", chain(k, k)
    yield "alias_kron3", chain(k, kron(H(0), S(1)), k)
    yield "alias_chain", add(c, 2 * c, c)
    yield "single_kron", chain(kron(X(0)), kron(kron(Y(1), kron(Z(0)))))
    yield "unordered_krons", chain(kron(X(0), Y(1)), kron(Z(1), H(0)))
    yield "unordered_krons3", chain(kron(RX(2, a), Y(0), H(1)), kron(S(1), T(0), X(2)), kron(X(0), Y(1), Z(2)))
    yield "partial_krons", chain(kron(X(0), Y(1)), kron(Z(1), H(2)))
    yield "scaled_chain", 2 * chain(X(0), Y(1), 3 * Z(0))
    yield "scaled_add", a * add(X(0), 2 * Y(0), chain(Z(0), a * X(1)))
    yield "scaled_kron", -0.5 * kron(X(0), 3 * Y(1), add(Z(2), X(2)))
    yield "scaled_scaled", ScaleBlock(ScaleBlock(ScaleBlock(chain(X(0), H(1)), a), 2), 3)
    yield "scaled_in_nested", chain(2 * chain(chain(X(0), 3 * Y(0))), kron(kron(X(0), a * X(1))))
    yield "add_of_adds", add(add(X(0), Y(0)), 2 * add(Z(0), add(X(1))), H(1))
    yield "add_in_kron", kron(add(X(0), Y(0)), add(Z(1), add(H(1), X(1))))
    yield "kron_in_add", add(kron(kron(X(0), Y(1)), Z(2)), kron(Z(0), kron(H(1))))
    yield "scaled_singleton", 2 * chain(chain(X(0)))
    yield "scale_zero", 0 * chain(X(0), Y(0))
    yield "scale_complex", 1j * add(X(0), chain(Y(0), Z(0)))
    yield "leaf", X(0)
    yield "scaled_leaf", a * RX(0, a)
    yield "deep_scale", 2 * chain(3 * kron(5 * add(7 * X(0), Y(0)), Z(1)), 11 * H(0))
    yield "hamevo_in", 2 * chain(HamEvo(X(0) + Z(1), a), X(0))
    yield "same_gate_krons", chain(kron(RX(0, a), RX(1, a)), kron(CNOT(0, 1)), kron(RZ(0, a), RZ(1, a)), kron(RY(0, a), RY(1, a)))
    yield "chain_of_one_kron", chain(kron(X(0), Y(1)))
    yield "mixed_len", chain(kron(X(0), Y(1)), kron(chain(Z(0)), H(1)))
    yield "empty_chain", chain(chain(), X(0))
    yield "empty_scaled_chain", chain(X(0), 2 * chain())
    yield "empty_add", chain(X(0), add(X(0), AddBlock(())))


def interleaved(b):
    if isinstance(b, KronBlock):
        rs = [(min(x.qubit_support), max(x.qubit_support)) for x in b.blocks]
        if any(x[0] <= y[1] and y[0] <= x[1] for i, x in enumerate(rs) for y in rs[:i]):
            return True
    return any(interleaved(x) for x in getattr(b, "blocks", ()))


def check_fill(ctx, b, n, start, stop):
    want = D.mat(b, n, VALS)
    s0 = snap_no_tag(b)
    try:
        r = fill_block(b, start, stop)
    except AssertionError as e:
        if interleaved(b):
            raise Skip("interleaved kron refused")      # the drawing helper refuses these; it never returns a wrong block
        raise
    ctx.close(D.mat(r, n, VALS), want, f"fill_identities({start},{stop}) of {describe(b)} gave {describe(r)}")
    ctx.ok(set(b.qubit_support) <= set(r.qubit_support), f"fill_identities lost qubits of {describe(b)}")
    ctx.close(D.mat(b, n, VALS), want, "fill_identities changed its input")


def snap_no_tag(b):
    return describe(b)


def run(ctx):
    for nm, b in corners():
        for pn, fn in ID_PASSES.items():
            ctx.case(f"corner/{nm}/{pn}", check, ctx, pn, fn, b, 3)
    for i in range(ctx.n(160, 2500)):
        rng = ctx.rng(f"t{i}")
        n = rng.choice([1, 2, 3, 3, 4])
        b = tree(rng, range(n), rng.choice([2, 3, 3, 4]))
        for pn, fn in ID_PASSES.items():
            ctx.case(f"tree/{i}/{pn}", check, ctx, pn, fn, b, n)
    # chains of krons of single-qubit gates
    for i in range(ctx.n(60, 600)):
        rng = ctx.rng(f"k{i}")
        n = rng.choice([2, 3])
        layers = []
        for _ in range(rng.choice([2, 3])):
            qs = list(range(n))
            if rng.random() < 0.5:
                rng.shuffle(qs)
            layers.append(kron(*[leaf(rng, [q], multi=False) for q in qs]))
        if rng.random() < 0.3:
            layers.append(layers[0])
        b = chain(*layers)
        ctx.case(f"krons/{i}", check, ctx, "chain1q", chain_single_qubit_ops, b, n)
    # identities on idle wires
    for i in range(ctx.n(80, 600)):
        rng = ctx.rng(f"f{i}")
        n = rng.choice([2, 3, 4])
        qs = sorted(rng.sample(range(n), rng.choice([k for k in (1, 2, 3) if k <= n])))
        b = leaf(rng, qs) if i % 2 else tree(rng, qs, 2, scale=False)
        ctx.case(f"fill/{i}", check_fill, ctx, b, n, 0, n - 1)
    for i in range(ctx.n(60, 400)):
        rng = ctx.rng(f"fc{i}")
        n = rng.choice([2, 3, 4])
        qs = sorted(rng.sample(range(n), rng.choice([k for k in (1, 2, 3) if k <= n])))
        b = tree(rng, qs, 2)
        def fc():
            c = QuantumCircuit(Register.line(n), b)
            want = D.mat(b, n, VALS)
            r = fill_circ(c)
            ctx.close(D.mat(r.block, n, VALS), want, f"fill_identities of circuit {describe(b)} gave {describe(r.block)}")
            ctx.ok(set(r.block.qubit_support) == set(range(n)), f"wires still idle after fill_identities: {r.block.qubit_support}")
            ctx.ok(r.n_qubits == n, "width")
            ctx.close(D.mat(c.block, n, VALS), want, "fill_identities changed its input")
        ctx.case(f"fillcirc/{i}", fc)
    # validate (moves blocks to local qubits with PutBlock)
    # circuits
    for i in range(ctx.n(40, 300)):
        rng = ctx.rng(f"c{i}")
        n = rng.choice([2, 3])
        b = tree(rng, range(n), 2)
        def fc():
            reg = rng.choice([Register.line(n + 1), Register.all_to_all(n + 1), Register.circle(n + 1, spacing=3.0)])
            c = QuantumCircuit(reg, b)
            want = D.mat(b, n + 1, VALS)
            for nm, f in (("lift flatten", blockfn_to_circfn(flatten)), ("lift scale", blockfn_to_circfn(scale_primitive_blocks_only)),
                          ("transpile", transpile(blockfn_to_circfn(chain_single_qubit_ops), blockfn_to_circfn(flatten)))):
                r = f(c)
                ctx.close(D.mat(r.block, n + 1, VALS), want, f"{nm} of {describe(b)}")
                ctx.ok(r.register is reg or r.register == reg, f"{nm} changed the register")
                ctx.ok(r.register.n_qubits == n + 1, "width")
            r = flatten(c)
            ctx.close(D.mat(r.block, n + 1, VALS), want, f"flatten(circuit) of {describe(b)}")
            ctx.ok(r.n_qubits == n + 1, "width after flatten(circuit)")
            ctx.ok(c.block is b and c.register is reg, "input circuit changed")
        ctx.case(f"circuit/{i}", fc)
    # order of composition, each pass exactly once
    def order(k):
        log = []
        def mk(j):
            def f(x):
                log.append(j)
                return (*x, j)
            return f
        fs = [mk(j) for j in range(k)]
        r = transpile(*fs)(("x",))
        ctx.ok(log == list(reversed(range(k))), f"passes applied in order {log} for {k} passes")
        ctx.ok(r == ("x", *reversed(range(k))), f"result {r}")
        log.clear()
        t = transpile(*fs)
        t(("x",)); log.clear(); r = t(("y",))
        ctx.ok(log == list(reversed(range(k))), f"second use applied {log}")
    for k in range(0, 7):
        ctx.case(f"order/{k}", order, k)
    # leaf-wise rewriting reaches every leaf exactly once
    def leaves(i):
        rng = ctx.rng(f"l{i}")
        b = tree(rng, range(3), 3)
        seen = []
        def fn(x, *a, **k):
            seen.append((x, a, tuple(sorted(k.items()))))
            return x
        apply_fn_to_blocks(b, fn, 1, z=2)
        want = []
        def walk(x):
            if type(x) in (ChainBlock, KronBlock, AddBlock):
                for y in x.blocks:
                    walk(y)
            else:
                want.append(x)
        walk(b)
        ctx.ok([s[0] for s in seen] == want if False else len(seen) == len(want) and all(s[0] is w for s, w in zip(seen, want)), f"leaves visited in {describe(b)}: {len(seen)} of {len(want)}")
        ctx.ok(all(s[1] == (1,) and s[2] == (("z", 2),) for s in seen), "arguments passed to the leaf function")
    for i in range(ctx.n(40, 300)):
        ctx.case(f"leaves/{i}", leaves, i)
