"""C16 at run time: parameter and term extraction against an independent walk over the block tree."""
from bounded.gen import *
from oracle import dense as D
import itertools
from collections import Counter
import numpy as np
from qadence.blocks.utils import (uuid_to_block, uuid_to_expression, expression_to_uuids, parameters, unique_parameters, expressions, primitive_blocks,
                                  get_pauli_blocks, get_block_by_uuid, get_blocks_by_expression, has_duplicate_vparams, unroll_block_with_scaling, block_is_qubit_hamiltonian)
from qadence.blocks.primitive import PrimitiveBlock
from qadence.transpile.block import set_trainable, set_as_variational, set_as_fixed
from qadence.operations import AnalogRX, AnalogRY, AnalogRZ, AnalogRot, AnalogInteraction, AnalogSWAP, CNOT, entangle
from qadence.exceptions import NotPauliBlockError

BOUND = "every gate class; analog blocks; time evolutions with parametric, nested and matrix generators; random trees of depth <= 4 on <= 4 qubits"
COMP = ("ChainBlock", "KronBlock", "AddBlock", "AnalogChain", "AnalogKron")


def walk(b):
    """(gate, parameter uuid, expression) of every gate parameter"""
    n = type(b).__name__
    if n in COMP:
        for x in b.blocks:
            yield from walk(x)
        return
    if hasattr(b, "parameters"):
        for k, (u, e) in b.parameters._name_dict.items():
            yield b, u, e
    if n == "ScaleBlock":
        yield from walk(b.block)
    if n == "HamEvo" and isinstance(b.generator, AbstractBlock):
        yield from walk(b.generator)


def leaves(b):
    n = type(b).__name__
    if n in ("ChainBlock", "KronBlock", "AddBlock"):
        return [y for x in b.blocks for y in leaves(x)]
    if n == "ScaleBlock":
        return leaves(b.block)
    return [b]


def key(e):
    return (sympy.srepr(e) if isinstance(e, sympy.Basic) else str(e))


def extraction(ctx, b):
    before = snap(b) if not analog(b) else None
    want = list(walk(b))
    d = describe(b) if not analog(b) else repr(b)[:300]
    ub, ue = uuid_to_block(b), uuid_to_expression(b)
    ctx.ok(set(ub) == {u for _, u, _ in want} and all(ub[u] is g for g, u, _ in want), f"parameter ids to gates of {d}: {len(ub)} reported, {len(want)} present")
    ctx.ok(set(ue) == set(ub) and all(ue[u] is e or key(ue[u]) == key(e) for _, u, e in want), f"parameter ids to expressions of {d}")
    for g, u, e in want:
        ctx.ok(get_block_by_uuid(b, u) is g, f"gate of a parameter id in {d}")
    plain = not any(isinstance(e, sympy.Array) for _, _, e in want)
    wp = Counter()
    for _, _, e in want:
        fs = getattr(e, "free_symbols", set())
        for s in (fs or [e]):
            wp[key(s)] += 1
    ctx.ok(Counter(key(p) for p in parameters(b)) == wp, f"parameters of {d}: {parameters(b)}")
    up = unique_parameters(b)
    names = {s.name for _, _, e in want for s in getattr(e, "free_symbols", ())}
    ctx.ok(len({p.name for p in up}) == len(up) and {p.name for p in up} == names, f"unique parameters of {d}: {up}")
    ex = expressions(b)
    ctx.ok(len(ex) == len(set(map(key, ex))) and {key(e) for e in ex} == {key(e) for _, _, e in want}, f"expressions of {d}: {ex}")
    eu = expression_to_uuids(b)
    ctx.ok(sorted(u for us in eu.values() for u in us) == sorted(ub), f"expression to parameter ids of {d}: ids lost or repeated")
    for e, us in eu.items():
        ctx.ok(all(key(ue[u]) == key(e) for u in us), f"expression to parameter ids of {d}: {e}")
        got = get_blocks_by_expression(b, e)
        ctx.ok([id(x) for x in got] == [id(ub[u]) for u in us], f"gates of the expression {e} in {d}")
    tr = [key(s) for _, _, e in want for s in getattr(e, "free_symbols", ()) if s.trainable]
    ctx.ok(has_duplicate_vparams(b) == (len(tr) != len(set(tr))), f"duplicate trainable parameters of {d}")
    if before is not None:
        ctx.ok(snap(b) == before, f"extraction changed {d}")


def analog(b):
    return any(type(x).__name__ in ("AnalogChain", "AnalogKron", "ConstantAnalogRotation", "InteractionBlock") for x in [b, *getattr(b, "blocks", ())])


def prims(ctx, b):
    d = describe(b)
    w = leaves(b)
    got = primitive_blocks(b)
    ctx.ok([id(x) for x in got] == [id(x) for x in w], f"primitive blocks of {d}")
    pauli = [x for x in w if type(x).__name__ in ("X", "Y", "Z", "I", "N")]
    ctx.ok([id(x) for x in get_pauli_blocks(b)] == [id(x) for x in pauli], f"Pauli blocks of {d}")
    only = len(pauli) == len(w)
    ctx.ok(block_is_qubit_hamiltonian(b) == only, f"is {d} a qubit Hamiltonian")
    try:
        get_pauli_blocks(b, raises=True)
        r = True
    except NotPauliBlockError:
        r = False
    ctx.ok(r == only, f"Pauli blocks of {d} with raises=True")


def unroll(ctx, b, n):
    d = describe(b)
    before = snap(b)
    terms = unroll_block_with_scaling(b)
    want = D.mat(b, n, VALS)
    got = np.zeros_like(want)
    for t, c in terms:
        got = got + D.num(c, VALS) * D.mat(t, n, VALS)
    ctx.close(got, want, f"weighted sum of the unrolled terms of {d}: {[(describe(t), str(c)) for t, c in terms]}")
    ctx.ok(snap(b) == before, f"unrolling changed {d}")
    ctx.ok(all(type(t).__name__ != "AddBlock" for t, _ in terms) , f"unrolled term of {d} is a sum")
    pre = [(X(0), Parameter(1.0))]
    r = unroll_block_with_scaling(b, block_list=list(pre))
    ctx.ok(len(r) == len(terms) + 1 and r[0][0] is pre[0][0] and D.num(r[0][1], VALS) == 1, f"unrolling {d} into a given list changes the terms already there")


def trainable(ctx, mk, names, value, how):
    b, others = mk()
    syms = {s for _, _, e in walk(b) for s in getattr(e, "free_symbols", ())}
    old = {s.name: s.trainable for s in syms}
    oldv = {s.name: s.value for s in syms}
    if how == "set":
        r = set_trainable(b, restricted_names=names, value=value) if names else set_trainable(b, value=value)
    elif how == "list":
        r = set_trainable([b, others], restricted_names=names, value=value) if names else set_trainable([b, others], value=value)
        ctx.ok(isinstance(r, list) and r[0] is b and r[1] is others, "list of blocks is returned as it was")
    else:
        r = (set_as_variational if value else set_as_fixed)(b, restricted_names=names) if names else (set_as_variational if value else set_as_fixed)(b)
    if how != "list":
        ctx.ok(r is b, "the block itself is returned")
    for _, _, e in walk(b):
        for s in getattr(e, "free_symbols", ()):
            want = value if (not names or s.name in names) else old[s.name]
            ctx.ok(s.trainable == want, f"{how}: parameter {s.name} trainable={s.trainable}, expected {want} (names {names}, value {value}) in {describe(b)}")
            ctx.ok(s.value == oldv[s.name], "stored value changed")


def hams(rng, n, depth, p):
    k = rng.choice(["pauli", "kron", "chain"] if depth == 0 else ["add", "add", "scale", "scaleadd", "kron", "pauli"])
    P = lambda q: rng.choice([X, Y, Z, N, I])(q)
    if k == "pauli":
        return P(rng.randrange(n))
    if k in ("kron", "chain"):
        qs = rng.sample(range(n), rng.randrange(1, n + 1))
        return (kron if k == "kron" else chain)(*[P(q) for q in qs])
    c = rng.choice([2, -0.5, 1.5, p["a"], p["b"] * 2, 0])
    if k == "add":
        return add(*[hams(rng, n, depth - 1, p) for _ in range(rng.choice([1, 2, 3]))])
    if k == "scale":
        return ScaleBlock(hams(rng, n, depth - 1, p), c)
    return ScaleBlock(add(*[hams(rng, n, depth - 1, p) for _ in range(2)]), c)


def run(ctx):
    P = {n: Parameter(n, trainable=(n in "ab"), value=DEFAULTS[n]) for n in NAMES}
    a, b, c, dd = (P[n] for n in NAMES)
    t = Parameter("t", trainable=False)
    exprs = [a, 2 * a + b, sympy.sin(c) * a, 0.7, 0, sympy.pi / 3]
    for nm in SINGLE:
        ctx.case(f"gate/{nm}", lambda: (extraction(ctx, getattr(Q, nm)(1)), prims(ctx, getattr(Q, nm)(1))))
    for k, e in enumerate(exprs):
        for nm in SINGLE_P:
            ctx.case(f"gate/{nm}/e{k}", lambda: extraction(ctx, getattr(Q, nm)(1, e)))
        for nm in TWO_P:
            ctx.case(f"gate/{nm}/e{k}", lambda: extraction(ctx, getattr(Q, nm)(1, 0, e)))
        for G in (MCRX, MCRY, MCRZ, MCPHASE):
            ctx.case(f"gate/{G.__name__}/e{k}", lambda: extraction(ctx, G((0, 2), 1, e)))
        ctx.case(f"gate/U/e{k}", lambda: extraction(ctx, U(0, e, b, e)))
        ctx.case(f"scale/e{k}", lambda: extraction(ctx, ScaleBlock(ScaleBlock(RX(0, a), e), c)))
        hm = torch.tensor([[1, 2 - 1j], [2 + 1j, 0]], dtype=torch.cdouble)
        gens = [X(0), add(a * X(0), b * Z(1)), kron(RX(0, c), Z(1)), ScaleBlock(add(X(0), ScaleBlock(Y(1), dd)), e), add(HamEvo(a * X(0), c), Z(1)), add(X(0) * a, X(0) * a)]
        for i, g in enumerate(gens):
            ctx.case(f"hamevo/{i}/e{k}", lambda: extraction(ctx, HamEvo(g, e)))
            ctx.case(f"hamevo-nested/{i}/e{k}", lambda: extraction(ctx, chain(RX(0, a), 2 * kron(H(3), HamEvo(g, e)))))
        ctx.case(f"hamevo-matrix/e{k}", lambda: extraction(ctx, chain(RX(0, a), HamEvo(hm, e, (0,)))))
        ctx.case(f"hamevo-parameter/e{k}", lambda: extraction(ctx, HamEvo(Parameter("gen", trainable=False), e, (0, 1))))
        an = [AnalogRX(e), AnalogRY(angle=e), AnalogRZ(e), AnalogRot(duration=e, omega=a, delta=b, phase=c), AnalogRot(duration=200, omega=e, delta=1.5), AnalogInteraction(e), AnalogInteraction(2 * a)]
        for i, g in enumerate(an):
            ctx.case(f"analog/{i}/e{k}", lambda: extraction(ctx, g))
            ctx.case(f"analog-chain/{i}/e{k}", lambda: extraction(ctx, chain(g, AnalogRX(a), AnalogInteraction(c))))
            ctx.case(f"analog-digital/{i}/e{k}", lambda: extraction(ctx, chain(RX(0, a), g, RY(0, e))))
        ctx.case(f"analog-kron/e{k}", lambda: extraction(ctx, kron(AnalogRX(e, qubit_support=(0, 1)), AnalogRY(e, qubit_support=(2, 3)))))
        ctx.case(f"analog-entangle/e{k}", lambda: extraction(ctx, entangle(e, qubit_support=(0, 1))))
    ctx.case("empty", lambda: extraction(ctx, chain()))
    for i in range(ctx.n(200, 2500)):
        rng = ctx.rng(f"tree{i}")
        n = rng.choice([1, 2, 3, 4])
        bt = tree(rng, range(n), rng.choice([1, 2, 3]))
        ctx.case(f"tree/{i}", lambda: (extraction(ctx, bt), prims(ctx, bt)))
    for i in range(ctx.n(200, 3000)):
        rng = ctx.rng(f"ham{i}")
        n = rng.choice([1, 2, 3])
        h = hams(rng, n, rng.choice([0, 1, 2, 3]), P)
        ctx.case(f"unroll/{i}", lambda: (unroll(ctx, h, n), prims(ctx, h)))
    def mk(i):
        def f():
            rng = ctx.rng(f"train{i}")
            ps = {n: Parameter(n, trainable=(n in "ab"), value=DEFAULTS[n]) for n in NAMES}
            pf = lambda r: [ps[r.choice(NAMES)], ps["a"] * 2 + ps["c"], sympy.sin(ps[r.choice(NAMES)]), 0.3][r.randrange(4)]
            x = chain(tree(rng, range(3), 2, params_fn=pf, scale=False), HamEvo(add(ps["a"] * X(0), ps["d"] * Z(1)), ps["b"]), ScaleBlock(RX(0, pf(rng)), ps["c"]))
            return x, RX(0, Parameter("other"))
        return f
    for i in range(ctx.n(30, 300)):
        rng = ctx.rng(f"names{i}")
        for names in ([], ["a"], ["c", "d"], ["nope"], ["ab"], rng.sample(NAMES, 2)):
            for value in (True, False):
                for how in ("set", "list", "as"):
                    ctx.case(f"trainable/{i}/{'-'.join(names)}/{value}/{how}", lambda: trainable(ctx, mk(i), names, value, how))
    def mx():
        hm = torch.tensor([[1, 2], [2, 0]], dtype=torch.cdouble)
        return chain(HamEvo(hm, Parameter("a"), (0,)), RX(0, Parameter("b", trainable=False))), RX(0, Parameter("other"))
    for names in ([], ["a"], ["b"]):
        for value in (True, False):
            ctx.case(f"trainable-matrix/{'-'.join(names)}/{value}", lambda: trainable(ctx, mx, names, value, "set"))
