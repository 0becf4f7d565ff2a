"""Deterministic generators of block trees, parameter values and registers."""
from __future__ import annotations
import sympy
import torch
import qadence as Q
from qadence import (X, Y, Z, I, H, S, SDagger, T, N, RX, RY, RZ, PHASE, U, CNOT, CZ, MCZ, CRX, CRY, CRZ, CPHASE, MCRX, MCRY, MCRZ, MCPHASE, SWAP,
                     CSWAP, Toffoli, Projector, HamEvo, Zero, add, chain, kron)
from qadence.blocks.abstract import AbstractBlock
from qadence.blocks import ScaleBlock, AddBlock, ChainBlock, KronBlock, PutBlock
from qadence.blocks.matrix import MatrixBlock
from qadence.parameters import Parameter, FeatureParameter, VariationalParameter

NAMES = ["a", "b", "c", "d"]


def params(rng):
    """a parameter expression over shared names (values supplied through VALS)"""
    ps = {n: Parameter(n, trainable=(n in "ab"), value=DEFAULTS[n]) for n in NAMES}
    k = rng.randrange(9)
    x, y = ps[rng.choice(NAMES)], ps[rng.choice(NAMES)]
    return [x, x, y, 2 * x, x + y, x * y, sympy.sin(x), -x, round(rng.uniform(-3, 3), 3)][k]


DEFAULTS = {"a": -0.43, "b": 0.59, "c": 1.27, "d": -2.3}      # stored values differ from the supplied ones
VALS = {"a": 0.31, "b": -1.17, "c": 2.05, "d": 0.77}


def vals():
    return {k: torch.tensor([v], dtype=torch.double) for k, v in VALS.items()}


SINGLE = ["X", "Y", "Z", "I", "H", "S", "SDagger", "T", "N"]
SINGLE_P = ["RX", "RY", "RZ", "PHASE"]
TWO = ["CNOT", "CZ", "SWAP"]
TWO_P = ["CRX", "CRY", "CRZ", "CPHASE"]


def leaf(rng, qs, multi=True, hamevo=True, u=True, unitary=False, params_fn=params):
    """a random gate on (some of) the qubits qs"""
    qs = list(qs)
    rng.shuffle(qs)
    kinds = ["s"] * 3 + ["p"] * 3
    if u:
        kinds += ["u"]
    if multi and len(qs) >= 2:
        kinds += ["2"] * 2 + ["2p"] * 2
        if not unitary:
            kinds += ["proj"]
        if hamevo:
            kinds += ["h"]
    if multi and len(qs) >= 3:
        kinds += ["3", "3p"]
    k = rng.choice(kinds)
    if k == "s":
        nm = rng.choice([x for x in SINGLE if not (unitary and x == "N")])
        return getattr(Q, nm)(qs[0])
    if k == "p":
        return getattr(Q, rng.choice(SINGLE_P))(qs[0], params_fn(rng))
    if k == "u":
        return U(qs[0], params_fn(rng), params_fn(rng), params_fn(rng))
    if k == "2":
        return getattr(Q, rng.choice(TWO))(qs[0], qs[1])
    if k == "2p":
        return getattr(Q, rng.choice(TWO_P))(qs[0], qs[1], params_fn(rng))
    if k == "3":
        return rng.choice([lambda: Toffoli((qs[0], qs[1]), qs[2]), lambda: CSWAP(qs[0], qs[1], qs[2]), lambda: MCZ((qs[0], qs[1]), qs[2])])()
    if k == "3p":
        return rng.choice([MCRX, MCRY, MCRZ, MCPHASE])((qs[0], qs[1]), qs[2], params_fn(rng))
    if k == "proj":
        b = lambda: "".join(rng.choice("01") for _ in range(2))
        return Projector(b(), b(), (qs[0], qs[1]))
    if k == "h":
        g = rng.choice([lambda: add(X(qs[0]), Z(qs[1])), lambda: kron(Z(qs[0]), Z(qs[1])), lambda: add(kron(X(qs[0]), Y(qs[1])), 0.5 * Z(qs[0]))])()
        return HamEvo(g, params_fn(rng))
    raise AssertionError


def tree(rng, qs, depth, scale=True, **kw):
    """a random block tree on the qubits qs"""
    qs = list(qs)
    if depth == 0 or rng.random() < 0.15:
        return leaf(rng, qs, **kw)
    k = rng.choice(["chain", "kron", "add", "scale"] if scale else ["chain", "kron"])
    unitary = kw.get("unitary")
    if unitary and k in ("add", "scale"):
        k = "chain"
    if k == "chain":
        return chain(*[tree(rng, qs, depth - 1, scale, **kw) for _ in range(rng.choice([1, 2, 3]))])
    if k == "kron":
        if len(qs) < 2:
            return kron(tree(rng, qs, depth - 1, scale, **kw))
        rng.shuffle(qs)
        c = rng.randrange(1, len(qs))
        parts = [qs[:c], qs[c:]]
        if len(qs) > 2 and rng.random() < 0.4:
            parts = [[q] for q in qs]
        return kron(*[tree(rng, p, depth - 1, scale, **kw) for p in parts])
    if k == "add":
        return add(*[tree(rng, qs, depth - 1, scale, **kw) for _ in range(rng.choice([1, 2, 3]))])
    s = rng.choice([2, -1.5, 0.5, 1j, params(rng)])
    b = tree(rng, qs, depth - 1, scale, **kw)
    if rng.random() < 0.2:
        b = ScaleBlock(b, rng.choice([3, -0.25, params(rng)]))       # directly nested scale factors
        return ScaleBlock(b, s)
    return ScaleBlock(b, s) if rng.random() < 0.5 else s * b


def show(b):
    try:
        return Q.serialize(b) if False else repr(type(b).__name__) + str(b._to_dict())[:600]
    except Exception:
        return repr(b)[:600]


def describe(b):
    """compact reconstructible description of a block"""
    n = type(b).__name__
    if hasattr(b, "blocks") and n in ("ChainBlock", "KronBlock", "AddBlock"):
        return f"{n[:-5].lower()}({', '.join(describe(x) for x in b.blocks)})"
    if n == "ScaleBlock":
        return f"({b.parameters.parameter})*{describe(b.block)}"
    if n == "HamEvo":
        g = describe(b.generator) if isinstance(b.generator, AbstractBlock) else "tensor"
        return f"HamEvo({g}, {list(b.parameters.expressions())[0]})"
    if n in ("Projector", "N"):
        return f"{n}({b.ket},{b.bra},{tuple(b.qubit_support)})"
    p = f", {list(b.parameters.expressions())}" if hasattr(b, "parameters") else ""
    return f"{n}{tuple(b.qubit_support)}{p}"


def snap(b):
    """structural snapshot (frame condition): classes, supports, expressions, uuids, tags, noise"""
    n = type(b).__name__
    r = [n, b.tag, id(getattr(b, "noise", None)) if getattr(b, "noise", None) is not None else None]
    if n in ("ChainBlock", "KronBlock", "AddBlock", "PutBlock"):
        return (*r, tuple(snap(x) for x in b.blocks))
    if n == "ScaleBlock":
        return (*r, pm(b), snap(b.block))
    r.append(tuple(b.qubit_support))
    for at in ("control", "target", "ket", "bra"):
        if hasattr(b, at):
            r.append(str(getattr(b, at)))
    if hasattr(b, "parameters"):
        r.append(pm(b))
    if hasattr(b, "blocks"):
        r.append(tuple(snap(x) for x in b.blocks))
    if n == "HamEvo" and isinstance(b.generator, AbstractBlock):
        r.append(snap(b.generator))
    if n == "MatrixBlock":
        r.append(str(b.matrix))
    return tuple(r)


def pm(b):
    return tuple((k, u, sympy.srepr(e), symbols(e)) for k, (u, e) in b.parameters._name_dict.items())


def symbols(e):
    """the parameters of an expression with their stored attributes"""
    return tuple(sorted((s.name, str(getattr(s, "value", None)), str(getattr(s, "trainable", None)), str(getattr(s, "is_time", None))) for s in getattr(e, "free_symbols", ())))
