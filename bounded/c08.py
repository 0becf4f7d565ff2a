"""C08 at run time: block_to_tensor, the diagonal form, the default simulator and expectation values against the dense oracle."""
from bounded.gen import *
from bounded.gen import params as gparams
from bounded.run import Skip
import itertools, math
import numpy as np
from oracle.dense import mat, num
import qadence as Q
from qadence import QuantumCircuit, Register, run as qrun, expectation as qexp, TDagger
from qadence.blocks.block_to_tensor import block_to_diagonal, block_to_tensor
from qadence.blocks.matrix import MatrixBlock
from qadence.types import Endianness, TensorType

BOUND = ("every gate class on permuted, gapped and shifted qubits, requested supports: own, full, and supersets with gaps; both endianness conventions; random trees of depth <= 3 on <= 4 qubits; random complex states, batches of 1..4 "
         "states and parameter values; diagonal forms; expectation values of nested scaled observables")
TOL = 1e-6
BIG, LITTLE = Endianness.BIG, Endianness.LITTLE


def on(b, S, env, endianness):
    """oracle: operator of b on the qubits of S in ascending order"""
    S = sorted(S)
    n = max(S) + 1
    m = mat(b, n, env)
    idx = []
    for i in range(2 ** len(S)):
        bits = format(i, f"0{len(S)}b")
        if endianness == LITTLE:
            bits = bits[::-1]
        full = ["0"] * n
        for q, x in zip(S, bits):
            full[q] = x
        idx.append(int("".join(full), 2))
    return m[np.ix_(idx, idx)]


def values(env):
    return {k: torch.tensor([v], dtype=torch.double) for k, v in env.items()}


def names(b):
    return {s.name for e in Q.blocks.utils.expressions(b) for s in getattr(e, "free_symbols", ())}


def sub(env, b):
    return {k: v for k, v in env.items() if k in names(b)}


def offdiag(b):
    """does the tree contain a projector |ket><bra| with ket != bra (its matrix form is a known finding)?"""
    if getattr(b, "ket", None) is not None:
        return b.ket != b.bra
    kids = list(getattr(b, "blocks", ())) + [x for x in (getattr(b, "block", None), getattr(b, "generator", None) if isinstance(b, HamEvo) else None) if isinstance(x, Q.AbstractBlock)]
    return any(offdiag(x) for x in kids)


def dense(ctx, b, S=None, env=None, endianness=BIG, full=False, force=False):
    if offdiag(b) and not force:
        raise Skip("off-diagonal projector")
    env = VALS if env is None else env
    kw = {}
    want = set(b.qubit_support)
    if S is not None:
        kw["qubit_support"] = tuple(S)
        want = set(S)
    elif full:
        kw["use_full_support"] = True
        want = set(range(b.n_qubits))
    before = snap(b)
    t = block_to_tensor(b, values(sub(env, b)), endianness=endianness, **kw)
    ctx.ok(t.ndim == 3 and t.shape[0] == 1, f"shape {tuple(t.shape)} of the matrix of {describe(b)}")
    ctx.close(t[0].detach().numpy(), on(b, want, env, endianness), f"matrix of {describe(b)} on {sorted(want)}, {endianness}", TOL)
    ctx.ok(snap(b) == before, "block changed by block_to_tensor")


def batch_matrix(ctx, b, envs):
    if offdiag(b):
        raise Skip("off-diagonal projector")
    vs = {k: torch.tensor([e[k] for e in envs], dtype=torch.double) for k in envs[0] if k in names(b)}
    t = block_to_tensor(b, vs)
    for i, e in enumerate(envs):
        m = t[i if t.shape[0] > 1 else 0].detach().numpy()
        ctx.close(m, on(b, set(b.qubit_support), e, BIG), f"batch element {i} of the matrix of {describe(b)}", TOL)


def diagonal(ctx, b, S=None, env=None, endianness=BIG):
    env = VALS if env is None else env
    want = on(b, set(b.qubit_support) if S is None else S, env, endianness)
    kw = {} if S is None else {"qubit_support": tuple(S)}
    t = block_to_tensor(b, values(sub(env, b)), tensor_type=TensorType.SPARSEDIAGONAL, endianness=endianness, **kw)
    ctx.close(t.to_dense().detach().numpy(), want, f"diagonal form of {describe(b)}, {endianness}, support {S}", TOL)
    d = block_to_diagonal(b, values(sub(env, b)), endianness=endianness, **kw)
    ctx.close(d.detach().numpy(), np.diag(want), f"diagonal vector of {describe(b)}, {endianness}, support {S}", TOL)


def rstate(rng, n, batch):
    g = np.random.default_rng(rng.randrange(2 ** 31))
    s = g.normal(size=(batch, 2 ** n)) + 1j * g.normal(size=(batch, 2 ** n))
    return s / np.linalg.norm(s, axis=1, keepdims=True)


def simulate(ctx, b, n, state=None, envs=None, endianness=BIG, reg=None):
    envs = [VALS] if envs is None else envs
    vs = {k: torch.tensor([e[k] for e in envs], dtype=torch.double) for k in envs[0] if k in names(b)}
    circ = QuantumCircuit(reg or n, b)
    before = snap(circ.block)
    kw = {} if state is None else {"state": torch.tensor(state)}
    out = qrun(circ, values=vs, endianness=endianness, **kw).detach().numpy()
    ctx.ok(snap(circ.block) == before, "block changed by running it")
    B = max(len(envs) if vs else 1, 1 if state is None else len(state))
    ctx.ok(out.shape == (B, 2 ** n), f"shape {out.shape} of the final state of {describe(b)}, batch {B}")
    for i in range(B):
        e = envs[i] if len(envs) > 1 else envs[0]
        s = np.eye(2 ** n)[0] if state is None else state[i if len(state) > 1 else 0]
        w = mat(b, n, e) @ s
        if endianness == LITTLE:
            w = np.array([w[int(format(j, f"0{n}b")[::-1], 2)] for j in range(2 ** n)])
        ctx.close(out[i], w, f"state {i} after {describe(b)}, {endianness}", TOL)


def expect(ctx, c, obs, n, envs=None, state=None):
    envs = [VALS] if envs is None else envs
    nm = names(c).union(*[names(o) for o in obs])
    vs = {k: torch.tensor([e[k] for e in envs], dtype=torch.double) for k in envs[0] if k in nm}
    kw = {} if state is None else {"state": torch.tensor(state)}
    out = qexp(QuantumCircuit(n, c), observable=list(obs), values=vs, **kw).detach().numpy()
    B = max(len(envs) if vs else 1, 1 if state is None else len(state))
    ctx.ok(out.shape == (B, len(obs)), f"shape {out.shape} of expectation values, expected {(B, len(obs))}")
    for i in range(B):
        e = envs[i] if len(envs) > 1 else envs[0]
        s = np.eye(2 ** n)[0] if state is None else state[i if len(state) > 1 else 0]
        w = mat(c, n, e) @ s
        for j, o in enumerate(obs):
            m = mat(o, n, e)
            ctx.close(out[i, j], np.real(np.conj(w) @ m @ w), f"expectation {i},{j} of {describe(o)} after {describe(c)}", 2e-6)


def herm(rng, n):
    """a random Hermitian observable: nested sums of scaled Pauli strings"""
    def term():
        qs = rng.sample(range(n), rng.randint(1, n))
        ps = [rng.choice([X, Y, Z, N])(q) for q in qs]
        return kron(*ps) if len(ps) > 1 else ps[0]
    s = lambda: rng.choice([2.0, -0.5, 1.25, Parameter("a", trainable=True, value=DEFAULTS["a"]), 2 * Parameter("c", trainable=False, value=DEFAULTS["c"]), -1])
    k = rng.randrange(5)
    if k == 0:
        return term()
    if k == 1:
        return s() * term()
    if k == 2:
        return add(s() * term(), term(), s() * term())
    if k == 3:
        return s() * add(term(), s() * term())
    return add(term(), s() * add(s() * term(), term()))


def ordered_leaves():
    a, c = Parameter("a", trainable=True, value=DEFAULTS["a"]), Parameter("c", trainable=False, value=DEFAULTS["c"])
    rs = np.random.default_rng(5)
    def herm_m(k):
        m = rs.normal(size=(2 ** k, 2 ** k)) + 1j * rs.normal(size=(2 ** k, 2 ** k))
        return torch.tensor(m + m.conj().T)
    def unit(k):
        q, r = np.linalg.qr(rs.normal(size=(2 ** k, 2 ** k)) + 1j * rs.normal(size=(2 ** k, 2 ** k)))
        return torch.tensor(q)
    out = []
    for q in (0, 1, 3):
        for g in ("I", "X", "Y", "Z", "H", "S", "SDagger", "T", "TDagger"):
            out.append((f"{g}({q})", getattr(Q, g)(q)))
        out.append((f"N({q})", N(q)))
        try:
            out.append((f"N0({q})", N(q, state="0")))
        except TypeError:
            pass
        for g in ("RX", "RY", "RZ", "PHASE"):
            out.append((f"{g}({q})", getattr(Q, g)(q, a)))
        out.append((f"U({q})", U(q, a, c, 2 * a)))
        out.append((f"P({q})", Projector("1", "0", q)))
        out.append((f"M({q})", MatrixBlock(unit(1), (q,))))
        out.append((f"hevo({q})", HamEvo(herm_m(1), c, (q,))))
    for p in ((0, 1), (1, 0), (0, 2), (2, 0), (3, 1)):
        for g in ("CNOT", "CZ", "SWAP"):
            out.append((f"{g}{p}", getattr(Q, g)(*p)))
        for g in ("CRX", "CRY", "CRZ", "CPHASE"):
            out.append((f"{g}{p}", getattr(Q, g)(*p, a * c)))
        out.append((f"P{p}", Projector("10", "01", p)))
        out.append((f"P2{p}", Projector("01", "11", p)))
        out.append((f"M{p}", MatrixBlock(unit(2), p)))
        out.append((f"hevoT{p}", HamEvo(herm_m(2), c, p)))
        out.append((f"hevoB{p}", HamEvo(add(kron(X(p[0]), Y(p[1])), 0.5 * Z(p[0])), a)))
        out.append((f"hevoP{p}", HamEvo(add(a * kron(Z(p[0]), Z(p[1])), c * X(p[1])), 0.7)))
    for p in ((0, 1, 2), (2, 0, 1), (1, 2, 0), (0, 2, 3), (3, 0, 2)):
        out += [(f"Toffoli{p}", Toffoli(p[:2], p[2])), (f"CSWAP{p}", CSWAP(p[0], p[1], p[2])), (f"MCZ{p}", MCZ(p[:2], p[2])), (f"M{p}", MatrixBlock(unit(3), p)), (f"P{p}", Projector("110", "011", p)), (f"hevoT{p}", HamEvo(herm_m(3), a, p))]
        out += [(f"{g.__name__}{p}", g(p[:2], p[2], a)) for g in (MCRX, MCRY, MCRZ, MCPHASE)]
    out.append(("MCZ(0,1,2),3", MCZ((0, 1, 2), 3)))
    out.append(("MCRX(2,3,0),1", MCRX((2, 3, 0), 1, c)))
    out.append(("Zero", Zero()))
    return out


def run(ctx):
    L = ordered_leaves()
    for nm, b in L:
        for e in (BIG, LITTLE):
            ctx.case(f"dense/{nm}/own/{e.value}", dense, ctx, b, None, None, e)
            ctx.case(f"dense/{nm}/sup/{e.value}", dense, ctx, b, sorted(set(b.qubit_support) | {0, 2, 4}), None, e)
        ctx.case(f"dense/{nm}/full", dense, ctx, b, None, None, BIG, True)
        if nm == "Zero" or nm.startswith("TDagger"):
            continue
        n = max(b.qubit_support) + 1
        r = ctx.rng(nm)
        ctx.case(f"sim/{nm}/zero", simulate, ctx, b, n)
        ctx.case(f"sim/{nm}/state", simulate, ctx, b, n, rstate(r, n, 1))
        ctx.case(f"sim/{nm}/wide", simulate, ctx, b, max(n, 3), rstate(r, max(n, 3), 1), None, LITTLE)
        envs = [{k: round(r.uniform(-3, 3), 3) for k in VALS} for _ in range(3)]
        ctx.case(f"simbatch/{nm}/values", simulate, ctx, b, n, None, envs)
        ctx.case(f"simbatch/{nm}/states", simulate, ctx, b, n, rstate(r, n, 2))
    for i in range(ctx.n(70, 800)):
        r = ctx.rng(f"t{i}")
        n = r.choice([2, 3, 4])
        b = tree(r, list(range(n)), r.choice([1, 2, 3]))
        e = r.choice([BIG, LITTLE])
        ctx.case(f"dense/tree/{i}", dense, ctx, b, r.choice([None, list(range(n)), list(range(n)) + [n + 1]]), None, e)
        ctx.case(f"sim/tree/{i}", simulate, ctx, b, n, rstate(r, n, 1) if r.random() < .7 else None, None, e)
    for i in range(ctx.n(40, 400)):
        r = ctx.rng(f"u{i}")
        n = r.choice([2, 3])
        b = tree(r, list(range(n)), r.choice([1, 2]), unitary=True)
        envs = [{k: round(r.uniform(-3, 3), 3) for k in VALS} for _ in range(r.choice([2, 3, 4]))]
        ctx.case(f"simbatch/tree/{i}", simulate, ctx, b, n, rstate(r, n, 1) if r.random() < .5 else None, envs)
        ctx.case(f"matbatch/tree/{i}", batch_matrix, ctx, b, envs)
    for i in range(ctx.n(40, 400)):
        r = ctx.rng(f"e{i}")
        n = r.choice([2, 3])
        c = tree(r, list(range(n)), r.choice([1, 2]), unitary=True)
        obs = [herm(r, n) for _ in range(r.choice([1, 2, 3]))]
        envs = None if r.random() < .5 else [{k: round(r.uniform(-2, 2), 3) for k in VALS} for _ in range(r.choice([2, 3]))]
        ctx.case(f"expect/{i}", expect, ctx, c, obs, n, envs, rstate(r, n, 1) if r.random() < .4 else None)
    ctx.case("matrix of |1><0|", dense, ctx, Projector("1", "0", 0), None, None, BIG, False, True)
    a = Parameter("a", trainable=True, value=DEFAULTS["a"])
    D = {"Z": Z(1), "ZZ": kron(Z(0), Z(2)), "sum": add(Z(0), 2 * Z(1), kron(Z(0), Z(1))), "par": a * kron(Z(0), Z(2)), "nest": 2 * add(Z(0), 0.5 * kron(Z(1), Z(2))), "I": kron(I(0), Z(1)),
         "chain": chain(Z(0), Z(1)), "zz same": chain(Z(0), kron(Z(0), Z(1))), "neg": -Z(0) - 3 * Z(1), "3": kron(Z(2), Z(0), Z(1)), "hi": kron(Z(3), Z(1)), "scaled": kron(2 * Z(0), Z(1))}
    for nm, b in D.items():
        for e in (BIG, LITTLE):
            for S in (None, range(4), (0, 1, 2, 3, 5)):
                ctx.case(f"diag/{nm}/{'own' if S is None else len(tuple(S))}/{e.value}", diagonal, ctx, b, S, None, e)
    for nm in ("E", "S", "I", "N", "beta", "gamma", "zeta", "Q", "O", "pi", "x_1", "x1_2", "theta_10", "lam", "Chi", "re", "sign"):
        p = Parameter(nm, trainable=False, value=0.37)
        env = {**VALS, nm: 0.63}
        ctx.case(f"names/{nm}", expect, ctx, RX(0, p), [p * Z(0), 2 * p * add(Z(0), X(1)), add(1.5 * p * Z(1), Y(0))], 2, [env])
    b_, c_ = Parameter("b", trainable=True, value=DEFAULTS["b"]), Parameter("c", trainable=False, value=DEFAULTS["c"])
    for nm, s in {"0.5a": 0.5 * a, "1.5a+b": 1.5 * a + b_, "a*b*c": a * b_ * c_, "a-b-c": a - b_ - c_, "a/3": a / 3, "sin": sympy.sin(a), "pow": a ** 2, "cos": sympy.cos(0.25 * a * c_), "exp": sympy.exp(a), "1e-7": 1e-7 * a, "1e20": 1e20 * a / 1e20, "pi": sympy.pi * a,
                  "sqrt": sympy.sqrt(c_), "a/c": a / c_, "rat": sympy.Rational(2, 7) * a, "sum4": a + b_ + c_ + 0.5, "a^0.5": c_ ** 0.5, "tan": sympy.tan(a), "log": sympy.log(c_), "neg": -a}.items():
        ctx.case(f"scale/{nm}", expect, ctx, H(0), [s * Z(0), s * add(X(0), 2 * Z(1))], 2)
        ctx.case(f"scale/{nm}/dense", dense, ctx, s * kron(Z(0), X(1)))
