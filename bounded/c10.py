"""C10 at run time: sample post-processing against direct computations."""
from bounded.gen import *
from oracle import dense as D
import itertools
from collections import Counter
import numpy as np
import torch
from qadence import QuantumCircuit, Register
from qadence.types import Endianness, ResultType
from qadence.utils import basis_to_int, int_to_basis, nqubits_to_basis, samples_to_integers
from qadence.measurements.utils import get_counts, empirical_average, get_qubit_indices_for_op, rotate, pauli_z_expectation, iterate_pauli_decomposition
from qadence.measurements.samples import compute_expectation as from_samples
from qadence.measurements.tomography import compute_expectation as tomography
from qadence.blocks.utils import unroll_block_with_scaling

BOUND = "all integers of width <= 9 (and large widths up to 1200 bits); counters over <= 5 qubits with <= 12 outcomes; terms of <= 4 factors on <= 4 qubits"
BIG, LITTLE = Endianness.BIG, Endianness.LITTLE


def bits(k, n, e):
    s = "".join("1" if (k >> (n - 1 - i)) & 1 else "0" for i in range(n))
    return s if e == BIG else s[::-1]


def conv(ctx, k, n, e):
    s = int_to_basis(k, n, e)
    ctx.ok(s == bits(k, n, e), f"int_to_basis({k}, {n}, {e}) = {s}")
    ctx.ok(basis_to_int(s, e) == k, f"basis_to_int({s}, {e}) = {basis_to_int(s, e)}")
    if e == BIG:
        ctx.ok(int_to_basis(k, n) == s and basis_to_int(s) == k, "default bit order")


def default_width(ctx, k, e):
    s = int_to_basis(k, endianness=e)
    ctx.ok(s == bits(k, max(1, k.bit_length()), e), f"int_to_basis({k}, endianness={e}) = {s}")
    ctx.ok(basis_to_int(s, e) == k, f"basis_to_int(int_to_basis({k}))")


def all_states(ctx, n, e):
    want = [bits(k, n, e) for k in range(2 ** n)]
    ctx.ok(list(nqubits_to_basis(n, ResultType.STRING, e)) == want, f"basis of {n} qubits, {e}")
    m = np.array([[int(c) for c in w] for w in want])
    ctx.close(nqubits_to_basis(n, ResultType.TORCH, e).numpy(), m, f"torch basis of {n} qubits, {e}")
    ctx.close(nqubits_to_basis(n, ResultType.NUMPY, e), m, f"numpy basis of {n} qubits, {e}")


def counter(rng, n):
    ks = rng.sample(range(2 ** n), rng.randrange(1, min(12, 2 ** n) + 1))
    return Counter({bits(k, n, BIG): rng.randrange(1, 60) for k in ks})


def marg(c, sup):
    out = {}
    for k, v in c.items():
        kk = "".join(k[i] for i in sup)
        out[kk] = out.get(kk, 0) + v
    return out


def counts(ctx, n, cs, sup):
    before = [dict(c) for c in cs]
    r = get_counts(cs, sup)
    ctx.ok(len(r) == len(cs), "one marginal per sample")
    for c, g in zip(cs, r):
        ctx.ok(dict(g) == marg(c, sup), f"marginal of {dict(c)} on {sup}: {dict(g)}")
        ctx.ok(sum(g.values()) == sum(c.values()), "counts lost")
    ctx.ok([dict(c) for c in cs] == before, "samples changed")
    avg = empirical_average(cs, sup)
    want = [sum(v * (-1) ** sum(int(k[i]) for i in sup) for k, v in c.items()) / sum(c.values()) for c in cs]
    ctx.close(np.asarray(avg), np.array(want), f"empirical average of {[dict(c) for c in cs]} on {sup}")
    for c in cs:
        for e in (BIG, LITTLE):
            g = samples_to_integers(c, e)
            ctx.ok(dict(g) == {int(k if e == BIG else k[::-1], 2): v for k, v in c.items()}, f"integers of {dict(c)}, {e}")


PAULI = {"X": X, "Y": Y, "Z": Z, "I": I}


def terms(rng, n):
    """a product of Pauli factors on different qubits (possibly nested), its leaves"""
    qs = rng.sample(range(n), rng.randrange(1, n + 1))
    fs = [PAULI[rng.choice("XYZI")](q) for q in qs]
    k = rng.randrange(6)
    if len(fs) == 1:
        return rng.choice([fs[0], kron(fs[0]), chain(fs[0])]), fs
    if k == 0:
        return chain(*fs), fs
    if k == 1 and len(fs) > 2:
        return kron(kron(*fs[:2]), *fs[2:]), fs
    if k == 2 and len(fs) > 2:
        return kron(fs[0], chain(*fs[1:])), fs
    return kron(*fs), fs


def rot_check(ctx, b, fs, n, circ):
    term = (b, Parameter(1.0))
    before = snap(circ.block)
    r = rotate(circ, term)
    R = D.mat(r.block, n, VALS) @ np.linalg.inv(D.mat(circ.block, n, VALS))
    sup = get_qubit_indices_for_op(term)
    ctx.ok(sorted(sup) == sorted(f.qubit_support[0] for f in fs if type(f).__name__ != "I"), f"qubits of {describe(b)}: {sup}")
    zs = np.eye(2 ** n)
    for q in sup:
        zs = zs @ D.mat(Z(q), n)
    ctx.close(R.conj().T @ zs @ R, D.mat(b, n), f"rotating {describe(b)} into the measurement basis")
    ctx.ok(r.register is circ.register or r.register == circ.register, "register of the rotated circuit")
    ctx.ok(snap(circ.block) == before, "circuit changed")
    for nm, P in PAULI.items():
        ctx.ok(get_qubit_indices_for_op(term, P(0)) == [f.qubit_support[0] for f in fs if type(f).__name__ == nm], f"qubits of {nm} in {describe(b)}")


class Exact:
    """a backend whose samples are the exact outcome frequencies (in units of 1/n_shots)"""
    def __init__(self, n, batch=1):
        self.n, self.batch, self.noise = n, batch, []
    def circuit(self, c):
        return c
    def sample(self, circuit, param_values, n_shots, state=None, noise=None, endianness=BIG, **kw):
        out = []
        self.noise.append(noise)
        st = start(self.n, state)
        for v in (VALS, {k: 0.5 * x for k, x in VALS.items()})[:self.batch]:
            psi = D.mat(circuit.block, self.n, v) @ st
            out.append(Counter({bits(k, self.n, endianness): n_shots * abs(psi[k]) ** 2 for k in range(2 ** self.n)}))
        return out


def start(n, state):
    return np.eye(2 ** n)[0] if state is None else state.numpy()[0]


def expect(b, n, circ, v, state=None):
    psi = D.mat(circ.block, n, v) @ start(n, state)
    return float((psi.conj() @ D.mat(b, n, v) @ psi).real)


def tomo(ctx, obs, n, circ, batch, state=None):
    be = Exact(n, batch)
    vs = (VALS, {k: 0.5 * x for k, x in VALS.items()})[:batch]
    r = tomography(circ, list(obs), {}, {"n_shots": 1000}, backend=be, state=state, noise=circ)
    ctx.ok(be.noise and all(x is circ for x in be.noise), "the noise given is the noise sampled with")
    want = np.array([[expect(o, n, circ, v, state) for o in obs] for v in vs])
    ctx.close(r.detach().numpy(), want, f"tomography with exact frequencies of {[describe(o) for o in obs]}")


def zsamples(ctx, obs, n, cs):
    r = from_samples(list(obs), cs)
    for o, got in zip(obs, r):
        d = np.diag(D.mat(o, n, VALS)).real
        want = [sum(v * d[int(k, 2)] for k, v in c.items()) / sum(c.values()) for c in cs]
        ctx.close(got.detach().numpy(), np.array(want), f"expectation from samples of {describe(o)}")


def obs(rng, n, zonly=False):
    def t():
        while True:
            b, fs = terms(rng, n)
            if not zonly or all(type(f).__name__ in "ZI" for f in fs):
                return b
    k = rng.randrange(5)
    c = lambda: rng.choice([2, -0.5, 1.5, 0.25])
    if k == 0:
        return t()
    if k == 1:
        return c() * t()
    if k == 2:
        return add(t(), c() * t())
    if k == 3:
        return c() * add(t(), c() * t(), t())
    return add(t(), c() * add(t(), t()))


def run(ctx):
    for n in range(1, 10):
        for e in (BIG, LITTLE):
            for k in range(2 ** n):
                ctx.case(f"convert/{n}/{k}/{e}", conv, ctx, k, n, e)
            ctx.case(f"states/{n}/{e}", all_states, ctx, n, e)
    for n in list(range(1, 70)) + [100, 513, 1100]:
        for k in (2 ** n - 1, 2 ** n, 2 ** n - 2 if n > 1 else 0, 2 ** (n - 1) + 1):
            for e in (BIG, LITTLE):
                ctx.case(f"width/{n}/{k}/{e}", default_width, ctx, k, e)
                ctx.case(f"convert-wide/{n}/{k}/{e}", conv, ctx, k, n + 2, e)
    ctx.case("too wide", lambda: ctx.ok(raises(lambda: int_to_basis(8, 3)), "8 does not fit in 3 qubits"))
    for i in range(ctx.n(300, 4000)):
        rng = ctx.rng(f"counts{i}")
        n = rng.choice([1, 2, 3, 4, 5])
        cs = [counter(rng, n) for _ in range(rng.choice([1, 1, 2, 3]))]
        sup = [rng.randrange(n) for _ in range(rng.randrange(0, n + 1))] if rng.random() < 0.3 else rng.sample(range(n), rng.randrange(0, n + 1))
        ctx.case(f"counts/{i}", counts, ctx, n, cs, sup)
    for i in range(ctx.n(120, 1500)):
        rng = ctx.rng(f"rot{i}")
        n = rng.choice([1, 2, 3, 4])
        b, fs = terms(rng, n)
        circ = QuantumCircuit(n, chain(*[tree(rng, range(n), 1, unitary=True), RX(n - 1, 0.3)]))
        ctx.case(f"rotate/{i}", rot_check, ctx, b, fs, n, circ)
    for i in range(ctx.n(120, 1500)):
        rng = ctx.rng(f"tomo{i}")
        n = rng.choice([1, 2, 3])
        circ = QuantumCircuit(n, chain(*[tree(rng, range(n), 2, unitary=True), RX(n - 1, 0.3), RY(0, Parameter("a", value=DEFAULTS["a"]))]))
        ctx.case(f"tomography/{i}", tomo, ctx, [obs(rng, n) for _ in range(rng.choice([1, 2]))], n, circ, rng.choice([1, 2]), rng.choice([None, some_state(rng, n)]))
    circ = QuantumCircuit(2, chain(RX(0, 0.4), RY(1, 1.1), CNOT(0, 1)))
    ctx.case("tomography/identity", tomo, ctx, [I(0), Z(0) + 3 * I(0), kron(Z(0), I(1))], 2, circ, 2)
    ctx.case("tomography/repeated factor", tomo, ctx, [chain(Z(0), Z(0)), kron(chain(Z(0), Z(0)), X(1))], 2, circ, 1)
    ctx.case("tomography/scale inside a product", tomo, ctx, [kron(2 * Z(0), Z(1))], 2, circ, 1)
    ctx.case("tomography/number operator", tomo, ctx, [N(0)], 2, circ, 1)
    for i in range(ctx.n(120, 1500)):
        rng = ctx.rng(f"zs{i}")
        n = rng.choice([1, 2, 3])
        cs = [counter(rng, n) for _ in range(rng.choice([1, 2]))]
        os_ = [o for o in (obs(rng, n, True) for _ in range(2)) if not o.is_identity]
        if os_:
            ctx.case(f"samples/{i}", zsamples, ctx, os_, n, cs)


def some_state(rng, n):
    v = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(2 ** n)])
    return torch.tensor(v / np.linalg.norm(v))[None]


def raises(f):
    try:
        f()
    except Exception:
        return True
    return False
