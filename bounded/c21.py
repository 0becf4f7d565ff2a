"""C21 at run time: shadows of states whose stabilizers give estimates without variance; estimates recomputed from the recorded snapshots."""
from bounded.gen import *
import itertools
import math
from collections import Counter
import numpy as np
import torch
import qadence.measurements.shadow as SH
from qadence import QuantumCircuit, QuantumModel, hea
from qadence.blocks import add, chain, kron
from qadence.measurements import Measurements
from qadence.measurements.shadow import classical_shadow, estimations, estimators, extract_operators, maximal_weight, number_of_samples
from qadence.operations import *
from qadence.types import BackendName
import oracle.dense as D

BOUND = ("circuits of 1 to 4 qubits; products of Pauli eigenstates and GHZ states with every kind of stabilizer term (estimates without variance), "
         "random circuits with the estimate recomputed from the recorded bases and outcomes; 100 to 2000 snapshots, batches of 1 to 3")
PREP = {"X+": lambda q: [H(q)], "X-": lambda q: [X(q), H(q)], "Y+": lambda q: [H(q), S(q)], "Y-": lambda q: [X(q), H(q), S(q)], "Z+": lambda q: [I(q)], "Z-": lambda q: [X(q)]}
PAULI = {"X": X, "Y": Y, "Z": Z, "I": I}


def seed(*a):
    s = zlib_(repr(a)) % (2 ** 31)
    np.random.seed(s)
    torch.manual_seed(s)


def zlib_(s):
    import zlib
    return zlib.crc32(s.encode())


class Fast:
    """a backend by dense matrices: one draw from the exact distribution per shot"""
    def __init__(self, name, n, s):
        self.name, self.n, self.rng, self.cache = name, n, np.random.RandomState(s), {}
    def circuit(self, c):
        return c
    def start(self, state):
        return np.eye(2 ** self.n)[:1].astype(complex) if state is None else np.asarray(state)
    def run(self, circuit, param_values={}, state=None, **kw):
        return torch.tensor(self.start(state) @ D.mat(circuit.block, self.n, VALS).T)
    def sample(self, circuit, param_values={}, n_shots=1, state=None, **kw):
        out = []
        key = describe(circuit.block)
        if key not in self.cache:
            self.cache[key] = D.mat(circuit.block, self.n, VALS)
        for psi in self.start(state) @ self.cache[key].T:
            p = np.abs(psi) ** 2
            ks = self.rng.choice(len(p), size=n_shots, p=p / p.sum())
            out.append(Counter(format(k, f"0{self.n}b") for k in ks))
        return out


def product(rng, fs):
    return fs[0] if len(fs) == 1 and rng.random() < .6 else kron(*fs)


def eigenstate(ctx, n, rng):
    """every observable made of the stabilizers of a product state is estimated without error"""
    ks = [rng.choice(list(PREP)) for _ in range(n)]
    c = QuantumCircuit(n, chain(*[g for q in range(n) for g in PREP[ks[q]](q)]))
    obs, want = [], []
    for _ in range(3):
        ts, v = [], 0.0
        for _ in range(rng.randint(1, 3)):
            qs = rng.sample(range(n), rng.randint(1, min(3, n)))
            fs, sg = [], 1
            for q in qs:
                if rng.random() < .25:
                    fs.append(I(q))
                else:
                    fs.append(PAULI[ks[q][0]](q))
                    sg *= 1 if ks[q][1] == "+" else -1
            co = round(rng.uniform(-2, 2), 2)
            ts.append(co * product(rng, fs))
            v += co * sg
        obs.append(ts[0] if len(ts) == 1 else add(*ts))
        want.append(v)
    seed("eig", n, ks)
    be = Fast(rng.choice([BackendName.PYQTORCH, BackendName.PYQTORCH, "another"]), n, zlib_(repr(ks)))
    r = estimations(c, obs, {}, shadow_size=1500, accuracy=.1, confidence=.5, backend=be)
    ctx.ok(tuple(r.shape) == (1, 3), f"shape {tuple(r.shape)}")
    ctx.close(r.detach().numpy()[0], np.array(want), f"state {ks}, observables {[describe(o) for o in obs]}", 1e-5)


def ghz(ctx, n):
    c = QuantumCircuit(n, chain(H(0), *[CNOT(q, q + 1) for q in range(n - 1)]))
    obs, want = [], []
    for w in itertools.product("IXYZ", repeat=n):
        m = np.array([[1]])
        for ch in w:
            m = np.kron(m, {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}[ch])
        psi = np.zeros(2 ** n)
        psi[0] = psi[-1] = 2 ** -.5
        e = (psi @ m @ psi).real
        if abs(e) > .5:
            fs = [PAULI[ch](q) for q, ch in enumerate(w)]
            obs.append(kron(*reversed(fs)) if len(obs) % 2 else kron(*fs))
            want.append(e)
    seed("ghz", n)
    r = estimations(c, obs, {}, shadow_size=2000, accuracy=.1, confidence=.9, backend=Fast(BackendName.PYQTORCH, n, n)).detach().numpy()[0]
    ctx.close(r, np.array(want), f"GHZ state of {n} qubits: {[describe(o) for o in obs]}", 1e-5)


def recompute(ctx, n, rng, batch):
    """the estimate is the documented function of the recorded snapshots"""
    f = FeatureParameter("x")
    c = QuantumCircuit(n, chain(*[RX(q, f * (q + 1)) for q in range(n)], *[g for g in ([CNOT(0, n - 1)] if n > 1 else [])], *[RZ(q, .3 + q) for q in range(n)], *[RY(q, 1.1 - q) for q in range(n)]))
    obs, dec = [], []
    for _ in range(2):
        ts = []
        for _ in range(rng.randint(1, 3)):
            qs = rng.sample(range(n), rng.randint(1, n))
            w = [rng.choice("XYZZI") for _ in qs]
            ts.append((round(rng.uniform(-2, 2), 2), w, qs))
        dec.append(ts)
        bl = [co * product(rng, [PAULI[a](q) for a, q in zip(w, qs)]) for co, w, qs in ts]
        obs.append(bl[0] if len(bl) == 1 else add(*bl))
    seed("re", n, batch, rng.random())
    conf, size = rng.choice([.1, .3, .8]), rng.choice([101, 140])
    rec = {}
    old = SH.classical_shadow
    def spy(*a, **k):
        rec["r"] = old(*a, **k)
        return rec["r"]
    xs = torch.tensor([rng.uniform(-2, 2) for _ in range(batch)])
    m = QuantumModel(c, obs)
    SH.classical_shadow = spy
    try:
        r = m.expectation({"x": xs}, measurement=Measurements(Measurements.SHADOW, options={"shadow_size": size, "accuracy": .1, "confidence": conf})).detach().numpy()
    finally:
        SH.classical_shadow = old
    if "r" not in rec:
        return
    ids, shadow = rec["r"]
    ctx.ok(ids.shape == (size, n) and len(shadow) == batch and all(tuple(s.shape) == (size, n) for s in shadow), f"shapes {ids.shape}, {[tuple(s.shape) for s in shadow]}")
    K = round(2 * math.log(2 * len(obs) / conf))
    g = size // K
    for b in range(batch):
        s = shadow[b].numpy()
        for o, ts in enumerate(dec):
            v = 0.0
            for co, w, qs in ts:
                need = [(q, "XYZ".index(a)) for a, q in zip(w, qs) if a != "I"]
                tr = []
                for k in range(K):
                    rows = [i for i in range(k * g, (k + 1) * g) if all(ids[i][q] == p for q, p in need)]
                    tr.append(sum(np.prod([s[i][q] for q, _ in need]) for i in rows) / len(rows) if rows else 0.0)
                v += co * (sorted(tr)[(K - 1) // 2] if need else 1.0)
            ctx.close(np.array([r[b][o]]), np.array([v]), f"estimate of {describe(obs[o])} for batch element {b} from {size} snapshots in {K} groups", 1e-5)


def statistics(ctx, n):
    """snapshots of a random state: the mean over snapshots in each basis agrees with the state (six standard deviations)"""
    rng = ctx.rng(f"st{n}")
    c = QuantumCircuit(n, chain(*[RX(q, .4 + q) for q in range(n)], *([CNOT(0, n - 1)] if n > 1 else []), *[RZ(q, .7 - q) for q in range(n)]))
    psi = D.mat(c.block, n) @ np.eye(2 ** n)[0]
    seed("st", n)
    N = 2000
    ids, shadow = classical_shadow(N, c, {}, backend=Fast(BackendName.PYQTORCH, n, 3))
    s = shadow[0].numpy()
    for w in itertools.product(range(3), repeat=n):
        rows = [i for i in range(N) if tuple(ids[i]) == w]
        p = 3.0 ** -n
        ctx.ok(abs(len(rows) - N * p) < 6 * math.sqrt(N * p * (1 - p)), f"basis {w} occurs {len(rows)} times in {N} snapshots")
        for q in range(n):
            P_ = D.mat([X, Y, Z][w[q]](q), n)
            e = float((psi.conj() @ P_ @ psi).real)
            got = float(np.mean(s[rows, q]))
            sd = math.sqrt(max(1e-12, 1 - e * e) / max(1, len(rows)))
            ctx.ok(abs(got - e) < 6 * sd + 1e-6, f"mean of qubit {q} in bases {w}: {got} instead of {e}")


def states(ctx, n):
    """an initial state is the start of every snapshot"""
    psi = np.zeros(2 ** n, dtype=complex)
    psi[-1] = 1
    seed("init", n)
    r = estimations(QuantumCircuit(n, chain(*[I(q) for q in range(n)])), [Z(q) for q in range(n)], {}, shadow_size=100, accuracy=.1, confidence=.9, state=torch.tensor(psi[None, :]))
    ctx.close(r.detach().numpy()[0], -np.ones(n), f"all ones as initial state of {n} qubits", 1e-6)


def budget(ctx, obs, k, acc, conf):
    ctx.ok(maximal_weight(obs) == k, f"weight of {[describe(o) for o in obs]}: {maximal_weight(obs)} instead of {k}")
    want = (round(34 * 3 ** k / acc ** 2), round(2 * math.log(2 * len(obs) / conf)))
    got = number_of_samples(obs, acc, conf)
    ctx.ok(abs(got[0] - want[0]) <= 1 and abs(got[1] - want[1]) <= (0 if abs((2 * math.log(2 * len(obs) / conf)) % 1 - .5) > 1e-6 else 1), f"budget {got} instead of {want}")


def run(ctx):
    for i in range(ctx.n(12, 60)):
        r = ctx.rng(f"e{i}")
        n = 1 + i % 4
        ctx.case(f"eigenstates/{i}", eigenstate, ctx, n, r)
    for n in (2, 3):
        ctx.case(f"ghz/{n}", ghz, ctx, n)
    for i in range(ctx.n(8, 40)):
        r = ctx.rng(f"r{i}")
        ctx.case(f"recompute/{i}", recompute, ctx, 1 + i % 3, r, 1 + i % 3)
    for n in (1, 2):
        ctx.case(f"statistics/{n}", statistics, ctx, n)
        ctx.case(f"initial state/{n}", states, ctx, n)
    for i in range(ctx.n(20, 100)):
        r = ctx.rng(f"b{i}")
        obs, k = [], 0
        for _ in range(r.randint(1, 4)):
            ts = []
            for _ in range(r.randint(1, 3)):
                qs = r.sample(range(5), r.randint(1, 4))
                w = [r.choice("XYZI") for _ in qs]
                k = max(k, len([a for a in w if a != "I"]))
                ts.append(round(r.uniform(.5, 2), 2) * kron(*[PAULI[a](q) for a, q in zip(w, qs)]))
            obs.append(ts[0] if len(ts) == 1 else add(*ts))
        ctx.case(f"budget/{i}", budget, ctx, obs, k, r.choice([.05, .1, .3]), r.choice([.05, .1, .7]))
