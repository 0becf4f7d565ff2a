"""C19 at run time: the overlap of every method against the states of an independent dense simulation; the counter forms and
divergences against their definitions."""
from bounded.gen import *
import math
from collections import Counter
import numpy as np
import torch
from qadence import FeatureParameter, QuantumCircuit, VariationalParameter, hea
from qadence.blocks import chain, kron
from qadence.operations import *
from qadence.overlap import (Overlap, fidelity, overlap_compute_uncompute, overlap_exact, overlap_hadamard_test, overlap_jensen_shannon, overlap_swap_test)
from qadence.divergences import js_divergence, norm_difference, shannon_entropy
from qadence.types import DiffMode, OverlapMethod as M
import oracle.dense as D

BOUND = ("circuits of 1 to 3 qubits with random gates, features in bra and ket, in one of them or in none, batches of 1 to 4 values, all methods, exact and with 4000 shots (six standard deviations); "
         "random counters up to 5 qubits and random states for the post-processing")
COMBINED = (M.COMPUTE_UNCOMPUTE, M.SWAP_TEST, M.HADAMARD_TEST)


def circuit(rng, n, x):
    """gates on n qubits, x: an expression or None; not all gates need cover all qubits"""
    gs = []
    for _ in range(rng.randint(2, 5)):
        q = rng.randrange(n)
        p = rng.choice([x, 2 * x, x ** 2 + .3]) if x is not None and rng.random() < .6 else round(rng.uniform(-3, 3), 2)
        g = rng.choice([RX, RY, RZ, PHASE])(q, p)
        gs.append(g)
        if n > 1 and rng.random() < .5:
            a, b = rng.sample(range(n), 2)
            gs.append(rng.choice([CNOT(a, b), CRX(a, b, p), SWAP(a, b), CZ(a, b), kron(H(a), S(b)), kron(S(a), SDagger(b))]))
        elif rng.random() < .4:
            gs.append(rng.choice([H(q), S(q), SDagger(q), HamEvo(0.4 * X(q) + 0.7 * Z(q), p)]))
    if x is not None and not any(str(x) in str(g) for g in gs):
        gs.append(RY(rng.randrange(n), x))
    if max(q for g in gs for q in g.qubit_support) < n - 1:
        gs.append(RX(n - 1, .37))
    return QuantumCircuit(n, chain(*gs))


def states(c, n, name, vs):
    if vs is None:
        return [D.mat(c.block, n, {})[:, 0]]
    return [D.mat(c.block, n, {name: v})[:, 0] for v in vs]


def pairs(ctx, rng, n, method, form, shots):
    x = FeatureParameter("phi") if form in ("both", "bra", "same", "scalars", "one and many") else None
    y = FeatureParameter("psi") if form in ("both", "ket", "scalars", "one and many") else (x if form == "same" else None)
    bra, ket = circuit(rng, n, x), circuit(rng, n, y)
    val = lambda k: [round(rng.uniform(-3, 3), 3) for _ in range(k)]
    k = rng.randint(1, 4)
    bv = val({"scalars": 1, "one and many": 1}.get(form, k)) if x is not None else None
    kv = val({"scalars": 1, "both": rng.randint(1, 4), "one and many": 3}.get(form, k)) if y is not None else None
    if form == "same" and method in COMBINED:
        kv = list(bv)
    tens = (lambda v: torch.tensor(v[0], dtype=torch.float64)) if form == "scalars" else (lambda v: torch.tensor(v, dtype=torch.float64))
    B = {} if bv is None else {"phi": tens(bv)}
    K = {} if kv is None else {("phi" if form == "same" else "psi"): tens(kv)}
    keep = {a: t.clone() for a, t in list(B.items()) + [("ket" + a, t) for a, t in K.items()]}
    bra_shown, ket_shown = str(bra), str(ket)
    o = Overlap(bra, ket, method=method)
    ctx.ok((str(bra), str(ket)) == (bra_shown, ket_shown), "the circuits changed")
    torch.manual_seed(rng.randrange(10 ** 6)); np.random.seed(rng.randrange(10 ** 6))
    got = o.forward(B, K, n_shots=shots).detach().numpy() if rng.random() < .5 else o(B, K, n_shots=shots).detach().numpy()
    ctx.ok(all(torch.equal(keep[a], t) for a, t in B.items()) and all(torch.equal(keep["ket" + a], t) for a, t in K.items()), "the given values changed")
    bs, ks = states(bra, n, "phi", bv), states(ket, n, "phi" if form == "same" else "psi", kv)
    if method == M.JENSEN_SHANNON:
        f = lambda b, k: 1 - jsd(np.abs(b) ** 2, np.abs(k) ** 2)
    else:
        f = lambda b, k: abs(np.vdot(b, k)) ** 2
    if form in ("both", "scalars", "one and many"):
        want = np.array([[f(b, k) for k in ks] for b in bs])
    else:
        m = max(len(bs), len(ks))
        want = np.array([[f(bs[min(i, len(bs) - 1)], ks[min(i, len(ks) - 1)])] for i in range(m)])
    ctx.ok(got.shape == want.shape, f"{method} ({form}): result of shape {got.shape}, {want.shape} expected")
    tol = 2e-5 if not shots else 6 * (1.2 if method == M.COMPUTE_UNCOMPUTE else 3) * .5 / math.sqrt(shots) + (.02 if method == M.JENSEN_SHANNON else 0)
    ctx.ok(float(np.max(np.abs(got - want))) < tol, f"{method} ({form}) of\n{bra}\nand\n{ket}\nwith {bv}, {kv}: {got.round(4).tolist()}, {want.round(4).tolist()} expected")


def jsd(p, q):
    m = (p + q) / 2
    h = lambda v: -sum(a * math.log(a) for a in v if a > 1e-15)
    return h(m) - (h(p) + h(q)) / 2


def initial(ctx, rng, n, which, method):
    """initial states of bra and ket"""
    g = np.random.default_rng(rng.randrange(2 ** 31))
    def st():
        v = g.normal(size=(1, 2 ** n)) + 1j * g.normal(size=(1, 2 ** n))
        return v / np.linalg.norm(v)
    s, t = st() if "bra" in which else None, st() if "ket" in which else None
    x, y = FeatureParameter("phi"), FeatureParameter("psi")
    bra, ket = circuit(rng, n, x), circuit(rng, n, y)
    bv, kv = [.4, -1.2], [.9]
    shots = 4000 if method == M.JENSEN_SHANNON else 0
    z = np.eye(2 ** n)[:1]
    T = lambda v: None if v is None else torch.tensor(v)
    o = Overlap(bra, ket, method=method)
    torch.manual_seed(rng.randrange(10 ** 6))
    got = o({"phi": torch.tensor(bv)}, {"psi": torch.tensor(kv)}, bra_state=T(s), ket_state=T(t), n_shots=shots).detach().numpy()
    b = [D.mat(bra.block, n, {"phi": v}) @ (z if s is None else s)[0] for v in bv]
    k = [D.mat(ket.block, n, {"psi": v}) @ (z if t is None else t)[0] for v in kv]
    f = (lambda b, k: 1 - jsd(np.abs(b) ** 2, np.abs(k) ** 2)) if shots else (lambda b, k: abs(np.vdot(b, k)) ** 2)
    ctx.close(got, np.array([[f(u, v) for v in k] for u in b]), f"{method} from initial states of {which}", .12 if shots else 2e-5)


def rejects(ctx, rng, n, method):
    x = FeatureParameter("phi")
    o = Overlap(circuit(rng, n, x), circuit(rng, n, x), method=method)
    try:
        r = o({"phi": torch.tensor([.3])}, {"phi": torch.tensor([.8])})
    except ValueError:
        return
    ctx.ok(False, f"{method}: different values of one parameter in bra and ket accepted, {r}")


def trained(ctx, rng, n, method):
    """trainable parameters of bra and ket: the value and its gradient"""
    x = FeatureParameter("phi")
    w = VariationalParameter("w", value=.7)
    bra = QuantumCircuit(n, chain(circuit(rng, n, x).block, RX(0, w), RY(n - 1, 1.3)))
    ket = QuantumCircuit(n, chain(circuit(rng, n, None).block, RY(0, w * 2), RX(n - 1, .4)))
    o = Overlap(bra, ket, method=method)
    vs = [.3, -1.1]
    def value(wv):
        b = [D.mat(bra.block, n, {"phi": v, "w": wv})[:, 0] for v in vs]
        k = D.mat(ket.block, n, {"w": wv})[:, 0]
        return np.array([[abs(np.vdot(q, k)) ** 2] for q in b])
    r = o({"phi": torch.tensor(vs, dtype=torch.float64)}, {})
    ctx.close(r.detach().numpy(), value(.7), f"{method} with a trained parameter in bra and ket", 2e-5)
    ps = [p for k, p in o.named_parameters() if p.requires_grad]
    r.sum().backward()
    g = sum(float(p.grad.sum()) for p in ps if p.grad is not None)
    e = 1e-4
    ctx.ok(abs(g - float((value(.7 + e) - value(.7 - e)).sum() / (2 * e))) < 1e-4, f"{method}: derivative {g} of the overlap by the shared trained parameter")


def counters(rng, n, k, shots):
    out = []
    for _ in range(k):
        c = Counter()
        ks = ["".join(rng.choice("01") for _ in range(n)) for _ in range(rng.randint(1, 6))]
        for _ in range(shots):
            c[rng.choice(ks)] += 1
        out.append(c)
    return out


def post(ctx, rng, n):
    shots = rng.randint(1, 60)
    a, b = counters(rng, n, 3, shots), counters(rng, n, 3, shots)
    keep = [Counter(c) for c in a]
    z = lambda c: sum(v for k, v in c.items() if k[0] == "0") / shots
    ctx.close(overlap_compute_uncompute(a).numpy(), np.array([c["0" * n] / shots for c in a]), "fraction of all-zero outcomes")
    ctx.close(overlap_swap_test(a).numpy(), np.array([2 * z(c) - 1 for c in a]), "swap test from counts")
    ctx.close(overlap_hadamard_test(a, b).numpy(), np.array([(2 * z(c) - 1) ** 2 + (2 * z(d) - 1) ** 2 for c, d in zip(a, b)]), "Hadamard test from counts")
    def dist_(c, ks):
        return np.array([c.get(k, 0) / shots for k in ks])
    both = [sorted(set(c) | set(d)) for c, d in zip(a, b)]
    js = [jsd(dist_(c, k), dist_(d, k)) for c, d, k in zip(a, b, both)]
    ctx.close(overlap_jensen_shannon(a, b).numpy(), np.array([1 - v for v in js]), "Jensen-Shannon overlap", 1e-5)
    for c, d, k, v in zip(a, b, both, js):
        p, q = dist_(c, k), dist_(d, k)
        ctx.ok(abs(js_divergence(c, d) - v) < 1e-9, f"js_divergence({c}, {d})")
        ctx.ok(abs(js_divergence(c, Counter({a: 3 * b for a, b in d.items()})) - v) < 1e-9, f"js_divergence with three times the shots")
        ctx.ok(abs(js_divergence(d, c) - v) < 1e-9 and -1e-12 <= js_divergence(c, d) <= math.log(2) + 1e-12 and abs(js_divergence(c, c)) < 1e-12, "divergence: symmetric, between 0 and log 2, zero for equal counters")
        ctx.ok(abs(norm_difference(c, d) - float(np.linalg.norm(p - q))) < 1e-9, f"norm_difference({c}, {d}) = {norm_difference(c, d)}")
        e = Counter(c); e["2" * n] = 0
        ctx.ok(abs(js_divergence(e, d) - v) < 1e-9, "an outcome counted zero times matters")
        ctx.ok(abs(shannon_entropy(Counter({i: w for i, w in enumerate(p)})) + sum(w * math.log(w) for w in p if w)) < 1e-9, "entropy")
    ctx.ok(keep == a, "the counters changed")


def vectors(ctx, rng, n):
    g = np.random.default_rng(rng.randrange(2 ** 31))
    def st(k):
        v = g.normal(size=(k, 2 ** n)) + 1j * g.normal(size=(k, 2 ** n))
        return v / np.linalg.norm(v, axis=1, keepdims=True)
    for k in (1, 3):
        a, b = st(k), st(k)
        t = lambda v: torch.tensor(v)
        w = np.abs((a.conj() * b).sum(1)) ** 2
        ctx.close(overlap_exact(t(a), t(b)).numpy(), w, "exact overlap of states")
        ctx.close(fidelity(t(a), t(b)).numpy(), w, "fidelity of states")
        ctx.close(overlap_compute_uncompute(t(a)).numpy(), np.abs(a[:, 0]) ** 2, "weight of the zero state")
        p = lambda v: (np.abs(v[:, :2 ** (n - 1)]) ** 2).sum(1)
        ctx.close(overlap_swap_test(t(a)).numpy(), 2 * p(a) - 1, "swap test from states")
        ctx.close(overlap_hadamard_test(t(a), t(b)).numpy(), (2 * p(a) - 1) ** 2 + (2 * p(b) - 1) ** 2, "Hadamard test from states")


def run(ctx):
    for n in (1, 2, 3):
        for method in list(M):
            for form in ("both", "bra", "ket", "none", "same", "scalars", "one and many"):
                for i in range(ctx.n(2, 8)):
                    if method != M.JENSEN_SHANNON:
                        ctx.case(f"{method.value}/{n} qubits/{form}/{i}", pairs, ctx, ctx.rng(f"{n}{method}{form}{i}"), n, method, form, 0)
                    if method != M.EXACT:
                        ctx.case(f"{method.value} shots/{n} qubits/{form}/{i}", pairs, ctx, ctx.rng(f"s{n}{method}{form}{i}"), n, method, form, 4000)
            if method in COMBINED:
                ctx.case(f"{method.value}/{n} qubits/conflicting values", rejects, ctx, ctx.rng(f"c{n}{method}"), n, method)
            if method != M.JENSEN_SHANNON:
                ctx.case(f"{method.value}/{n} qubits/trained", trained, ctx, ctx.rng(f"t{n}{method}"), n, method)
        for method in (M.EXACT, M.JENSEN_SHANNON):
            for which in ("bra and ket", "bra", "ket"):
                ctx.case(f"{method.value}/{n} qubits/initial states of {which}", initial, ctx, ctx.rng(f"i{n}{which}{method}"), n, which, method)
    for n in range(1, 6):
        for i in range(ctx.n(3, 12)):
            ctx.case(f"counts/{n}/{i}", post, ctx, ctx.rng(f"p{n}{i}"), n)
            ctx.case(f"states/{n}/{i}", vectors, ctx, ctx.rng(f"v{n}{i}"), n)
