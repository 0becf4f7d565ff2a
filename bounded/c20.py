"""C20 at run time: models and the convenience functions against an independent dense simulation, and histories of calls."""
from bounded.gen import *
import math
from collections import Counter
import numpy as np
import sympy, torch
from qadence import (FeatureParameter, VariationalParameter, QuantumCircuit, QuantumModel, QNN, Register, NoiseHandler, NoiseProtocol, expectation as qexp, run as qrun, sample as qsample)
from qadence.blocks import chain, kron, add
from qadence.operations import *
from qadence.measurements import Measurements
from qadence.mitigations import Mitigations
from qadence.ml_tools.models import derivative
from qadence.ml_tools.parameters import get_parameters, set_parameters, num_parameters
from qadence.ml_tools.utils import rand_featureparameters
from qadence.backends.utils import finitediff
from qadence.types import DiffMode, Endianness, InputDiffMode
import oracle.dense as D

BOUND = ("circuits of 1 to 3 qubits with random gates, 0 to 3 features and 1 to 4 trained parameters, 1 to 3 observables, batches of 1 to 4 values, random initial states, both endiannesses, "
         "sequences of up to 6 evaluations with and without noise, shots and states; derivatives up to order 2")


def circuit(rng, n, fs, vs):
    ps = [FeatureParameter(f) for f in fs] + [VariationalParameter(v, value=round(rng.uniform(-2, 2), 2)) for v in vs]
    gs = []
    for p in ps:
        gs.append(rng.choice([RX, RY, RZ])(rng.randrange(n), rng.choice([p, 2 * p, p * .7])))
        q = rng.randrange(n)
        gs.append(rng.choice([H(q), S(q), RX(q, round(rng.uniform(-2, 2), 2))]))
        if n > 1:
            a, b = rng.sample(range(n), 2)
            gs.append(rng.choice([CNOT(a, b), CZ(a, b), CRX(a, b, p), SWAP(a, b)]))
    rng.shuffle(gs)
    gs = [kron(RY(q, .3 + q) for q in range(n))] + gs + [kron(RX(q, .9 - .2 * q) for q in range(n))]
    return QuantumCircuit(n, chain(*gs))


def observable(rng, n, par=None):
    ts = []
    for _ in range(rng.randint(1, 3)):
        q = rng.randrange(n)
        t = rng.choice([X, Y, Z, N])(q)
        if n > 1 and rng.random() < .5:
            a, b = rng.sample(range(n), 2)
            t = kron(rng.choice([X, Y, Z])(a), rng.choice([X, Y, Z])(b))
        ts.append(round(rng.uniform(-2, 2), 2) * t)
    if par is not None:
        ts.append(par * Z(0))
    return add(*ts)


def names(rng):
    fs = rng.sample(["x", "y", "a_t"], rng.randint(0, 3))
    return fs, rng.sample(["w10", "w2", "v", "W"], rng.randint(1, 4))


def values(rng, fs, k):
    return {f: torch.tensor([round(rng.uniform(-3, 3), 3) for _ in range(k)], dtype=torch.float64) for f in fs}


def trained(m):
    return {k: float(v.detach().reshape(-1)[0]) for k, v in m._params.items() if v.requires_grad}


def at(vals, i):
    return {k: float(v.reshape(-1)[i if v.numel() > 1 else 0]) for k, v in vals.items()}


def rand_state(rng, n, k):
    g = np.random.default_rng(rng.randrange(2 ** 31))
    v = g.normal(size=(k, 2 ** n)) + 1j * g.normal(size=(k, 2 ** n))
    return v / np.linalg.norm(v, axis=1, keepdims=True)


def outs(c, n, vals, k, tr, state=None):
    z = np.zeros(2 ** n, complex); z[0] = 1
    return np.array([D.mat(c.block, n, {**tr, **at(vals, i)}) @ (z if state is None else state[i if len(state) > 1 else 0]) for i in range(k)])


def exps(c, obs, n, vals, k, tr, state=None):
    st = outs(c, n, vals, k, tr, state)
    return np.array([[np.vdot(v, D.mat(o, n, {**tr, **at(vals, i)}) @ v).real for o in obs] for i, v in enumerate(st)])


def rev(v, n):
    return v[:, D.reverse_perm(n)] if v.ndim == 2 else v


def model(ctx, rng, n):
    fs, vs = names(rng)
    c = circuit(rng, n, fs, vs)
    obs = [observable(rng, n) for _ in range(rng.randint(1, 3))]
    k = rng.randint(1, 4)
    vals = values(rng, fs, k)
    k = k if fs else 1
    mode = rng.choice([DiffMode.AD, DiffMode.GPSR])
    m = QuantumModel(c, observable=obs if len(obs) > 1 or rng.random() < .5 else obs[0], diff_mode=mode)
    tr = trained(m)
    ctx.ok(set(tr) == set(vs), f"trained parameters {set(tr)} instead of {vs}")
    ctx.ok(m.in_features == len(fs) and {str(i) for i in m.inputs} == set(fs) and m.out_features == len(obs) and m.num_vparams == len(vs), "numbers of inputs, outputs and trained parameters")
    st = rand_state(rng, n, rng.choice([1, k])) if rng.random() < .5 else None
    ts = None if st is None else torch.tensor(st)
    ctx.close(m.run(vals, state=ts).detach().numpy(), outs(c, n, vals, k, tr, st), "run")
    ctx.close(m(vals).detach().numpy(), outs(c, n, vals, k, tr), "forward")
    ctx.close(m.run(vals, endianness=Endianness.LITTLE).detach().numpy(), rev(outs(c, n, vals, k, tr), n), "run, little endian")
    ctx.close(m.expectation(vals, state=ts).detach().numpy(), exps(c, obs, n, vals, k, tr, st), f"expectation of {len(obs)} observables")
    # values given for trained parameters take precedence
    w = rng.choice(vs)
    over = {**vals, w: torch.tensor([.77], dtype=torch.float64)}
    ctx.close(m.expectation(over).detach().numpy(), exps(c, obs, n, vals, k, {**tr, w: .77}), "expectation with a trained parameter overridden")
    # another observable for one call
    o = observable(rng, n)
    conv = m.observable(o, n)
    if mode == DiffMode.AD:     # shift rules need the observables from the start
        ctx.close(m.expectation(vals, observable=[conv]).detach().numpy(), exps(c, [o], n, vals, k, tr), "expectation of an observable given to the call")
    ctx.close(m.expectation(vals).detach().numpy(), exps(c, obs, n, vals, k, tr), "expectation afterwards")
    # counts
    torch.manual_seed(rng.randrange(10 ** 6))
    shots = 3000
    for little in (False, True):
        cs = m.sample(vals, n_shots=shots, state=ts, **({"endianness": Endianness.LITTLE} if little else {}))
        pr = np.abs(outs(c, n, vals, k, tr, st)) ** 2
        ctx.ok(len(cs) == k and all(sum(x.values()) == shots for x in cs), f"{len(cs)} counters for {k} values")
        for x, p in zip(cs, pr):
            for i in range(2 ** n):
                b = format(i, f"0{n}b")
                ctx.ok(abs(x[b[::-1] if little else b] / shots - p[i]) < 6.5 * math.sqrt(max(p[i] * (1 - p[i]), .002) / shots), f"outcome {b}{' reversed' if little else ''} counted {x}, probabilities {p.round(3)}")


def forms(ctx, rng, n):
    fs, vs = names(rng)
    c = circuit(rng, n, fs, vs)
    tr = {str(p): p.value for p in c.unique_parameters if p.trainable}
    tr = {a: float(b) for a, b in tr.items()}
    k = rng.randint(1, 3)
    vals = values(rng, fs, k)
    k = k if fs else 1
    obs = [observable(rng, n) for _ in range(rng.randint(1, 3))]
    st = rand_state(rng, n, 1) if rng.random() < .5 else None
    ts = None if st is None else torch.tensor(st)
    extra = rng.choice([0, 1])
    N_ = n + extra
    reg = Register(N_)
    for what, args, w in (("circuit", (c,), n), ("block", (c.block,), n), ("number of qubits and block", (N_, c.block), N_), ("register and block", (reg, c.block), N_)):
        s = None if st is None or w != n else st
        t = None if s is None else ts
        ctx.close(qrun(*args, values=vals, state=t).numpy(), outs(c, w, vals, k, tr, s), f"run of a {what}")
        ctx.close(qrun(*args, values=vals, endianness=Endianness.LITTLE).numpy(), rev(outs(c, w, vals, k, tr), w), f"run of a {what}, little endian")
        ctx.close(qexp(*args, obs if len(obs) > 1 else obs[0], values=vals, state=t).numpy(), exps(c, obs, w, vals, k, tr, s), f"expectation of a {what}")
        cs = qsample(*args, values=vals, n_shots=700, state=t)
        pr = np.abs(outs(c, w, vals, k, tr, s)) ** 2
        ctx.ok(len(cs) == k and all(sum(x.values()) == 700 and all(len(b) == w for b in x) for x in cs), f"sample of a {what}: {cs}")
        for x, p in zip(cs, pr):
            ctx.ok(all(abs(x[format(i, f'0{w}b')] / 700 - p[i]) < 6.5 * math.sqrt(max(p[i] * (1 - p[i]), .004) / 700) for i in range(2 ** w)), f"sample of a {what}: {x}, {p}")
    d = QuantumCircuit(n, RX(n - 1, .4))
    ctx.close(qrun([c, d], values=vals).numpy(), np.concatenate([outs(c, n, vals, k, tr), outs(d, n, {}, k, {})]), "run of a list")


def network(ctx, rng, n):
    fs, vs = names(rng)
    while not fs:
        fs, vs = names(rng)
    c = circuit(rng, n, fs, vs)
    obs = [observable(rng, n) for _ in range(rng.randint(1, 3))]
    order = rng.sample(fs, len(fs))
    ins = [rng.choice([f, sympy.symbols(f), FeatureParameter(f)]) for f in order]
    q = QNN(c, obs, inputs=None if len(fs) == 1 and rng.random() < .5 else ins, diff_mode=(mode := rng.choice([DiffMode.AD, DiffMode.GPSR])))
    tr = trained(q)
    k = rng.randint(1, 4)
    x = torch.tensor([[round(rng.uniform(-3, 3), 3) for _ in order] for _ in range(k)], dtype=torch.float64)
    vals = {f: x[:, i] for i, f in enumerate(order)}
    want = exps(c, obs, n, vals, k, tr)
    ctx.close(q(x).detach().numpy(), want, f"network with inputs {order} from columns")
    ctx.close(q(vals).detach().numpy(), want, "network, values by name")
    ctx.close(q.expectation(x).detach().numpy(), want, "expectation of a network")
    ctx.close(q.run(x).detach().numpy(), outs(c, n, vals, k, tr), "run of a network")
    if len(fs) == 1:
        ctx.close(q(x.reshape(-1)).detach().numpy(), want, "network, one-dimensional tensor")
    o = observable(rng, n)
    if mode == DiffMode.AD:
        ctx.close(q.expectation(x, observable=[q.observable(o, n)]).detach().numpy(), exps(c, [o], n, vals, k, tr), "network, observable given to the call")
    try:
        q(torch.rand(2, len(fs) + 1))
        ctx.ok(False, "a tensor of too many columns is accepted")
    except ValueError:
        pass
    cs = q.sample(x, n_shots=500)
    ctx.ok(len(cs) == k and all(sum(y.values()) == 500 for y in cs), "samples of a network")
    if len(fs) > 1:
        try:
            QNN(c, obs)
            ctx.ok(False, "several inputs without an order are accepted")
        except ValueError:
            pass


def deriv(ctx, rng, n):
    fs = rng.sample(["x", "y"], rng.randint(1, 2))
    c = circuit(rng, n, fs, ["w"])
    obs = [observable(rng, n)]
    x = torch.tensor([[round(rng.uniform(-2, 2), 2) for _ in fs] for _ in range(3)], dtype=torch.float64)
    for mode in (InputDiffMode.AD, InputDiffMode.FD):
        q = QNN(c, obs, inputs=fs, input_diff_mode=mode)
        tr = trained(q)
        f = lambda p: exps(c, obs, n, {a: p[:, i] for i, a in enumerate(fs)}, len(p), tr)[:, 0]
        h = 1e-3
        e = lambda i: h * np.eye(len(fs))[i]
        p = x.numpy()
        p1 = lambda p, i: (8 * (f(torch.tensor(p + e(i))) - f(torch.tensor(p - e(i)))) - (f(torch.tensor(p + 2 * e(i))) - f(torch.tensor(p - 2 * e(i))))) / (12 * h)
        for idx in [(i,) for i in range(len(fs))] + [(i, j) for i in range(len(fs)) for j in range(len(fs))]:
            xi = x.clone().requires_grad_(True)
            got = derivative(q, xi, idx).detach().numpy().reshape(-1)
            want = p1(p, idx[0]) if len(idx) == 1 else (p1(p + e(idx[1]), idx[0]) - p1(p - e(idx[1]), idx[0])) / (2 * h)
            ctx.ok(got.shape == want.shape and float(np.max(np.abs(got - want))) < (5e-3 if mode == InputDiffMode.FD or len(idx) == 2 else 1e-5) * max(1, np.max(np.abs(want))), f"derivative {idx} ({mode}) of\n{c}\n{got} instead of {want}")
        ctx.ok(torch.equal(x, torch.tensor(p)), "the points changed")


def fd(ctx, rng, d):
    cs = [[round(rng.uniform(-2, 2), 2) for _ in range(4)] for _ in range(d)]
    f = lambda x: (sum(torch.sin(cs[i][0] * x[:, i]) * cs[i][1] for i in range(d)) + torch.prod(x, 1)).reshape(-1, 1)
    x = torch.tensor([[rng.uniform(-1, 1) for _ in range(d)] for _ in range(3)], dtype=torch.float64)
    for i in range(d):
        u = cs[i][0] * x[:, i]
        rest = torch.prod(torch.cat([x[:, :i], x[:, i + 1:]], 1), 1) if d > 1 else torch.ones(3)
        for k, w in ((1, cs[i][0] * cs[i][1] * torch.cos(u) + rest), (2, -cs[i][0] ** 2 * cs[i][1] * torch.sin(u)), (3, -cs[i][0] ** 3 * cs[i][1] * torch.cos(u))):
            ctx.close(finitediff(f, x, (i,) * k).reshape(-1).numpy(), w.numpy(), f"finite difference of order {k}", 2e-2 if k == 3 else 1e-3)
        for j in range(d):
            if j != i:
                r2 = torch.prod(torch.stack([x[:, a] for a in range(d) if a not in (i, j)] or [torch.ones(3)]), 0)
                ctx.close(finitediff(f, x, (i, j)).reshape(-1).numpy(), r2.numpy(), "mixed finite difference", 1e-2)


def history(ctx, rng, n, kind):
    """evaluations do not influence later ones"""
    fs, vs = names(rng)
    if kind == "network" and not fs:
        fs = ["x"]
    c = circuit(rng, n, fs, vs)
    obs = [observable(rng, n) for _ in range(rng.randint(1, 2))]
    k = rng.randint(1, 3)
    vals = values(rng, fs, k)
    k = k if fs else 1
    m = QuantumModel(c, observable=obs) if kind == "model" else QNN(c, obs, inputs=fs)
    tr = trained(m)
    want = exps(c, obs, n, vals, k, tr)
    ctx.close(m.expectation(vals).detach().numpy(), want, "expectation")
    before = {a: b.detach().clone() for a, b in m._params.items()}
    conf = (m._noise, m._measurement, m._mitigation)
    log = []
    for _ in range(rng.randint(1, 6)):
        op = rng.choice(["noisy", "noisy sample", "shots", "state", "sample", "run", "other values", "little", "mitigated sample"])
        log.append(op)
        ro = NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, {"error_probability": .3})
        if op == "noisy":
            m.expectation(vals, noise=NoiseHandler(NoiseProtocol.DIGITAL.DEPOLARIZING, {"error_probability": .4}) if rng.random() < .3 else ro, measurement=Measurements("tomography", {"n_shots": 30}))
        elif op == "noisy sample":
            m.sample(vals, n_shots=20, noise=ro)
        elif op == "shots":
            m.expectation(vals, measurement=Measurements("tomography", {"n_shots": 20}))
        elif op == "state":
            m.expectation(vals, state=torch.tensor(rand_state(rng, n, 1)))
        elif op == "sample":
            m.sample(vals, n_shots=5)
        elif op == "run":
            m.run(vals)
        elif op == "other values":
            m.expectation({**values(rng, fs, 2), vs[0]: torch.tensor([.1], dtype=torch.float64)})
        elif op == "little":
            m.sample(vals, n_shots=5, endianness=Endianness.LITTLE)
        else:
            m.sample(vals, n_shots=20, noise=ro, mitigation=Mitigations(Mitigations.READOUT))
        ctx.ok(all(torch.equal(before[a], b) for a, b in m._params.items()) and conf == (m._noise, m._measurement, m._mitigation), f"the model changed by: {log}")
        ctx.close(m.expectation(vals).detach().numpy(), want, f"expectation after {log}")


def settings(ctx, rng, n):
    """noise, shots and mitigation of the model are used unless the call gives others"""
    c = QuantumCircuit(n, kron(X(q) for q in range(n)))
    flip = NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, {"error_probability": .5, "confusion_matrices": None} if False else {"error_probability": .4})
    m = QuantumModel(c, observable=Z(0), noise=flip)
    one = "1" * n
    torch.manual_seed(3)
    a = m.sample({}, n_shots=400)[0]
    ctx.ok(a[one] < 390, f"samples of a noisy model without noise: {a}")
    b = QuantumModel(c, observable=Z(0)).sample({}, n_shots=400)[0]
    ctx.ok(b == Counter({one: 400}), f"samples of a noise-free model: {b}")
    b = QuantumModel(c, observable=Z(0)).sample({}, n_shots=400, noise=flip)[0]
    ctx.ok(b[one] < 390, f"noise given to the call ignored: {b}")
    for cls in (QuantumModel, QNN):
        kw = dict(measurement=Measurements("tomography", {"n_shots": 11}))
        q = QuantumCircuit(n, kron(H(i) for i in range(n)))
        e = cls(q, Z(0), **kw).expectation({})
        ctx.ok(abs(float(e) * 11 - round(float(e) * 11)) < 1e-6 and round(float(e) * 11) % 2 == 1, f"{cls.__name__}: the shots of the model are not used: {e}")
        e = cls(q, Z(0)).expectation({}, measurement=kw["measurement"])
        ctx.ok(abs(float(e) * 11 - round(float(e) * 11)) < 1e-6 and round(float(e) * 11) % 2 == 1, f"{cls.__name__}: the shots given to the call are not used: {e}")
        e = cls(q, Z(0), **kw).expectation({}, measurement=Measurements("tomography", {"n_shots": 7}))
        ctx.ok(abs(float(e) * 7 - round(float(e) * 7)) < 1e-6 and round(float(e) * 7) % 2 == 1, f"{cls.__name__}: the shots given to the call do not take precedence: {e}")


def training(ctx, rng, n):
    """which parameters are trained, and their stored values"""
    fs, vs = names(rng)
    c = circuit(rng, n, fs, vs)
    obs = [observable(rng, n)]
    m = QuantumModel(c, observable=obs)
    ks = list(m.vparams)
    new = [round(rng.uniform(-3, 3), 3) for _ in ks]
    m.reset_vparams(new)
    ctx.ok(all(abs(float(m.vparams[a]) - b) < 1e-6 for a, b in zip(ks, new)) and np.allclose(m.vals_vparams.numpy(), new, atol=1e-6) and list(m.vparams) == ks, f"reset to {new}: {m.vparams}")
    vals = values(rng, fs, 2)
    k = 2 if fs else 1
    tr = dict(zip(ks, new))
    ctx.close(m.expectation(vals).detach().numpy(), exps(c, obs, n, vals, k, tr), "expectation after setting the trained parameters", 2e-6)
    try:
        m.reset_vparams(new + [.3])
        ctx.ok(False, "too many values accepted")
    except AssertionError:
        pass
    # vectors of parameters
    th = get_parameters(m)
    ctx.ok(num_parameters(m) == len(ks) and np.allclose(th.detach().numpy(), new, atol=1e-6), "get_parameters")
    w = torch.tensor([round(rng.uniform(-3, 3), 3) for _ in ks])
    fixed = {a: b.detach().clone() for a, b in m._params.items() if not b.requires_grad}
    set_parameters(m, w)
    ctx.ok(np.allclose(get_parameters(m).detach().numpy(), w.numpy(), atol=1e-6) and all(torch.equal(fixed[a], m._params[a]) for a in fixed), "set_parameters")
    tr = dict(zip(ks, w.tolist()))
    # fixing some of them
    fix = rng.sample(ks, rng.randint(0, len(ks) - 1)) if len(ks) > 1 else []
    if fix:
        m.set_as_fixed(fix)
        ctx.ok(set(m.vparams) == set(ks) - set(fix), f"fixed {fix}: trained are {list(m.vparams)}")
        ctx.ok(all(abs(float(m.vparams[a]) - tr[a]) < 1e-6 for a in m.vparams), f"fixing {fix} changed other values: {m.vparams} instead of {tr}")
        given = {**vals, **{a: torch.tensor([.2], dtype=torch.float64) for a in fix}}
        ctx.close(m.expectation(given).detach().numpy(), exps(c, obs, n, vals, k, {**tr, **{a: .2 for a in fix}}), f"expectation after fixing {fix}", 2e-6)
        m.set_as_variational(fix)
        ctx.ok(set(m.vparams) == set(ks), "set as variational")
        ctx.ok(all(abs(float(m.vparams[a]) - tr[a]) < 1e-6 for a in ks if a not in fix), "training others again changed values")
    for a in (c, c.block, m):
        r = rand_featureparameters(a, 3)
        ctx.ok(set(r) == set(fs) and all(v.shape == (3,) for v in r.values()), f"random values of the features: {r}, features {fs}")


class Net(torch.nn.Module):
    def __init__(self, rng):
        super().__init__()
        g = torch.Generator().manual_seed(rng.randrange(10 ** 6))
        self.a = torch.nn.Parameter(torch.rand(3, 2, generator=g))
        self.b = torch.nn.Parameter(torch.rand((), generator=g))
        self.c = torch.nn.Parameter(torch.rand(4, generator=g), requires_grad=False)
        self.d = torch.nn.Parameter(torch.rand(1, 2, 2, generator=g))


def vectors(ctx, rng):
    m = Net(rng)
    t = get_parameters(m)
    ctx.ok(torch.equal(t, torch.cat([m.a.reshape(-1), m.b.reshape(-1), m.d.reshape(-1)])) and num_parameters(m) == 11, "all trained parameters in order")
    c = m.c.clone()
    w = torch.rand(11)
    set_parameters(m, w)
    ctx.ok(torch.equal(get_parameters(m), w) and torch.equal(m.c, c) and m.a.shape == (3, 2) and m.b.shape == () and m.d.shape == (1, 2, 2) and torch.equal(m.a, w[:6].reshape(3, 2)), "set_parameters assigns in order")


def run(ctx):
    for n in (1, 2, 3):
        for i in range(ctx.n(8, 40)):
            ctx.case(f"model/{n}/{i}", model, ctx, ctx.rng(f"m{n}{i}"), n)
            ctx.case(f"functions/{n}/{i}", forms, ctx, ctx.rng(f"f{n}{i}"), n)
            ctx.case(f"network/{n}/{i}", network, ctx, ctx.rng(f"q{n}{i}"), n)
            ctx.case(f"training/{n}/{i}", training, ctx, ctx.rng(f"t{n}{i}"), n)
            if i < ctx.n(6, 30):
                ctx.case(f"history/model/{n}/{i}", history, ctx, ctx.rng(f"h{n}{i}"), n, "model")
                ctx.case(f"history/network/{n}/{i}", history, ctx, ctx.rng(f"hn{n}{i}"), n, "network")
            if i < ctx.n(2, 6):
                ctx.case(f"derivative/{n}/{i}", deriv, ctx, ctx.rng(f"d{n}{i}"), n)
                ctx.case(f"finite differences/{n}/{i}", fd, ctx, ctx.rng(f"fd{n}{i}"), n)
                ctx.case(f"vectors/{n}/{i}", vectors, ctx, ctx.rng(f"v{n}{i}"))
        ctx.case(f"settings/{n}", settings, ctx, ctx.rng(f"s{n}"), n)
