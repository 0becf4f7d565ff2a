"""C09 at run time: shift rules on explicit trigonometric polynomials; model gradients against numerical derivatives of the dense oracle."""
from bounded.gen import *
from bounded.run import Skip
import math
import numpy as np, torch
from oracle.dense import mat
import qadence as Q
from qadence import QuantumCircuit, QuantumModel, FeatureParameter, VariationalParameter
from qadence.types import DiffMode
PS = __import__("importlib").import_module("qadence.backends.parameter_shift_rules")

BOUND = ("trigonometric polynomials with 1..5 spectral gaps (integer, fractional, close), shift prefactors 0.3..1, batches of 1..4, 1..3 observables, several parameters; model gradients (GPSR, AD) for every parametric gate class, repeated, scaled and "
         "composed parameters, time evolutions, parametric observables, batches of 1..3, 1..3 observables, against central differences of the dense oracle")


def poly(rng, gaps, B, nobs):
    g = np.random.default_rng(rng.randrange(2 ** 31))
    A, Bc, C = (g.normal(size=(len(gaps), nobs)) for _ in range(3))
    D = g.normal(size=(len(gaps), nobs))
    return A, Bc, C, D


def rule(ctx, rng, gaps, B, nobs, pre, general):
    A, S, C, D = poly(rng, gaps, B, nobs)
    gaps = sorted(gaps)
    def f(p):
        x, y = p["x"].reshape(-1, 1), p["y"].reshape(-1, 1)
        out = torch.zeros((max(x.shape[0], y.shape[0]), nobs), dtype=torch.double)
        for k, d in enumerate(gaps):
            out = out + torch.tensor(A[k]) * torch.cos(d / 2 * x) * torch.cos(y) + torch.tensor(S[k]) * torch.sin(d / 2 * x) + torch.tensor(C[k]) * y
        return out
    def df(x, y):
        return sum(-A[k] * d / 2 * np.sin(d / 2 * x) * np.cos(y) + S[k] * d / 2 * np.cos(d / 2 * x) for k, d in enumerate(gaps))
    xs = [round(rng.uniform(-4, 4), 3) for _ in range(B)]
    ys = [round(rng.uniform(-4, 4), 3) for _ in range(rng.choice([1, B]))]
    params = {"x": torch.tensor(xs, dtype=torch.double), "y": torch.tensor(ys, dtype=torch.double)}
    if rng.random() < .5:
        params = dict(reversed(list(params.items())))
    keep = {k: v.clone() for k, v in params.items()}
    if general:
        spec = {1: [0, gaps[0]]}.get(len(gaps))
        if spec is None:
            # a spectrum whose set of differences is the declared set of gaps
            spec = [0.0, gaps[0], gaps[0] + gaps[1]] if len(gaps) == 3 else [i * gaps[0] for i in range(len(gaps) + 1)]
        r = PS.general_psr(torch.tensor(spec, dtype=torch.cdouble), shift_prefac=pre)
    elif len(gaps) == 1:
        r = lambda *a: PS.single_gap_psr(*a, spectral_gap=torch.tensor([gaps[0]], dtype=torch.double), shift=torch.tensor([pre * math.pi / 2], dtype=torch.double))
    else:
        r = lambda *a: PS.multi_gap_psr(*a, spectral_gaps=torch.tensor(gaps, dtype=torch.double), shift_prefac=pre)
    got = r(f, params, "x").detach().numpy()
    want = np.array([df(xs[i if len(xs) > 1 else 0], ys[i if len(ys) > 1 else 0]) for i in range(max(len(xs), len(ys)))])
    scale = 1 + np.abs(want).max()
    ctx.ok(got.size == want.size, f"shape {got.shape} of the derivative, expected {want.shape}")
    ctx.close(got.reshape(want.shape) / scale, want / scale, f"derivative for gaps {gaps}, prefactor {pre}, batch {B}, {nobs} observables", 2e-4)
    ctx.ok(all(torch.equal(params[k], keep[k]) for k in keep), "the rule changed the parameter values")


def expv(c, obs, n, env):
    s = mat(c, n, env)[:, 0]
    return np.array([np.real(np.conj(s) @ mat(o, n, env) @ s) for o in obs])


def model(ctx, rng, c, obs, n, feats, trains, B, mode):
    fv = {k: [round(rng.uniform(0.2, 2.5), 3) for _ in range(B)] for k in feats}
    m = QuantumModel(QuantumCircuit(n, c), observable=obs if len(obs) > 1 else obs[0], backend="pyqtorch", diff_mode=mode)
    v = {k: torch.tensor(a, dtype=torch.double, requires_grad=True) for k, a in fv.items()}
    e = m.expectation(v)
    w = np.array([[0.3 + 0.7 * i - 0.4 * j for j in range(len(obs))] for i in range(B)])
    ctx.ok(tuple(e.shape) == (B, len(obs)), f"shape {tuple(e.shape)} of the expectation values, expected {(B, len(obs))}")
    env = [{**trains, **{k: fv[k][i] for k in feats}} for i in range(B)]
    for i in range(B):
        ctx.close(e[i].detach().numpy(), expv(c, obs, n, env[i]), f"expectation values, element {i}, {mode}", 1e-5)
    ps = {k: p for k, p in m.named_parameters() if p.requires_grad}
    loss = (e * torch.tensor(w)).sum()
    names, leaves = list(v) + list(ps), list(v.values()) + list(ps.values())
    g = torch.autograd.grad(loss, leaves, allow_unused=True)
    h = 1e-4
    for nm, x, gr in zip(names, leaves, g):
        key = nm.split(".")[-1]
        if gr is None:
            gr = torch.zeros_like(x)
        for i in range(B if nm in v else 1):
            want = 0.0
            for j in (range(B) if nm not in v else [i]):
                up, dn = dict(env[j]), dict(env[j])
                if key not in up:
                    raise Skip(f"unknown parameter {nm}")
                up[key] += h
                dn[key] -= h
                want += float(((expv(c, obs, n, up) - expv(c, obs, n, dn)) / (2 * h) * w[j]).sum())
            ctx.close(float(gr.reshape(-1)[i]), want, f"d/d{key}[{i}] with {mode}", 2e-4 * (1 + abs(want)))


def circuits():
    x, y = FeatureParameter("x"), FeatureParameter("y")
    t = VariationalParameter("t", value=0.7)
    u = VariationalParameter("u", value=-0.4)
    T = {"t": 0.7, "u": -0.4}
    hb = chain(H(0), H(1))
    H2 = X(0) @ Z(1) + 0.3 * Z(0) + Y(1)
    yield "rx", chain(RX(0, x), RY(1, t)), [Z(0)], 2, ["x"], T
    yield "rz", chain(hb, RZ(0, x), RX(0, 0.3), RZ(1, t), RY(1, 0.2)), [Z(0), Y(1)], 2, ["x"], T
    yield "two observables", chain(RX(0, x), RY(1, t), CNOT(0, 1)), [Z(0), X(1) + Z(1)], 2, ["x"], T
    yield "three observables", chain(RX(0, x), RY(1, t * x), CNOT(0, 1), RX(1, t)), [Z(0), X(1) + Z(1), kron(Z(0), Y(1))], 2, ["x"], T
    yield "repeated", chain(RX(0, 2 * x * t), RY(0, x + t), CRX(0, 1, x), RX(1, x)), [Z(0), Z(1)], 2, ["x"], T
    yield "expression", chain(RX(0, sympy.sin(x) * t), RY(1, x ** 2 + u), CNOT(0, 1), RX(1, x * y + 1)), [Z(0), Z(1)], 2, ["x", "y"], T
    yield "controlled", chain(hb, CRX(0, 1, x), CRY(1, 0, t), CRZ(0, 1, x * t), CPHASE(0, 1, x)), [X(0), Y(1)], 2, ["x"], T
    yield "u", chain(U(0, x, t, x), CPHASE(0, 1, t), U(1, u, x, 0.3)), [X(0), Y(1)], 2, ["x"], T
    yield "phase", chain(hb, PHASE(0, x), MCPHASE((0,), 1, t), H(0)), [X(1), Z(0)], 2, ["x"], T
    yield "multi controlled", chain(hb, H(2), MCRX((0, 1), 2, x), MCRY((2, 1), 0, t), MCRZ((0, 2), 1, x), RX(0, 0.4)), [Z(0), X(1), Y(2)], 3, ["x"], T
    yield "swap", chain(RX(0, x), SWAP(0, 1), CRX(0, 1, t), CSWAP(0, 1, 2) if False else H(0)), [Z(1)], 2, ["x"], T
    yield "evolution", chain(H(0), HamEvo(H2, x * t)), [X(0), Y(1)], 2, ["x"], T
    yield "evolution, one qubit", chain(H(0), HamEvo(X(0) + 0.5 * Z(0), x), RX(0, t)), [Z(0), Y(0)], 1, ["x"], T
    yield "evolution of a tensor", chain(H(0), RX(1, t), HamEvo(torch.tensor([[[1., 0.5], [0.5, -0.3]]], dtype=torch.cdouble), x, qubit_support=(0,)), CNOT(0, 1)), [X(0), Z(1)], 2, ["x"], T
    yield "evolution without gaps", chain(H(0), HamEvo(I(0) @ I(1), x), RX(0, t)), [Z(0)], 2, ["x"], T
    yield "parametric observable", chain(RX(0, x), RY(1, t)), [t * Z(0), u * (Z(0) + 2 * X(1)), x * Z(1)], 2, ["x"], T
    yield "product of scales", chain(RX(0, x), RY(1, t)), [t * (u * Z(0) + x * kron(Z(0), X(1)))], 2, ["x"], T
    yield "no parameter in some gates", chain(RX(0, 0.3), RX(1, x), CNOT(0, 1), RY(0, 2.0)), [Z(0), 1.5 * Z(1)], 2, ["x"], T


def run(ctx):
    for i in range(ctx.n(60, 800)):
        r = ctx.rng(f"r{i}")
        k = r.choice([1, 1, 2, 3, 4, 5])
        kind = r.randrange(3)
        gaps = [[1., 2, 3, 4, 5][j] for j in range(k)] if kind == 0 else sorted(r.sample([0.5, 1.0, 1.3, 2.0, 2.7, 3.1, 4.2], k)) if k <= 3 or kind == 1 else [0.8 * (j + 1) for j in range(k)]
        if k > 3 and kind == 1:
            gaps = [0.9 * (j + 1) for j in range(k)]
        ctx.case(f"rule/{i}", rule, ctx, r, gaps, r.choice([1, 1, 2, 3, 4]), r.choice([1, 1, 2, 3]), r.choice([0.5, 1.0, 0.7, 0.3]) if k <= 3 else r.choice([0.5, 0.7]), False)
    for i in range(ctx.n(20, 200)):
        r = ctx.rng(f"g{i}")
        k = r.choice([1, 2, 3, 4])
        g = r.choice([0.8, 1.0, 2.0])
        gaps = [g, g + 0.5, 2 * g + 0.5] if k == 3 else [g * (j + 1) for j in range(k)]
        ctx.case(f"general/{i}", rule, ctx, r, gaps, r.choice([1, 2, 3]), r.choice([1, 2]), r.choice([0.5, 0.7]), True)
    for nm, c, obs, n, feats, T in circuits():
        for B in (1, 3):
            for mode in (DiffMode.GPSR, DiffMode.AD):
                ctx.case(f"model/{nm}/{B}/{mode.value}", model, ctx, ctx.rng(f"{nm}{B}"), c, obs, n, feats, T, B, mode)
    x = FeatureParameter("x")
    t = VariationalParameter("t", value=0.7)
    ctx.case("model/parameters inside a generator/GPSR", model, ctx, ctx.rng("hg"), chain(HamEvo(t * X(0) + 0.2 * Z(0), x)), [Z(0)], 1, ["x"], {"t": 0.7}, 1, DiffMode.GPSR)
    g = RX(0, x)
    ctx.case("model/one gate object used twice/GPSR", model, ctx, ctx.rng("g2"), chain(g, H(0), RZ(0, 0.3), g), [Z(0)], 1, ["x"], {}, 1, DiffMode.GPSR)
    for nm, c, obs, n, feats, T in circuits():
        ctx.case(f"values/{nm}/adjoint", adj, ctx, ctx.rng(nm), c, obs, n, feats, T)


def adj(ctx, rng, c, obs, n, feats, T):
    fv = {k: [round(rng.uniform(0.2, 2.5), 3) for _ in range(2)] for k in feats}
    m = QuantumModel(QuantumCircuit(n, c), observable=obs, backend="pyqtorch", diff_mode=DiffMode.ADJOINT)
    e = m.expectation({k: torch.tensor(a, dtype=torch.double) for k, a in fv.items()})
    ctx.ok(tuple(e.shape) == (2, len(obs)), f"shape {tuple(e.shape)} of the expectation values in adjoint mode")
    for i in range(2):
        ctx.close(e[i].detach().numpy(), expv(c, obs, n, {**T, **{k: fv[k][i] for k in feats}}), f"expectation values, element {i}, adjoint", 1e-5)
