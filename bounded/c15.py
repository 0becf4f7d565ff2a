"""C15 at run time: readout mitigation against an independent projection and an independent confusion model."""
from bounded.gen import *
from bounded.run import Skip
import itertools, math
from collections import Counter
from copy import deepcopy
import numpy as np
import torch
from qadence.mitigations import Mitigations
from qadence.mitigations.protocols import apply_mitigation
from qadence.mitigations import readout as RO
from qadence.noise import NoiseHandler
from qadence.types import NoiseProtocol, ReadOutOptimization

BOUND = ("random real vectors of up to 16 entries (zero, negative, barely negative, tied, already valid); counters on 1 to 3 qubits with 1 to 10^6 shots in lists of 1 to 3 samples; error probabilities given as one number, one per qubit or "
         "confusion matrices per qubit (also asymmetric, noise-free and singular); both optimisation types; zero-noise extrapolation of random polynomials up to degree 3")
FLOAT = 1e-9


def project(p, total):
    """nearest vector with nonnegative entries and the given total (bisection on the shift)"""
    lo, hi = min(p) - total - 1, max(p) + total + 1
    for _ in range(200):
        m = (lo + hi) / 2
        if sum(max(x - m, 0) for x in p) > total:
            lo = m
        else:
            hi = m
    return np.array([max(x - (lo + hi) / 2, 0) for x in p])


def vec(rng, n, kind):
    if kind == "valid":
        p = np.array([rng.random() if rng.random() < .7 else 0. for _ in range(n)])
        p[rng.randrange(n)] += .1
        return p / p.sum()
    if kind == "tied":
        p = np.array([rng.choice([-.25, 0., .25, .5]) for _ in range(n)])
    elif kind == "tiny":
        p = np.array([rng.choice([-1, 1]) * 10 ** rng.uniform(-7, -1) for _ in range(n)])
    elif kind == "far":
        p = np.array([rng.uniform(-3, 3) for _ in range(n)])
    else:
        p = np.array([rng.uniform(-.2, .6) for _ in range(n)])
    p[rng.randrange(n)] += 1 - p.sum()
    return p


def mle(ctx, rng, n, kind):
    p = vec(rng, n, kind)
    p0 = p.copy()
    q = RO.mle_solve(p)
    ctx.ok(np.array_equal(p, p0), f"mle_solve changed its argument {p0} to {p}")
    ctx.ok(q.shape == p.shape, f"shape {q.shape}")
    ctx.ok((q >= -1e-12).all(), f"mle_solve({p0}) has a negative entry: {q}")
    ctx.ok(abs(q.sum() - 1) < FLOAT, f"mle_solve({p0}) sums to {q.sum()}")
    if (p0 >= 0).all():
        ctx.ok(np.abs(q - p0).max() < FLOAT, f"mle_solve changes the valid distribution {p0} to {q}")
    ctx.ok(np.abs(q - project(p0, 1.)).max() < 1e-7, f"mle_solve({p0}) = {q}, nearest distribution {project(p0, 1.)}")
    perm = list(range(n))
    rng.shuffle(perm)
    ctx.ok(np.abs(RO.mle_solve(p0[perm]) - q[perm]).max() < FLOAT, f"mle_solve({p0}) depends on the order of the outcomes")


def renorm(ctx, rng, n, kind, shots):
    p = project(vec(rng, n, kind), 1.)
    c = p * shots
    if kind == "tied":
        c = np.array([float(rng.randrange(5)) for _ in range(n)])
        c[rng.randrange(n)] += 1
    c0 = c.copy()
    r = RO.renormalize_counts(c, shots)
    ctx.ok(np.array_equal(c, c0), "renormalize_counts changed its argument")
    share = c0 / c0.sum() * shots
    rounding(ctx, r, share, shots, f"renormalize_counts({c0}, {shots})")
    if c0.sum() == shots and (c0 == np.round(c0)).all():
        ctx.ok(np.array_equal(r, c0), f"renormalize_counts changes the counts {c0} to {r}")


def rounding(ctx, r, share, shots, what, tol=1e-6):
    ctx.ok(all(float(x) == int(x) for x in r), f"{what} = {r} is not integral")
    ctx.ok(all(x >= 0 for x in r), f"{what} = {r} has negative counts")
    ctx.ok(sum(int(x) for x in r) == shots, f"{what} = {r} sums to {sum(r)}, not {shots}")
    ctx.ok(all(abs(x - s) < 1 + tol for x, s in zip(r, share)), f"{what} = {r}, shares {share}")


def error(rng, n, form):
    """what is handed to the noise handler and the confusion matrices it means, column = true outcome"""
    if form == "number":
        e = rng.choice([0., .05, .1, .3])
        return e, [np.array([[1 - e, e], [e, 1 - e]]) for _ in range(n)]
    if form == "default":
        return None, [np.array([[.9, .1], [.1, .9]]) for _ in range(n)]
    if form == "vector":
        es = [round(rng.uniform(0, .4), 3) for _ in range(n)]
        return torch.tensor(es, dtype=torch.double), [np.array([[1 - e, e], [e, 1 - e]]) for e in es]
    if form == "perfect":
        ms = [np.eye(2) for _ in range(n)]
    elif form == "singular":
        ms = [np.array([[.5, .5], [.5, .5]]) for _ in range(n)]
    else:
        ms = []
        for _ in range(n):
            a, b = rng.uniform(0, .35), rng.uniform(0, .35)
            ms.append(np.array([[1 - a, b], [a, 1 - b]]))
    return torch.tensor(np.array(ms), dtype=torch.double), ms


def kron(ms):
    out = np.ones((1, 1))
    for m in ms:
        out = np.kron(out, m)
    return out


def best(T, raw):
    Ti = kron([np.linalg.inv(m) if abs(np.linalg.det(m)) > 1e-9 else np.linalg.pinv(m) for m in T])
    q = project(Ti @ raw, 1.)
    return q


def counts(rng, n, shots):
    keys = ["".join(b) for b in itertools.product("01", repeat=n)]
    rng.shuffle(keys)
    keys = keys[:rng.randrange(1, len(keys) + 1)]
    c = Counter()
    left = shots
    for k in keys[:-1]:
        x = rng.randrange(left + 1)
        if x:
            c[k] = x
        left -= x
    if left:
        c[keys[-1]] = left
    return c


def fit(T, p, raw):
    return float(np.sum((T @ p - raw) ** 2))


def full(ctx, rng, n, form, opt, m):
    e, ms = error(rng, n, form)
    opts = {} if e is None else {"error_probability": e}
    noise = NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, opts)
    samples = [counts(rng, n, rng.choice([1, 2, 7, 100, 999, 10 ** 6])) for _ in range(m)]
    before = deepcopy(samples)
    mit = Mitigations(Mitigations.READOUT, {} if opt is None else {"optimization_type": opt})
    np.random.seed(rng.randrange(10 ** 6))
    out = apply_mitigation(noise, mit, samples)
    what = f"noise {e}, {opt}, samples {[dict(s) for s in before]}"
    ctx.ok(samples == before, f"{what}: the samples are changed")
    ctx.ok(len(out) == m, f"{what}: {len(out)} results for {m} samples")
    T = kron(ms)
    keys = ["".join(b) for b in itertools.product("01", repeat=n)]
    for s, o in zip(before, out):
        shots = sum(s.values())
        raw = np.array([s[k] for k in keys]) / shots
        ctx.ok(set(o) <= set(keys), f"{what}: outcomes {set(o)}")
        r = [o[k] for k in keys]
        ctx.ok(all(float(x) == int(x) and x >= 0 for x in r) and sum(int(x) for x in r) == shots, f"{what}: result {dict(o)} for {dict(s)}")
        if form == "perfect" or (form == "number" and e == 0):
            if opt != ReadOutOptimization.CONSTRAINED:
                ctx.ok(o == s, f"{what}: noise-free readout is 'mitigated' from {dict(s)} to {dict(o)}")
            else:
                ctx.ok(all(abs(o[k] - s[k]) <= 1 + 1e-3 * shots for k in keys), f"{what}: noise-free readout is 'mitigated' from {dict(s)} to {dict(o)}")
        if form == "singular":
            continue
        if opt == ReadOutOptimization.CONSTRAINED:
            if shots >= 100:
                # a solution which explains the data clearly worse than the constrained optimum is wrong
                q = np.array(r) / shots
                ctx.ok(fit(T, q, raw) <= simplex_fit(T, raw) + 4 * len(keys) / shots + 2e-3, f"{what}: result {dict(o)} of {dict(s)} explains the data with error {fit(T, q, raw)}, optimum {simplex_fit(T, raw)}")
        else:
            rounding(ctx, r, best(ms, raw) * shots, shots, what, 1e-6 * shots + 1e-6)


def simplex_fit(T, raw):
    """projected gradient"""
    p = np.ones(len(raw)) / len(raw)
    for _ in range(400):
        p = project(p - .5 * T.T @ (T @ p - raw), 1.)
    return fit(T, p, raw)


def invert(ctx, rng, n, form, opt):
    """the exact image of a distribution under the confusion is mapped back to it"""
    e, ms = error(rng, n, form)
    shots = 10 ** 6
    true = np.array([rng.random() if rng.random() < .7 else 0. for _ in range(2 ** n)])
    true[rng.randrange(2 ** n)] += .3
    true /= true.sum()
    raw = RO.renormalize_counts(kron(ms) @ true * shots, shots) if False else np.round(kron(ms) @ true * shots).astype(int)
    keys = ["".join(b) for b in itertools.product("01", repeat=n)]
    s = Counter({k: int(c) for k, c in zip(keys, raw) if c})
    opts = {} if e is None else {"error_probability": e}
    np.random.seed(rng.randrange(10 ** 6))
    out = apply_mitigation(NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, opts), Mitigations(Mitigations.READOUT, {"optimization_type": opt}), [s])[0]
    got = np.array([out[k] for k in keys]) / shots
    tol = 1e-3 if opt == ReadOutOptimization.MLE else .05
    ctx.ok(np.abs(got - true).max() < tol, f"noise {e}, {opt}: readout {dict(s)} of the distribution {true} is mitigated to {got}")


def missing(ctx, rng):
    for noise in (NoiseHandler(NoiseProtocol.DIGITAL.BITFLIP, {"error_probability": .1}),):
        try:
            out = apply_mitigation(noise, Mitigations(Mitigations.READOUT), [Counter({"0": 3})])
        except ValueError:
            continue
        ctx.ok(False, f"mitigation without readout noise gives {out}")


def after_digital(ctx, rng, n):
    """readout entry after digital entries of the handler"""
    e, ms = error(rng, n, "matrices")
    noise = NoiseHandler([NoiseProtocol.DIGITAL.BITFLIP, NoiseProtocol.READOUT.INDEPENDENT], [{"error_probability": .3}, {"error_probability": e}])
    s = counts(rng, n, 1000)
    out = apply_mitigation(noise, Mitigations(Mitigations.READOUT), [s])[0]
    keys = ["".join(b) for b in itertools.product("01", repeat=n)]
    rounding(ctx, [out[k] for k in keys], best(ms, np.array([s[k] for k in keys]) / 1000) * 1000, 1000, f"mitigation of {dict(s)} with {e}", 1e-2)


def zne(ctx, rng, deg, nobs, npar):
    from qadence.mitigations.analog_zne import zne as Z
    levels = torch.tensor(sorted({round(rng.uniform(.1, 3), 2) + i for i in range(deg + 1)}))
    polys = [[[rng.uniform(-1, 1) for _ in range(deg + 1)] for _ in range(npar)] for _ in range(nobs)]
    data = [[[sum(c * float(x) ** k for k, c in enumerate(polys[o][p])) for p in range(npar)] for x in levels] for o in range(nobs)]
    got = Z(levels, data)
    want = torch.tensor([[polys[o][p][0] for p in range(npar)] for o in range(nobs)])
    ctx.ok(tuple(got.shape) == (nobs, npar), f"extrapolation has shape {tuple(got.shape)}, expected {(nobs, npar)}")
    ctx.ok(torch.allclose(got.double(), want.double(), atol=1e-5), f"extrapolation of polynomials to zero noise gives {got}, expected {want}")


def run(ctx):
    for kind in ("valid", "near", "tiny", "tied", "far"):
        for n in (1, 2, 3, 4, 8, 16):
            for i in range(ctx.n(15, 300)):
                ctx.case(f"mle_solve/{kind}/{n}/{i}", mle, ctx, ctx.rng(f"m{kind}{n}{i}"), n, kind)
                ctx.case(f"renormalize_counts/{kind}/{n}/{i}", renorm, ctx, ctx.rng(f"r{kind}{n}{i}"), n, kind, (1, 3, 10, 1000, 10 ** 6)[i % 5])
    for form in ("number", "default", "vector", "perfect", "singular", "matrices"):
        for opt in (None, ReadOutOptimization.MLE, ReadOutOptimization.CONSTRAINED):
            for n in (1, 2, 3):
                for i in range(ctx.n(4, 40) if opt != ReadOutOptimization.CONSTRAINED else ctx.n(3, 12)):
                    ctx.case(f"mitigate/{form}/{opt}/{n}/{i}", full, ctx, ctx.rng(f"f{form}{opt}{n}{i}"), n, form, opt, 1 + i % 3)
    for form in ("number", "default", "vector", "matrices"):
        for opt in (ReadOutOptimization.MLE, ReadOutOptimization.CONSTRAINED):
            for n in (1, 2, 3):
                for i in range(ctx.n(3, 12)):
                    ctx.case(f"invert/{form}/{opt}/{n}/{i}", invert, ctx, ctx.rng(f"i{form}{opt}{n}{i}"), n, form, opt)
    ctx.case("no readout noise", missing, ctx, ctx.rng("n"))
    for i in range(ctx.n(5, 30)):
        ctx.case(f"after digital noise/{i}", after_digital, ctx, ctx.rng(f"d{i}"), 1 + i % 3)
    for deg in (0, 1, 2, 3):
        for i in range(ctx.n(3, 20)):
            ctx.case(f"zne/{deg}/{i}", zne, ctx, ctx.rng(f"z{deg}{i}"), deg, 1 + i % 3, 1 + i % 2)
