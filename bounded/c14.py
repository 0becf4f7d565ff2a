"""C14 at run time: decompositions, product formulas, the QFT and the DAQC transform against dense matrices."""
from bounded.gen import *
from oracle import dense as D
from oracle.dense import mat
import itertools
import math
import numpy as np
import torch
from qadence import QuantumCircuit
from qadence import run as execute
from qadence.decompose import lie_trotter_suzuki, decompose_pauli_exp
from qadence.transpile import digitalize
from qadence.types import LTSOrder, Strategy
from qadence.constructors import qft, daqc_transform, hamiltonian_factory

BOUND = ("Pauli Hamiltonians of <= 4 terms of <= 4 factors (X, Y, Z, N, I, in any qubit order, with gaps, nested and scaled) on <= 5 qubits; "
         "all supports, flags and widths <= 5 of the digital QFT (widths 9 and 10 on a random state), widths 2, 3 and 5 of the sDAQC QFT; DAQC transforms on 2, 3 and 5 qubits")
P1 = {"X": X, "Y": Y, "Z": Z, "N": N, "I": I}
TOL = 1e-8


def close(ctx, got, want, msg, tol=TOL):
    d = float(np.max(np.abs(got - want)))
    ctx.ok(d < tol, f"{msg}: matrices differ by {d:.3g}")


def word(rng, n, k, letters="XYZ"):
    qs = rng.sample(range(n), k)
    return [(q, rng.choice(letters)) for q in qs]


def wblock(rng, w, nest=False):
    bs = [P1[p](q) for q, p in w]
    if len(bs) == 1:
        return bs[0]
    if nest and len(bs) > 2:
        return kron(kron(*bs[:2]), *bs[2:]) if rng.random() < 0.5 else kron(bs[0], kron(*bs[1:]))
    return kron(*bs)


def commuting(a, b):
    m = sum(1 for q, p in a for r, s in b if q == r and p != s and "I" not in (p, s) and not {p, s} <= {"Z", "N"})
    plain = not any(p == "N" for _, p in a + b)
    return m == 0 or (m % 2 == 0 and plain)


def ham(rng, n, k, letters="XYZ", nest=False, scales=None):
    ws, out = [], []
    for _ in range(60):
        w = word(rng, n, rng.randint(1, min(4, n)), letters)
        if all(commuting(w, v) for v in ws):
            ws.append(w)
        if len(ws) == k:
            break
    for w in ws:
        b = wblock(rng, w, nest)
        s = (scales or (lambda: round(rng.uniform(-1.5, 1.5), 3)))()
        out.append(b if rng.random() < 0.2 else s * b)
    return out[0] if len(out) == 1 else add(*out)


def exact(g, t, n):
    return D.expm(-1j * t * mat(g, n, VALS))


def evolution(ctx, g, t, n):
    tv = D.num(t, VALS) if isinstance(t, sympy.Basic) else t
    h = HamEvo(g, t)
    close(ctx, mat(h.digital_decomposition(LTSOrder.BASIC), n, VALS), exact(g, tv, n), "digital_decomposition")
    close(ctx, mat(digitalize(chain(h), LTSOrder.BASIC), n, VALS), exact(g, tv, n), "digitalize")
    close(ctx, mat(h.digital_decomposition(), n, VALS), exact(g, tv, n), "default approximation")


def formula(ctx, g, t, n, order):
    """commuting terms: every product formula is exact"""
    tv = D.num(t, VALS) if isinstance(t, sympy.Basic) else t
    close(ctx, mat(chain(*lie_trotter_suzuki(g, Parameter(t) if not isinstance(t, sympy.Basic) else t, order)), n, VALS), exact(g, tv, n), str(order))


def first_order(ctx, terms, t, n):
    want = np.eye(2 ** n)
    for b in terms:
        want = exact(b, t, n) @ want
    close(ctx, mat(chain(*lie_trotter_suzuki(add(*terms), Parameter(t), LTSOrder.BASIC)), n, VALS), want, "first-order product")


def err(g, t, n, order):
    return float(np.max(np.abs(mat(chain(*lie_trotter_suzuki(g, Parameter(t), order)), n, VALS) - exact(g, t, n))))


def higher_order(ctx, g, n):
    """a wrong share of time leaves an error linear in t; a wrong order of the steps an error quadratic in t"""
    a, b = err(g, 0.4, n, LTSOrder.ST2), err(g, 0.2, n, LTSOrder.ST2)
    ctx.ok(a < 0.05 and (b < 1e-9 or a / b > 6.0), f"second order: errors {a:.3g}, {b:.3g} at t = 0.4, 0.2")
    ctx.ok(a / max(b, 1e-300) < 10.5 or a < 1e-9, f"second order: errors {a:.3g}, {b:.3g} at t = 0.4, 0.2")


def fourth_order(ctx, g, n):
    a, b = err(g, 0.8, n, LTSOrder.ST4), err(g, 0.4, n, LTSOrder.ST4)
    ctx.ok(a < 1e-7 and (b < 1e-11 or a / b > 16), f"fourth order: errors {a:.3g}, {b:.3g} at t = 0.8, 0.4")


def honoured(ctx, order):
    g, t = add(X(0), Z(0)), 0.4
    d = float(np.max(np.abs(mat(HamEvo(g, t).digital_decomposition(order), 1, VALS) - exact(g, t, 1))))
    ctx.ok(d < 1e-3, f"HamEvo(X(0) + Z(0), 0.4).digital_decomposition({order}) is off by {d:.3g}; the formula itself by {err(g, t, 1, order):.3g}")


def udec(ctx, q, a, b, c):
    u = U(q, a, b, c)
    n = q + 1
    w = D.place(D.u3(*[D.num(x, VALS) if isinstance(x, sympy.Basic) else x for x in (a, b, c)]), (q,), n)
    close(ctx, mat(u.digital_decomposition(), n, VALS), w, "decomposition of U")
    close(ctx, mat(digitalize(chain(u), LTSOrder.BASIC), n, VALS), w, "digitalize(U)")


def tree(ctx, rng, n):
    """a circuit with evolutions and general rotations inside"""
    def lf(qs):
        k = rng.randrange(4)
        if k == 0:
            return U(rng.choice(qs), params(rng), params(rng), params(rng))
        if k == 1:
            return leaf(rng, qs, hamevo=False, unitary=True)
        m = rng.sample(qs, rng.randint(1, len(qs)))
        g = wblock(rng, [(q, rng.choice("XYZN")) for q in m])
        return HamEvo(0.7 * g, params(rng))
    def go(qs, d):
        k = rng.randrange(4) if d else 0
        if k == 0:
            return lf(qs)
        if k == 1 and len(qs) > 1:
            c = rng.randrange(1, len(qs))
            return kron(go(qs[:c], d - 1), go(qs[c:], d - 1))
        if k == 2:
            return add(go(qs, d - 1), go(qs, d - 1))
        return chain(*[go(qs, d - 1) for _ in range(rng.randint(1, 3))])
    b = go(list(range(n)), 2)
    want = mat(b, n, VALS)
    close(ctx, mat(digitalize(b, LTSOrder.BASIC), n, VALS), want, "digitalized block")
    if n == 2:
        c = digitalize(QuantumCircuit(n, chain(b)), LTSOrder.BASIC)
        close(ctx, mat(c.block, n, VALS), want, "digitalized circuit")


def dft(n):
    N_ = 2 ** n
    return np.array([[np.exp(2j * math.pi * a * b / N_) for b in range(N_)] for a in range(N_)]) / math.sqrt(N_)


def bitrev(n):
    m = np.zeros((2 ** n, 2 ** n))
    for k in range(2 ** n):
        m[int(format(k, f"0{n}b")[::-1], 2), k] = 1
    return m


def fourier_state(ctx, n, inverse):
    """many qubits: the circuit run on a random state against the discrete Fourier transform of the state"""
    r = np.random.RandomState(n)
    psi = r.normal(size=2 ** n) + 1j * r.normal(size=2 ** n)
    psi /= np.linalg.norm(psi)
    got = execute(n, qft(n, inverse=inverse, swaps_out=True), state=torch.tensor(psi[None, :])).detach().numpy()[0]
    want = np.fft.fft(psi, norm="ortho") if inverse else np.fft.ifft(psi, norm="ortho")
    close(ctx, got, want, f"qft({n}, inverse={inverse}, swaps_out=True) on a random state", 1e-6)


def fourier(ctx, n, support, inverse, reverse_in, swaps_out, strategy, tol=1e-8):
    b = qft(n, support=support, inverse=inverse, reverse_in=reverse_in, swaps_out=swaps_out, strategy=strategy)
    sup = support or tuple(range(n))
    N_ = max(sup) + 1
    qs = sup[::-1] if reverse_in else sup
    m = dft(n) if swaps_out else bitrev(n) @ dft(n)
    if inverse:
        m = m.conj().T
    close(ctx, mat(b, N_, VALS), D.place(m, qs, N_), f"qft({n}, {sup}, inverse={inverse}, reverse_in={reverse_in}, swaps_out={swaps_out}, {strategy})", tol)


def pairs(n):
    return [(i, j) for j in range(n) for i in range(j)]


def daqc(ctx, rng, n, op_t, op_b, sparse):
    def gen(op, ps):
        return add(*[round(rng.choice([-1, 1]) * rng.uniform(0.3, 1.4), 3) * kron(op(i), op(j)) for i, j in ps])
    ps = pairs(n)
    tp = rng.sample(ps, rng.randint(1, len(ps))) if sparse else ps
    if sparse:
        tp = tp + tp[:1]         # one pair listed twice
    gt, gb = gen(op_t, tp), gen(op_b, ps + ps[-1:] if sparse else ps)
    t = round(rng.uniform(0.2, 1.2), 3)
    b = daqc_transform(n_qubits=n, gen_target=gt, t_f=t, gen_build=gb)
    close(ctx, mat(b, n, VALS), exact(gt, t, n), "daqc_transform", 2e-5)
    b = daqc_transform(n_qubits=n, gen_target=gt, t_f=t, gen_build=gb, ignore_global_phases=True)
    m, w = mat(b, n, VALS), exact(gt, t, n)
    ph = np.trace(w.conj().T @ m) / 2 ** n
    close(ctx, m, ph * w, "daqc_transform up to a global phase", 2e-5)


def run(ctx):
    a, c = Parameter("a", value=0.1), Parameter("c", value=0.2, trainable=False)
    fixed = [("Z0Z2", kron(Z(0), Z(2)), 3), ("X3Y0", kron(X(3), Y(0)), 4), ("Y2", 0.3 * Y(2), 3), ("identity", add(I(0), Z(0)), 1), ("only identity", 0.4 * I(1), 2), ("IZ", kron(I(0), Z(1)), 2),
             ("N", N(0), 1), ("NN", 0.8 * kron(N(2), N(0)), 3), ("NZ", kron(N(0), Z(1)), 2), ("nested", kron(kron(X(0), Y(1)), Z(2)), 3), ("nested twice", 2 * kron(kron(X(0), kron(X(1))), kron(X(2))), 3),
             ("scale in product", kron(X(0), 2 * Z(1)), 2), ("scaled sum", 0.5 * add(Z(0), Z(1), kron(X(2), X(3))), 4), ("chain", chain(Z(0), Z(1)), 2), ("square", chain(kron(X(0), X(1)), X(1)), 2),
             ("heisenberg", add(kron(X(0), X(1)), kron(Y(0), Y(1)), kron(Z(0), Z(1))), 2), ("symbolic", a * kron(X(0), Y(2)) + a * c * kron(Y(0), X(2)), 3), ("symbolic scale of a sum", a * (Z(0) + 2 * Z(1)), 2),
             ("YYY", Y(0) + Y(1) + Y(2), 3), ("long", kron(X(0), Y(1), Z(2), Y(4)), 5)]
    for nm, g, n in fixed:
        for t in (0.7, -1.3, c, 2 * a + c):
            ctx.case(f"evolution/{nm}/{t}", evolution, ctx, g, t, n)
        for order in (LTSOrder.BASIC, LTSOrder.ST2):
            ctx.case(f"formula/{nm}/{order.value}", formula, ctx, g, 0.7, n, order)
    for nm, g, n in fixed[:3] + fixed[-2:-1]:
        ctx.case(f"formula/{nm}/ST4", formula, ctx, g, c, n, LTSOrder.ST4)
    for i in range(ctx.n(60, 600)):
        r = ctx.rng(f"h{i}")
        n = r.randint(1, 4)
        g = ham(r, n, r.randint(1, 4), r.choice(["XYZ", "XYZ", "ZN", "XYZI", "Z"]), r.random() < 0.4, (lambda: params(r)) if r.random() < 0.3 else None)
        t = params(r) if r.random() < 0.5 else round(r.uniform(-2, 2), 3)
        ctx.case(f"commuting/{i}", evolution, ctx, g, t, n)
        if i % 6 == 0:
            ctx.case(f"commuting formula/{i}", formula, ctx, g, t, n, LTSOrder.ST2)
    for i in range(ctx.n(20, 150)):
        r = ctx.rng(f"f{i}")
        n = r.randint(1, 3)
        ts = [round(r.uniform(-1.5, 1.5), 3) * wblock(r, word(r, n, r.randint(1, n))) for _ in range(r.randint(2, 4))]
        ctx.case(f"first order/{i}", first_order, ctx, ts, round(r.uniform(0.1, 1), 3), n)
    for i, (g, n) in enumerate([(add(X(0), Z(0)), 1), (add(Y(0), X(0)), 1), (add(X(0), Y(0), 0.5 * Z(0)), 1), (add(kron(Y(0), Z(1)), X(0), 0.7 * Y(1)), 2), (add(kron(X(0), X(2)), Y(0), Y(2)), 3)]):
        ctx.case(f"second order/{i}", higher_order, ctx, g, n)
        if n == 1:
            ctx.case(f"fourth order/{i}", fourth_order, ctx, g, n)
    for order in (LTSOrder.ST2, LTSOrder.ST4):
        ctx.case(f"approximation/{order.value}", honoured, ctx, order)
    for i in range(ctx.n(12, 80)):
        r = ctx.rng(f"u{i}")
        ctx.case(f"U/{i}", udec, ctx, r.randrange(3), params(r), params(r), params(r))
    for i in range(ctx.n(40, 400)):
        r = ctx.rng(f"t{i}")
        ctx.case(f"tree/{i}", tree, ctx, r, r.randint(1, 3))
    for n in range(1, 6):
        r = ctx.rng(f"q{n}")
        sups = [None] + ([tuple(r.sample(range(n + 1), n)) for _ in range(2)] if n < 5 else [])
        for s in sups:
            for inv, rev, sw in itertools.product((False, True), repeat=3):
                ctx.case(f"qft/{n}/{s}/{inv}/{rev}/{sw}", fourier, ctx, n, s, inv, rev, sw, Strategy.DIGITAL)
    for n in ((9, 10) if ctx.tier == "quick" else (9, 10, 11, 12)):
        for inv in (False, True):
            ctx.case(f"qft of many qubits/{n}/{inv}", fourier_state, ctx, n, inv)
    for n in ((2, 3) if ctx.tier == "quick" else (2, 3, 5)):
        for inv, rev, sw in itertools.product((False, True), repeat=3):
            ctx.case(f"qft sDAQC/{n}/{inv}/{rev}/{sw}", fourier, ctx, n, None, inv, rev, sw, Strategy.SDAQC, 2e-5)
    for n in ((2, 3) if ctx.tier == "quick" else (2, 3, 5)):
        for ot, ob_ in itertools.product((Z, N), repeat=2):
            for sp in (False, True):
                for i in range(ctx.n(1, 4)):
                    ctx.case(f"daqc/{n}/{ot.__name__}{ob_.__name__}/{sp}/{i}", daqc, ctx, ctx.rng(f"{n}{ot}{ob_}{sp}{i}"), n, ot, ob_, sp)
