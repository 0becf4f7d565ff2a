"""C17 at run time: analog blocks on real registers against an independent matrix exponential of the documented Hamiltonian."""
from bounded.gen import *
from bounded.run import Skip
import math
import numpy as np
import scipy.linalg
import torch
from qadence import (AnalogInteraction, AnalogRot, AnalogRX, AnalogRY, AnalogRZ, QuantumCircuit, QuantumModel, Register, run as qrun)
from qadence.analog import AddressingPattern, RydbergDevice, add_background_hamiltonian
from qadence.analog.constants import C6_DICT
from qadence.blocks.analog import AnalogChain, AnalogKron
from qadence.operations import AnalogSWAP
from qadence.types import Interaction
import oracle.dense as D

BOUND = ("1 to 4 qubits at random positions, both interactions, four Rydberg levels, random addressing patterns inside their limits; rotations with random duration, amplitude, detuning and phase given as numbers or parameters, "
         "global and local, pattern switched on or off; chains, parallel compositions, mixtures with digital gates; random initial states; batches of two parameter values")
VX = {"x": [0.7, 1.3], "y": [0.4, -0.9]}
PX = np.array([[0, 1], [1, 0]], complex)
PY = np.array([[0, -1j], [1j, 0]])
PN = np.diag([0, 1]).astype(complex)


def on(op, q, n):
    return D_kron([op if k == q else np.eye(2) for k in range(n)])


def D_kron(ms):
    out = np.ones((1, 1), complex)
    for m in ms:
        out = np.kron(out, m)
    return out


def interaction(pos, dev):
    n = len(pos)
    H = np.zeros((2 ** n, 2 ** n), complex)
    for i in range(n):
        for j in range(i):
            r = math.dist(pos[i], pos[j])
            if dev.interaction == Interaction.NN:
                H += C6_DICT[dev.rydberg_level] / r ** 6 * on(PN, i, n) @ on(PN, j, n)
            else:
                H += dev.coeff_xy / r ** 3 * (on(PX, i, n) @ on(PX, j, n) + on(PY, i, n) @ on(PY, j, n))
    return H


def drive(qs, n, om, de, ph):
    H = np.zeros((2 ** n, 2 ** n), complex)
    for q in qs:
        H += om / 2 * (math.cos(ph) * on(PX, q, n) - math.sin(ph) * on(PY, q, n)) - de * on(PN, q, n)
    return H


def pattern(pat, n):
    if pat is None:
        return np.zeros((2 ** n, 2 ** n), complex)
    wa, wd, amp, det = pat
    return sum(amp * wa.get(q, 0.) / 2 * on(PX, q, n) + det * wd.get(q, 0.) * on(PN, q, n) for q in range(n))


def num(rng, lo, hi, par):
    """(what is written in the block, its values for the two members of the batch)"""
    v = round(rng.uniform(lo, hi), 4)
    if not par or rng.random() < .5:
        return v, [v, v]
    nm = rng.choice("xy")
    p = FeatureParameter(nm)
    return v * p, [v * w for w in VX[nm]]


class Setup:
    def __init__(self, rng, n, pat=True):
        self.n = n
        while True:
            self.pos = [(round(rng.uniform(-12, 12), 2), round(rng.uniform(-12, 12), 2)) for _ in range(n)]
            if all(math.dist(a, b) > 5.5 for i, a in enumerate(self.pos) for b in self.pos[:i]):
                break
        self.pat = None
        ap = None
        if pat:
            wa = {q: round(rng.uniform(.05, .9), 3) for q in range(n) if rng.random() < .7}
            wd = {q: round(rng.uniform(.05, .9), 3) for q in range(n) if rng.random() < .7}
            amp, det = round(rng.uniform(.2, 2.5), 3), round(rng.uniform(.5, 9.), 3)
            self.pat = (wa, wd, amp, det)
            ap = AddressingPattern(n, dict(wa), dict(wd), amp, det)
        self.dev = RydbergDevice(interaction=rng.choice([Interaction.NN, Interaction.XY]), rydberg_level=rng.choice([50, 60, 70, 90]), coeff_xy=rng.choice([3700., 50.]), pattern=ap)
        self.reg = Register.from_coordinates(self.pos, device_specs=self.dev)
        self.hi = interaction(self.pos, self.dev)
        self.hp = pattern(self.pat, n)


def evo(H, t_ns):
    return scipy.linalg.expm(-1j * H * t_ns / 1000)


def primitive(s, rng, par, local=None, dur=None):
    """(block, its two matrices)"""
    n = s.n
    sup = local if local is not None else "global"
    qs = range(n) if local is None else local
    add = rng.random() < .6
    back = s.hi + (s.hp if add else 0)
    kind = rng.choice(["wait", "rot", "rot", "RX", "RY", "RZ"] if dur is None else ["wait", "rot", "rot"])
    d, dv = num(rng, 20, 900, par) if dur is None else dur
    if kind == "wait":
        return kind, AnalogInteraction(d, qubit_support=sup, add_pattern=add), [evo(back, t) for t in dv]
    if kind == "rot":
        (o, ov), (de, dev), (p, pv) = num(rng, .5, 9, par), num(rng, -7, 7, par), num(rng, -3, 3, par)
        return kind, AnalogRot(duration=d, omega=o, delta=de, phase=p, qubit_support=sup, add_pattern=add), [evo(back + drive(qs, n, ov[i], dev[i], pv[i]), dv[i]) for i in range(2)]
    a, av = num(rng, .1, 3, par)
    b = {"RX": AnalogRX, "RY": AnalogRY, "RZ": AnalogRZ}[kind](a, qubit_support=sup, add_pattern=add)
    H = {"RX": drive(qs, n, math.pi, 0, 0), "RY": drive(qs, n, math.pi, 0, -math.pi / 2), "RZ": drive(qs, n, 0, math.pi, 0)}[kind]
    return kind, b, [evo(back + H, 1000 * x / math.pi) for x in av]


def run_(block, s, state):
    v = {k: torch.tensor(x, dtype=torch.double) for k, x in VX.items()}
    st = torch.tensor(state).reshape(1, -1)
    return qrun(s.reg, block, values=v, state=st).detach().numpy()


def state(rng, n):
    g = np.random.default_rng(rng.randrange(10 ** 6))
    v = g.normal(size=2 ** n) + 1j * g.normal(size=2 ** n)
    return v / np.linalg.norm(v)


def close(ctx, got, us, st, what):
    got = np.atleast_2d(got)
    for i in range(2):
        row = got[i] if len(got) == 2 else got[0]
        want = us[i] @ st
        ctx.ok(np.abs(row - want).max() < 1e-5, f"{what}: state {row}, expected {want} (values number {i})")


def describe(s):
    return f"positions {s.pos}, {s.dev.interaction}, level {s.dev.rydberg_level}, C3 {s.dev.coeff_xy}, pattern {s.pat}"


def one(ctx, rng, n, par, local, pat):
    s = Setup(rng, n, pat)
    loc = None if not local else tuple(rng.sample(range(n), rng.randrange(1, n + 1)))
    k, b, us = primitive(s, rng, par, loc)
    st = state(rng, n)
    close(ctx, run_(b, s, st), us, st, f"{b} on {describe(s)}")


def seq(ctx, rng, n, par, digital):
    s = Setup(rng, n, rng.random() < .5)
    bs, us, what = [], [np.eye(2 ** n, dtype=complex)] * 2, []
    if digital and rng.random() < .5:
        g = H(rng.randrange(n))
        bs.append(g)
        us = [D.mat(g, n, {}) @ u for u in us]
    for _ in range(rng.randrange(1, 4)):
        k, b, u = primitive(s, rng, par)
        bs.append(b)
        what.append(str(b))
        us = [u[i] @ us[i] for i in range(2)]
        if digital:
            g = rng.choice([H(rng.randrange(n)), RX(rng.randrange(n), .7), *([CNOT(0, n - 1)] if n > 1 else [])])
            bs.append(g)
            us = [D.mat(g, n, {}) @ u for u in us]
    st = state(rng, n)
    if rng.random() < .4 and len(bs) > 2:
        bs = [bs[0], chain(*bs[1:])]
    close(ctx, run_(chain(*bs), s, st), us, st, f"chain of {what} on {describe(s)}")


def par_(ctx, rng, n, par):
    """parallel composition: the local rotations one after the other; if all wait, the interaction alone"""
    s = Setup(rng, n, rng.random() < .5)
    qs = list(range(n))
    rng.shuffle(qs)
    cut = rng.randrange(1, n)
    dur = num(rng, 20, 900, par)
    parts = [primitive(s, rng, par, tuple(qs[:cut]), dur), primitive(s, rng, par, tuple(qs[cut:]), dur)]
    b = kron(parts[0][1], parts[1][1])
    us = [np.eye(2 ** n, dtype=complex)] * 2
    rots = [p for p in parts if p[0] != "wait"]
    for p in rots or parts[:1]:
        us = [p[2][i] @ us[i] for i in range(2)]
    ctx.ok(type(b) is AnalogKron, "kron of analog blocks")
    st = state(rng, n)
    close(ctx, run_(b, s, st), us, st, f"{parts[0][1]} beside {parts[1][1]} on {describe(s)}")


def free(ctx, rng, n):
    """far apart atoms: the shorthands are the digital rotations up to a global phase"""
    reg = Register.line(n, spacing=1e4)
    a = round(rng.uniform(.1, 6), 3)
    st = state(rng, n)
    for A, G in ((AnalogRX, RX), (AnalogRY, RY), (AnalogRZ, RZ)):
        sup = rng.choice(["global", (rng.randrange(n),)])
        got = qrun(reg, A(a, qubit_support=sup), state=torch.tensor(st).reshape(1, -1)).numpy()[0]
        want = D.mat(kron(*(G(q, a) for q in (range(n) if sup == "global" else sup))), n, {}) @ st if True else None
        ctx.ok(abs(abs(np.vdot(want, got)) - 1) < 1e-6, f"{A.__name__}({a}) on {sup} is not the rotation {G.__name__}({a})")


def parsed(ctx, rng, n):
    """the parsed block leaves digital parts and the register alone, and does not change its argument"""
    s = Setup(rng, n, True)
    dig = chain(H(0), CNOT(0, n - 1) if n > 1 else X(0), 0.5 * Z(0))
    c = QuantumCircuit(s.reg, dig)
    p = add_background_hamiltonian(c)
    ctx.ok(p.block == dig, f"digital block {dig} became {p.block}")
    ctx.ok(p.register is s.reg or p.register == s.reg, "other register")
    k, b, us = primitive(s, rng, False)
    c = QuantumCircuit(s.reg, chain(H(0), b))
    for _ in range(2):                 # parsing twice gives the same operator: nothing accumulates
        q = add_background_hamiltonian(c)
        st = state(rng, n)
        got = qrun(s.reg, q.block, state=torch.tensor(st).reshape(1, -1)).numpy()
        close(ctx, got, [u @ D.mat(H(0), n, {}) for u in us], st, f"parsed {b} on {describe(s)}")
    try:
        add_background_hamiltonian(b)
        ctx.ok(False, "a block without a register is accepted")
    except ValueError:
        pass
    got = add_background_hamiltonian(b, s.reg)
    ctx.ok(not isinstance(got, type(b)), "block input is not parsed")


def rules(ctx, rng):
    a, b = AnalogRX(1., qubit_support=(0,)), AnalogRY(2., qubit_support=(1,))
    bad = {"different durations": lambda: kron(a, b), "overlap": lambda: kron(a, AnalogRY(1., qubit_support=(0, 1))), "global in parallel": lambda: kron(AnalogRX(1.), AnalogRY(1., qubit_support=(1,))),
           "local in a chain": lambda: chain(a, AnalogRX(1.)), "no drive": lambda: AnalogRot(duration=10., omega=0, delta=0)}
    for nm, f in bad.items():
        try:
            r = f()
        except (ValueError, NotImplementedError, AssertionError):
            continue
        ctx.ok(False, f"{nm}: accepted as {r}")
    for _ in range(5):
        ts = [round(rng.uniform(10, 500), 2) for _ in range(3)]
        ctx.ok(abs(float(chain(*(AnalogInteraction(t) for t in ts)).duration) - sum(ts)) < 1e-6, f"duration of a chain of {ts}")
        k = kron(AnalogInteraction(ts[0], qubit_support=(0,)), AnalogRot(duration=ts[0], omega=1., qubit_support=(1,)))
        ctx.ok(abs(float(k.duration) - ts[0]) < 1e-6, "duration of a parallel composition")


def swap(ctx, rng):
    from qadence import block_to_tensor
    for i, j in ((0, 1), (1, 0)):
        m = block_to_tensor(AnalogSWAP(i, j)).detach().numpy()[0]
        w = np.eye(4)[[0, 2, 1, 3]]
        ctx.ok(abs(abs(np.trace(w.conj().T @ m)) / 4 - 1) < 1e-6, f"AnalogSWAP({i},{j}) is not a SWAP up to phase")


def run(ctx):
    for n in (1, 2, 3, 4):
        for i in range(ctx.n(10 if n < 4 else 3, 80)):
            ctx.case(f"single/{n}/{i}", one, ctx, ctx.rng(f"o{n}{i}"), n, i % 2 == 1, i % 3 == 2, i % 4 != 0)
    for n in (1, 2, 3):
        for i in range(ctx.n(8, 60)):
            ctx.case(f"chain/{n}/{i}", seq, ctx, ctx.rng(f"c{n}{i}"), n, i % 2 == 1, i % 3 != 0)
    for n in (2, 3):
        for i in range(ctx.n(14, 60)):
            ctx.case(f"parallel/{n}/{i}", par_, ctx, ctx.rng(f"k{n}{i}"), n, i % 2 == 1)
    for n in (1, 2, 3):
        for i in range(ctx.n(3, 20)):
            ctx.case(f"without interaction/{n}/{i}", free, ctx, ctx.rng(f"f{n}{i}"), n)
            ctx.case(f"parsing/{n}/{i}", parsed, ctx, ctx.rng(f"p{n}{i}"), n)
    ctx.case("rules", rules, ctx, ctx.rng("r"))
    ctx.case("swap", swap, ctx, ctx.rng("s"))
