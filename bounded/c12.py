"""C12 at run time: constructed Hamiltonians against textbook operators built independently (dense matrices)."""
from bounded.gen import *
from bounded.run import Skip
import itertools, math
import numpy as np
import networkx as nx
from oracle import dense as D
from qadence import QuantumCircuit
from qadence.analog import IdealDevice, RydbergDevice, AddressingPattern
from qadence.analog.hamiltonian_terms import rydberg_drive_hamiltonian, rydberg_interaction_hamiltonian, rydberg_pattern_hamiltonian
from qadence.analog.constants import C6_DICT
from qadence.constructors import hamiltonian_factory, ising_hamiltonian, total_magnetization, zz_hamiltonian
from qadence.constructors.hamiltonians import ObservableConfig, interaction_nn, interaction_xy, interaction_xyz, interaction_zz, is_numeric, ising_hamiltonian_config, total_magnetization_config, zz_hamiltonian_config
from qadence.operations.analog import AnalogRot, AnalogRX, AnalogRY, AnalogRZ
from qadence.register import Register
from qadence.types import Interaction

BOUND = ("registers of up to 5 qubits: all constructors plus random graphs with shuffled insertion order; every interaction and detuning, custom callables, strengths as lists, arrays, tensors, numpy scalars, "
         "prefixes or defaults, random strengths, both edge selections; Rydberg terms on random coordinates for both device interactions and three levels; drive and addressing-pattern terms")

p2 = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1]), "N": np.diag([0, 1])}


def word(n, **at):
    """product of single-qubit operators: word(3, q0='X')"""
    out = np.eye(1)
    for q in range(n):
        out = np.kron(out, p2[at.get(f"q{q}", "I")])
    return out


def one(n, i, a):
    return word(n, **{f"q{i}": a})


def two(n, i, j, a, b):
    return word(n, **{f"q{i}": a, f"q{j}": b})


INT = {Interaction.ZZ: lambda n, i, j: two(n, i, j, "Z", "Z"), Interaction.NN: lambda n, i, j: two(n, i, j, "N", "N"),
       Interaction.XY: lambda n, i, j: two(n, i, j, "X", "X") + two(n, i, j, "Y", "Y"),
       Interaction.XYZ: lambda n, i, j: two(n, i, j, "X", "X") + two(n, i, j, "Y", "Y") + two(n, i, j, "Z", "Z")}


def custom(i, j):
    return 2 * X(i) @ Z(j) + Y(j)


def custom_mat(n, i, j):
    return 2 * two(n, i, j, "X", "Z") + one(n, j, "Y")


DET = {N: "N", X: "X", Y: "Y", Z: "Z"}


def a_register(rng):
    k = rng.randrange(7)
    if k == 0:
        return rng.randrange(2, 6)
    if k == 1:
        return Register.line(rng.randrange(2, 6))
    if k == 2:
        return Register.circle(rng.randrange(3, 6))
    if k == 3:
        return Register.square(2)
    if k == 4:
        return Register.triangular_lattice(1, rng.randrange(1, 4))
    n = rng.randrange(2, 6)
    order = list(range(n))
    rng.shuffle(order)
    g = nx.Graph()
    for i in order:
        g.add_node(i, pos=(float(i), float((i * i) % 3)))
    prs = list(itertools.combinations(range(n), 2))
    rng.shuffle(prs)
    for i, j in prs[:rng.randrange(1, len(prs) + 1)]:
        g.add_edge(*((i, j) if rng.random() < .5 else (j, i)))
    return Register(g)


def strengths(rng, n, prefix):
    """(argument, values or names)"""
    vals_ = [round(rng.uniform(-2, 2), 3) for _ in range(n)]
    k = rng.randrange(6)
    if k == 0:
        return None, [1.0] * n
    if k == 1:
        return list(vals_), vals_
    if k == 2:
        return np.array(vals_), vals_
    if k == 3:
        return torch.tensor(vals_, dtype=torch.double), vals_
    if k == 4:
        return prefix, "names"
    return [Parameter("a", value=DEFAULTS["a"]) * v for v in vals_], [VALS["a"] * v for v in vals_]


def factory(ctx, rng):
    reg = a_register(rng)
    R = Register(reg) if isinstance(reg, int) else reg
    n = R.n_qubits
    allp = rng.random() < .4
    pairs = [tuple(p) for p in R.all_node_pairs] if allp else list(R.edges)
    ctx.ok(not allp or {frozenset(p) for p in pairs} == {frozenset(p) for p in itertools.combinations(range(n), 2)}, "all pairs")
    inter = rng.choice(list(INT) + [custom, None])
    det = rng.choice(list(DET) + [None]) if inter is not None else rng.choice(list(DET))
    if inter is not None and not pairs and det is None:
        raise Skip()
    sd, vd = strengths(rng, n, "u")
    si, vi = strengths(rng, len(pairs), "v")
    h = hamiltonian_factory(reg, interaction=inter, detuning=det, interaction_strength=si, detuning_strength=sd, use_all_node_pairs=allp)
    what = f"{[tuple(p) for p in pairs]} {inter} {det} {type(si).__name__} {type(sd).__name__} all={allp}"
    values = dict(VALS)
    names = {s.name for e in [*flat_params(h)] for s in e.free_symbols}
    if isinstance(vd, str):
        vd = [round(rng.uniform(-2, 2), 3) for _ in range(n)]
        if det is not None:
            values.update({f"u_{i}": v for i, v in zip(R.nodes, vd)})
    if isinstance(vi, str):
        vi = [round(rng.uniform(-2, 2), 3) for _ in pairs]
        if inter is not None:
            values.update({f"v_{i}{j}": v for (i, j), v in zip(pairs, vi)})
    ctx.ok(names <= set(values), f"{what}: parameters {sorted(names - set(values))}")
    want = np.zeros((2 ** n, 2 ** n), dtype=complex)
    if det is not None:
        for v, i in zip(vd, R.nodes):
            want = want + v * one(n, i, DET[det])
    if inter is not None:
        f = custom_mat if inter is custom else INT[inter]
        for v, (i, j) in zip(vi, pairs):
            want = want + v * f(n, i, j)
    ctx.close(D.mat(h, n, values), want, what)
    count = (n if det is not None else 0) + (len(pairs) if inter is not None else 0)
    ctx.ok(len(h.blocks) == count, f"{what}: {len(h.blocks)} terms instead of {count}")


def flat_params(b):
    from qadence.blocks.utils import parameters
    return parameters(b)


def random_strength(ctx, rng):
    reg = a_register(rng)
    R = Register(reg) if isinstance(reg, int) else reg
    n = R.n_qubits
    h = hamiltonian_factory(reg, interaction=Interaction.ZZ, detuning=X, random_strength=True)
    M = D.mat(h, n, {})
    rest = M.copy()
    cs = []
    for i in R.nodes:
        c = np.trace(M @ one(n, i, "X")).real / 2 ** n
        cs.append(c)
        rest = rest - c * one(n, i, "X")
    for i, j in R.edges:
        c = np.trace(M @ two(n, i, j, "Z", "Z")).real / 2 ** n
        cs.append(c)
        rest = rest - c * two(n, i, j, "Z", "Z")
    ctx.close(rest, 0 * rest, "only the requested terms")
    ctx.ok(all(-1 <= c <= 1 and c != 0 for c in cs), f"random strengths {cs}")


def rejected(ctx):
    R = Register.line(3)
    bad = [lambda: hamiltonian_factory(3), lambda: hamiltonian_factory(3, interaction="blah"), lambda: hamiltonian_factory(3, detuning=H),
           lambda: hamiltonian_factory(3, detuning=Z, detuning_strength=[1.0, 2.0]), lambda: hamiltonian_factory(R, interaction=Interaction.ZZ, interaction_strength=[1.0] * 3),
           lambda: hamiltonian_factory(R, interaction=Interaction.ZZ, interaction_strength=[1.0] * 2, use_all_node_pairs=True),
           lambda: hamiltonian_factory(R, interaction=Interaction.ZZ, interaction_strength=2.0), lambda: hamiltonian_factory(R, interaction=lambda i: Z(i)),
           lambda: hamiltonian_factory(R, interaction=lambda i, j: H(i) @ Z(j)), lambda: RydbergDevice(interaction=Interaction.ZZ)]
    for k, f in enumerate(bad):
        try:
            f()
        except (ValueError, TypeError, KeyError):
            continue
        ctx.ok(False, f"accepted invalid request {k}")


def textbook(ctx, n, rng):
    z = [round(rng.uniform(-1, 1), 3) for _ in range(n)]
    x = [round(rng.uniform(-1, 1), 3) for _ in range(n)]
    zz = np.array([[round(rng.uniform(-1, 1), 3) for _ in range(n)] for _ in range(n)])
    Zs = sum(v * one(n, i, "Z") for i, v in enumerate(z))
    Xs = sum(v * one(n, i, "X") for i, v in enumerate(x))
    ZZ = sum((zz[i, j] * two(n, i, j, "Z", "Z") for i in range(n) for j in range(i + 1, n)), np.zeros((2 ** n, 2 ** n)))
    Z1, X1 = sum(one(n, i, "Z") for i in range(n)), sum(one(n, i, "X") for i in range(n))
    ZZ1 = sum((two(n, i, j, "Z", "Z") for i in range(n) for j in range(i + 1, n)), np.zeros((2 ** n, 2 ** n)))
    for a in (np.array(z), list(z)):
        ctx.close(D.mat(total_magnetization(n, a), n, {}), Zs, "total magnetization with weights")
    ctx.close(D.mat(total_magnetization(n), n, {}), Z1, "total magnetization")
    ctx.close(D.mat(zz_hamiltonian(n, np.array(z), zz), n, {}), Zs + ZZ, "zz Hamiltonian with weights")
    ctx.close(D.mat(zz_hamiltonian(n), n, {}), Z1 + ZZ1, "zz Hamiltonian")
    ctx.close(D.mat(zz_hamiltonian(n, zz_terms=zz), n, {}), Z1 + ZZ, "zz Hamiltonian with couplings")
    ctx.close(D.mat(ising_hamiltonian(n, np.array(x), np.array(z), zz), n, {}), Zs + ZZ + Xs, "Ising Hamiltonian with weights")
    ctx.close(D.mat(ising_hamiltonian(n), n, {}), Z1 + ZZ1 + X1, "Ising Hamiltonian")
    ctx.close(D.mat(ising_hamiltonian(n, x_terms=np.array(x)), n, {}), Z1 + ZZ1 + Xs, "Ising Hamiltonian with fields")


def pair_terms(ctx, i, j):
    n = max(i, j) + 1
    for f, k in ((interaction_zz, Interaction.ZZ), (interaction_nn, Interaction.NN), (interaction_xy, Interaction.XY), (interaction_xyz, Interaction.XYZ)):
        b = f(i, j)
        ctx.close(D.mat(b, n, {}), INT[k](n, i, j), f"{k} on {i}, {j}")
        ctx.ok(set(b.qubit_support) == {i, j}, f"{k} on {i}, {j}: qubits")


def configs(ctx, n, kind):
    """an observable configuration with a scale and a shift"""
    from qadence.constructors.hamiltonians import hamiltonian_factory as hf
    from qadence.model import QuantumModel
    from qadence.ml_tools.constructors import create_observable
    Z1, X1 = sum(one(n, i, "Z") for i in range(n)), sum(one(n, i, "X") for i in range(n))
    ZZ1 = sum((two(n, i, j, "Z", "Z") for i in range(n) for j in range(i + 1, n)), np.zeros((2 ** n, 2 ** n)))
    f, M = {"mag": (total_magnetization_config, Z1), "zz": (zz_hamiltonian_config, Z1 + ZZ1), "ising": (ising_hamiltonian_config, Z1 + ZZ1 + X1)}[kind]
    for sc, sh in ((1.0, 0.0), (2.5, 0.0), (0.5, -1.25)):
        cfg = f(scale=sc, shift=sh)
        b = create_observable(n, config=cfg)
        ctx.close(D.mat(b, n, {}), sc * M + sh * np.eye(2 ** n), f"{kind} on {n} qubits, scale {sc}, shift {sh}")
    cfg = f(scale="s", shift="t", trainable_transform=True)
    b = create_observable(n, config=cfg)
    ctx.close(D.mat(b, n, {"s": 1.7, "t": -0.6}), 1.7 * M - 0.6 * np.eye(2 ** n), f"{kind} on {n} qubits, parametric scale and shift")


def rydberg(ctx, rng):
    n = rng.randrange(2, 5)
    pts = rng.sample([(x * 1.0, y * 1.0) for x in range(-2, 3) for y in range(-2, 3)], n)
    inter = rng.choice([Interaction.NN, Interaction.XY])
    lvl = rng.choice([50, 60, 70])
    c3 = rng.choice([3700.0, 12.5])
    dev = RydbergDevice(interaction=inter, rydberg_level=lvl, coeff_xy=c3)
    if rng.random() < .5:
        reg = Register.from_coordinates(pts, spacing=rng.choice([None, 4.0]), device_specs=dev)
    else:
        order = list(range(n))
        rng.shuffle(order)
        g = nx.Graph()
        for i in order:
            g.add_node(i, pos=pts[i])
        g.add_edges_from(p for p in itertools.combinations(range(n), 2) if rng.random() < .5)
        reg = Register(g, spacing=rng.choice([None, 4.0]), device_specs=dev)
    h = rydberg_interaction_hamiltonian(reg)
    want = 0
    for i in range(n):
        for j in range(i + 1, n):
            r = math.dist(reg.coords[i], reg.coords[j])
            want = want + (C6_DICT[lvl] / r ** 6 if inter == Interaction.NN else c3 / r ** 3) * INT[inter](n, i, j)
    ctx.close(D.mat(h, n, {}), want, f"Rydberg interaction of {reg.coords}")
    ctx.ok(len(h.blocks) == n * (n - 1) // 2, "one term per pair")


def drive(ctx, rng):
    n = rng.randrange(1, 4)
    reg = Register.line(n)
    om, de, ph = (rng.choice([round(rng.uniform(-3, 3), 3), Parameter("a", value=DEFAULTS["a"])]) for _ in range(3))
    sup = rng.choice(["global", tuple(sorted(rng.sample(range(n), rng.randrange(1, n + 1))))])
    b = AnalogRot(duration=100.0, omega=om, delta=de, phase=ph, qubit_support=sup)
    h = rydberg_drive_hamiltonian(b, reg)
    o, d, p = (VALS["a"] if not isinstance(v, float) else v for v in (om, de, ph))
    want = 0
    for i in (range(n) if sup == "global" else sup):
        want = want + o / 2 * (math.cos(p) * one(n, i, "X") - math.sin(p) * one(n, i, "Y")) - d * one(n, i, "N")
    ctx.close(D.mat(h, n, VALS), want, f"drive {om} {de} {ph} on {sup}")


def pattern(ctx, rng):
    n = rng.randrange(1, 4)
    wa = {i: round(rng.uniform(0.1, 1), 3) for i in range(n) if rng.random() < .7}
    wd = {i: round(rng.uniform(0.1, 1), 3) for i in range(n) if rng.random() < .7}
    amp, det = round(rng.uniform(0.2, 2), 3), round(rng.uniform(0.2, 20), 3)
    reg = Register.line(n, device_specs=IdealDevice(AddressingPattern(n_qubits=n, weights_amp=wa, weights_det=wd, amp=amp, det=det)))
    h = rydberg_pattern_hamiltonian(reg)
    want = np.zeros((2 ** n, 2 ** n))
    for i in range(n):
        want = want + amp / 2 * wa.get(i, 0) * one(n, i, "X") + det * wd.get(i, 0) * one(n, i, "N")
    ctx.close(D.mat(h, n, {}), want, f"pattern {wa} {wd} {amp} {det}")
    ctx.ok(rydberg_pattern_hamiltonian(Register.line(n)) is None, "no pattern")


def ambiguous(ctx):
    g = nx.Graph()
    for i in [1, 12, 3, 23] + [k for k in range(24) if k not in (1, 12, 3, 23)]:
        g.add_node(i)
    g.add_edges_from([(1, 23), (12, 3)])
    h = hamiltonian_factory(Register(g), interaction=Interaction.ZZ, interaction_strength="v")
    names = [str(e) for e in flat_params(h)]
    ctx.ok(len(set(names)) == 2, f"two edges share the strength {names}")


def run(ctx):
    for i in range(4):
        for j in range(4):
            if i != j:
                ctx.case(f"pair/{i}{j}", pair_terms, ctx, i, j)
    for i in range(ctx.n(400, 6000)):
        ctx.case(f"factory/{i}", factory, ctx, ctx.rng(f"f{i}"))
    for i in range(ctx.n(20, 200)):
        ctx.case(f"random/{i}", random_strength, ctx, ctx.rng(f"r{i}"))
    ctx.case("rejected", rejected, ctx)
    for n in range(1, 6):
        ctx.case(f"textbook/{n}", textbook, ctx, n, ctx.rng(f"t{n}"))
    for n in range(2, 5):
        for k in ("mag", "zz", "ising"):
            ctx.case(f"config/{k}/{n}", configs, ctx, n, k)
    for i in range(ctx.n(80, 800)):
        ctx.case(f"rydberg/{i}", rydberg, ctx, ctx.rng(f"y{i}"))
        ctx.case(f"drive/{i}", drive, ctx, ctx.rng(f"d{i}"))
    for i in range(ctx.n(25, 200)):
        ctx.case(f"pattern/{i}", pattern, ctx, ctx.rng(f"p{i}"))
    ctx.case("names/ambiguous", ambiguous, ctx)
