"""C18 at run time: feature maps and ansatze gate by gate against independently written lists of the documented gates."""
from bounded.gen import *
from bounded.run import Skip
import itertools
import math
import numpy as np
import scipy.linalg
import torch
from qadence import (AnalogRX, AnalogRY, AnalogRZ, QuantumCircuit, QuantumModel, Register, BasisSet, ReuploadScaling, feature_map, exp_fourier_feature_map, analog_feature_map,
                     rydberg_feature_map, rydberg_tower_feature_map, hamiltonian_factory, hea, run as qrun)
from qadence.blocks.analog import ConstantAnalogRotation
from qadence.constructors import ala, identity_initialized_ansatz, rydberg_hea
from qadence.constructors.rydberg_hea import rydberg_hea_layer
from qadence.ml_tools.config import AnsatzConfig, FeatureMapConfig
from qadence.ml_tools.constructors import build_qnn_from_configs, create_ansatz, create_fm_blocks, ObservableConfig
from qadence.types import AnsatzType, Interaction, MultivariateStrategy, Strategy
import oracle.dense as D

BOUND = ("1 to 6 qubits on shuffled supports, depth 1 to 3 (12 for parameter names of the identity initialized ansatz), rotations and entanglers of every accepted kind, all encodings, "
         "scalings and ranges at three data points, configurations of up to three features")
PI = math.pi


# ---------------------------------------------------------------- gates in the order in which they act
def gates(b):
    if type(b).__name__ in ("ChainBlock", "KronBlock", "AnalogChain", "AnalogKron"):
        return [g for x in b.blocks for g in gates(x)]
    return [b]


def exprs(g):
    e = g.parameters.expressions
    return list(e() if callable(e) else e)


def expr(g):
    return exprs(g)[0]


def line(gs):
    """what happens on every qubit, in order: insensitive to the order of gates on different qubits"""
    out = {}
    for i, (nm, qs, ps) in enumerate(gs):
        for q in qs:
            out.setdefault(q, []).append((nm, tuple(qs), ps))
    return out


def seen(b):
    out = []
    for g in gates(b):
        nm = type(g).__name__
        ps = tuple(exprs(g)) if hasattr(g, "parameters") else ()
        if nm == "CNOT":
            ps = ()
        out.append((nm, tuple(g.qubit_support), ps))
    return out


ROT = {"RX": RX, "RY": RY, "RZ": RZ, "PHASE": PHASE}
ENT = {"CNOT": CNOT, "CZ": CZ, "CRX": CRX, "CRY": CRY, "CRZ": CRZ, "CPHASE": CPHASE}
FREE = "own trainable parameter"


def rotate(ops, qs):
    return [(o, (q,), FREE) for o in ops for q in qs]


def link(e, pairs):
    return [(e, p, () if e in ("CNOT", "CZ") else FREE) for p in pairs]


def match(ctx, b, want, prefix, what):
    """the documented gates, each parametric one with a trainable parameter of its own"""
    got = seen(b)
    names = []
    flat = []
    for nm, qs, ps in got:
        if len(ps) == 1 and isinstance(ps[0], sympy.Symbol) and getattr(ps[0], "trainable", False):
            names.append(ps[0].name)
            flat.append((nm, qs, FREE))
        else:
            flat.append((nm, qs, tuple(ps)))
    a, w = line(flat), line(want)
    ctx.ok(a == w, f"{what}: " + "; ".join(f"qubit {q}: {[(x[0], x[1]) for x in a.get(q, [])]} instead of {[(x[0], x[1]) for x in w.get(q, [])]}" for q in sorted(set(a) | set(w)) if a.get(q) != w.get(q))[:600])
    ctx.ok(len(set(names)) == len(names), f"{what}: parameters shared by several gates: {sorted({n for n in names if names.count(n) > 1})[:6]}")
    ctx.ok(all(n.startswith(prefix) for n in names), f"{what}: parameter names {[n for n in names if not n.startswith(prefix)][:4]} without the prefix {prefix}")


# ---------------------------------------------------------------- ansatze
def hea_gates(sup, depth, ops, ent, periodic):
    n = len(sup)
    out = []
    for _ in range(depth):
        out += rotate(ops, sup)
        out += link(ent, [(sup[i], sup[i + 1]) for i in range(0, n - 1, 2)])
        out += link(ent, [(sup[i], sup[i + 1]) for i in range(1, n - 1, 2)])
        if periodic and n > 2:
            out += link(ent, [(sup[n - 1], sup[0])])
    return out


def ala_gates(sup, m, depth, ops, ent):
    n = len(sup)
    out = []
    for d in range(depth):
        out += rotate(ops, sup)
        first = 0 if d % 2 == 0 else -((m + 1) // 2)
        for parity in (0, 1):
            for start in range(first, n, m):
                out += link(ent, [(sup[start + j], sup[start + j + 1]) for j in range(parity, m - 1, 2) if start + j >= 0 and start + j + 1 < n])
    return out


def support(rng, n):
    return tuple(rng.sample(range(n + 3), n))


def hea_case(ctx, rng, n, periodic):
    for given in (False, True):
        sup = support(rng, n) if given else tuple(range(n))
        depth = rng.randint(1, 3)
        ops = [rng.choice(["RX", "RY", "RZ", "PHASE"]) for _ in range(rng.randint(1, 3))]
        ent = rng.choice(list(ENT))
        px = rng.choice(["theta", "w", "a_1"])
        kw = dict(support=sup) if given else {}
        b = hea(n, depth=depth, param_prefix=px, operations=[ROT[o] for o in ops], entangler=ENT[ent], periodic=periodic, **kw)
        match(ctx, b, hea_gates(sup, depth, ops, ent, periodic), px, f"hea({n}, depth={depth}, operations={ops}, entangler={ent}, periodic={periodic}, support={sup})")
    b = hea(n, depth=2)
    match(ctx, b, hea_gates(tuple(range(n)), 2, ["RX", "RY", "RX"], "CNOT", False), "theta", f"hea({n}, depth=2)")


def evo(ctx, g, gen, n, name, what):
    """an evolution under gen (a matrix) for the time of a single parameter"""
    ctx.ok(type(g).__name__ == "HamEvo", f"{what}: {type(g).__name__} instead of an evolution")
    t = expr(g)
    ctx.ok(isinstance(t, sympy.Symbol) and t.trainable and t.name == name if name else isinstance(t, sympy.Symbol) and t.trainable, f"{what}: time {t}")
    ctx.ok(D.dist(D.mat(g.generator, n), gen) < 1e-9, f"{what}: another generator")
    return t.name


def nn(pairs, n):
    N_ = np.diag([0, 1]).astype(complex)
    out = np.zeros((2 ** n, 2 ** n), complex)
    for i, j in pairs:
        out += D.place(np.kron(N_, N_), (i, j), n)
    return out


def sdaqc(ctx, rng, n):
    for given in (False, True):
        sup = tuple(rng.sample(range(n + 1), n)) if given else tuple(range(n))
        w = n + 1
        depth = rng.randint(1, 3)
        own = rng.random() < .4
        ham = kron(Z(sup[0]), Z(sup[-1])) if own and n > 1 else None
        if own and n == 1:
            ham = add(Z(sup[0]), X(sup[0]))
        b = hea(n, depth=depth, strategy="sDAQC", operations=[RZ, RY], **(dict(support=sup) if given else {}), **(dict(entangler=ham) if ham is not None else {}))
        if n == 1 and ham is None:
            raise Skip
        gs = gates(b)
        H = D.mat(ham, w) if ham is not None else nn(list(itertools.combinations(sup, 2)), w)
        per = 2 * n + 1
        what = f"sDAQC hea({n}, depth={depth}, support={sup})"
        ctx.ok(len(gs) == per * depth, f"{what}: {len(gs)} gates")
        names = []
        for d in range(depth):
            lay = gs[d * per:(d + 1) * per]
            names.append(evo(ctx, lay[-1], H, w, None, what))
            got = line([(x[0], x[1], FREE) for x in sum((seen(g) for g in lay[:-1]), [])])
            ctx.ok(got == line(rotate(["RZ", "RY"], sup)), f"{what}: rotations {got}")
            names += [expr(g).name for g in lay[:-1]]
        ctx.ok(len(set(names)) == len(names), f"{what}: shared parameters")


def ala_case(ctx, rng, n, m):
    for given in (False, True):
        sup = support(rng, n) if given else tuple(range(n))
        depth = rng.randint(1, 3)
        ops = [rng.choice(["RX", "RY", "RZ"]) for _ in range(rng.randint(1, 3))]
        ent = rng.choice(list(ENT))
        b = ala(n, m, depth=depth, param_prefix="v", operations=[ROT[o] for o in ops], entangler=ENT[ent], **(dict(support=sup) if given else {}))
        match(ctx, b, ala_gates(sup, m, depth, ops, ent), "v", f"ala({n}, {m}, depth={depth}, operations={ops}, entangler={ent}, support={sup})")


def iia_case(ctx, rng, n, depth, strat, ent, periodic, ops, block=None):
    if block is None:
        kw = {}
        if ent is not None:
            kw["entangler"] = ENT[ent] if isinstance(ent, str) else ent
        block = identity_initialized_ansatz(n, depth=depth, strategy=strat, rotations=[ROT[o] for o in ops], periodic=periodic, **kw)
    what = f"iia({n}, depth={depth}, {strat}, rotations={ops}, entangler={ent}, periodic={periodic})"
    gs = gates(block)
    sym = {}
    for g in gs:
        for e in (exprs(g) if hasattr(g, "parameters") else []):
            for s in e.free_symbols:
                sym.setdefault(s.name, []).append(s)
    for nm, ss in sym.items():
        ctx.ok(len({float(s.value) for s in ss}) == 1, f"{what}: {nm} stands for several values")
    ctx.ok(all(s.trainable for ss in sym.values() for s in ss), f"{what}: parameters which are not trained")
    if n <= 4:
        U = D.mat(block, n, {k: float(v[0].value) for k, v in sym.items()})
        ctx.ok(D.dist(U, np.eye(2 ** n)) < 1e-5, f"{what}: starts {D.dist(U, np.eye(2 ** n)):.3f} away from the identity")
        st = torch.tensor(np.random.RandomState(3).normal(size=(1, 2 ** n)) + 0j)
        st = st / st.norm()
        r = qrun(n, block, state=st)
        ctx.ok(float((r - st).abs().max()) < 1e-5, f"{what}: changes the state it is applied to")
    rots = [g for g in gs if type(g).__name__ in ROT and type(g) in (RX, RY, RZ, PHASE)]
    nms = [expr(g) for g in rots]
    ctx.ok(len({str(x) for x in nms}) == len(rots), f"{what}: {len(rots) - len({str(x) for x in nms})} rotations share a parameter with another one")
    per = []
    sup = tuple(range(n))
    if strat == "Digital":
        e = ent or "CNOT"
        prs = [(i, i + 1) for i in range(n - 1)] + ([(n - 1, 0)] if periodic else [])
        lay = rotate(ops, sup) + [(e, p, None) for p in prs] + rotate(["RX"], sup) + [(e, p, None) for p in reversed(prs)] + rotate(ops[::-1], sup)
        a, w = line([(x[0], x[1], None) for x in seen(block)]), line([(x[0], x[1], None) for x in lay * depth])
        ctx.ok(a == w, f"{what}: gates {str({q: [(x[0], x[1]) for x in a.get(q, [])] for q in w if a.get(q) != w[q]})[:500]}")
    else:
        H = D.mat(ent, n) if ent is not None else nn(list(itertools.combinations(sup, 2)), n)
        evs = [g for g in gs if type(g).__name__ == "HamEvo"]
        ctx.ok(len(evs) == 2 * depth, f"{what}: {len(evs)} evolutions")
        for g in evs:
            evo(ctx, g, H, n, None, what)


def ryd(ctx, rng, n):
    reg = rng.choice([Register.line(n), Register.circle(n) if n > 2 else Register.line(n), Register.all_to_all(n)])
    flags = [rng.random() < .5 for _ in range(3)]
    L = rng.randint(1, 3)
    px = rng.choice([None, "z"])
    b = rydberg_hea(reg, n_layers=L, addressable_detuning=flags[0], addressable_drive=flags[1], tunable_phase=flags[2], additional_prefix=px)
    names = sorted({s.name for g in gates(b) for s in _syms(g)})
    vs = {k: round(rng.uniform(-1.5, 1.5), 3) for k in names}
    p = "" if px is None else "_" + px
    want = np.eye(2 ** n, dtype=complex)
    PX, PY, PN = (np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.diag([0, 1]).astype(complex))
    inter = nn(list(reg.edges), n)
    at = lambda P, q: D.place(P, (q,), n)
    try:
        det = sum((vs[f"detmap_{q}"] if flags[0] else 1.) * at(PN, q) for q in range(n))
        wx = [vs[f"drivemap_{q}"] if flags[1] else 1. for q in range(n)]
        ph = vs["phase"] if flags[2] else 0.
        dr = sum(w * (math.cos(ph) * at(PX, q) - math.sin(ph) * at(PY, q)) for q, w in enumerate(wx))
        for l in range(L):
            for H, t in ((dr + inter, vs[f"At{p}_{l}"]), (inter, vs[f"wait{p}_{l}"]), (det, vs[f"Omega{p}_{l}"])):
                want = scipy.linalg.expm(-1j * H * t) @ want
    except KeyError as e:
        ctx.ok(False, f"rydberg_hea{tuple(flags)} has no parameter {e}; it has {names}")
        return
    ctx.ok(D.dist(D.mat(b, n, vs), want) < 1e-7, f"rydberg_hea on {n} qubits, layers={L}, detuning/drive/phase={flags}: not the documented evolution")
    own = 3 * L + (n if flags[0] else 0) + (n if flags[1] else 0) + flags[2]
    ctx.ok(len(names) == own, f"rydberg_hea: {len(names)} parameters, {own} expected: {names}")
    # a single layer with given numbers
    f = [round(rng.uniform(.1, 1), 3) for _ in range(4)]
    ds, rs = [round(rng.uniform(.1, 1), 3) for _ in range(n)], [round(rng.uniform(.1, 1), 3) for _ in range(n)]
    sc = round(rng.uniform(.5, 3), 2)
    b = rydberg_hea_layer(reg, f[0], f[1], f[2], phase=f[3], detunings=ds, drives=rs, drive_scaling=sc)
    want = np.eye(2 ** n, dtype=complex)
    dr = sum(sc * w * (math.cos(f[3]) * at(PX, q) - math.sin(f[3]) * at(PY, q)) for q, w in enumerate(rs))
    for H, t in ((dr + inter, f[0]), (inter, f[2]), (sum(w * at(PN, q) for q, w in enumerate(ds)), f[1])):
        want = scipy.linalg.expm(-1j * H * t) @ want
    ctx.ok(D.dist(D.mat(b, n, {}), want) < 1e-7, f"rydberg_hea_layer({f}, detunings={ds}, drives={rs}, scaling={sc}): not the documented evolution")


def _syms(g):
    from qadence.blocks.utils import parameters
    return [s for e in parameters(g) for s in e.free_symbols]


# ---------------------------------------------------------------- feature maps
def lin(x, fr, tr):
    return min(tr) + (x - min(fr)) / (max(fr) - min(fr)) * (max(tr) - min(tr))


DEF = {"Fourier": (0., 2 * PI), "Chebyshev": (-1., 1.)}
TRANS = {"Fourier": lambda v: v, "Chebyshev": math.acos, "custom": lambda v: math.sin(v) + 1}
SCALE = {"Constant": lambda i: 1., "Tower": lambda i: i + 1., "Exponential": lambda i: 2. ** i, "custom": lambda i: 3. * i + 1}


def kinds(rng):
    fm, rs = rng.choice(["Fourier", "Chebyshev", "custom"]), rng.choice(["Constant", "Tower", "Exponential", "custom"])
    fa = (lambda v: sympy.sin(v) + 1) if fm == "custom" else rng.choice([fm, BasisSet.FOURIER if fm == "Fourier" else BasisSet.CHEBYSHEV])
    ra = (lambda i: 3 * i + 1) if rs == "custom" else rng.choice([rs, {"Constant": ReuploadScaling.CONSTANT, "Tower": ReuploadScaling.TOWER, "Exponential": ReuploadScaling.EXP}[rs]])
    return fm, rs, fa, ra


def ranges(rng, fm):
    fr = rng.choice([None, (-2., 5.), (1., 0.), (0.25, 0.75), (3., 4.)])
    if rng.random() < .2:  # nearly as wide as the other one
        d = DEF.get(fm, (0., 1.))
        e = rng.choice([1e-2, 1e-3, 1e-4, 1e-5])
        return ((d[0] + .1, d[1] + .1 + e), None, (d[0] + .1, d[1] + .1 + e), d)
    tr = rng.choice([None, (-1., 1.), (-.5, .25), (1., -1.)]) if fm == "Chebyshev" else rng.choice([None, (-2., 1.), (0., 3.), (4., 1.), (0., 1.)])
    d = DEF.get(fm, (0., 1.))
    return fr, tr, fr or d, tr or d


def points(fr):
    lo, hi = min(fr), max(fr)
    return [lo + .13 * (hi - lo), .5 * (lo + hi), lo + .91 * (hi - lo)]


def angle(e, vs):
    return float(sympy.N(e.xreplace({s: sympy.Float(vs[s.name]) for s in e.free_symbols}), 30)) if hasattr(e, "subs") else float(e)


def fm_case(ctx, rng, n):
    sup = support(rng, n) if rng.random() < .6 else None
    fm, rs, fa, ra = kinds(rng)
    fr, tr, f_, t_ = ranges(rng, fm)
    op = rng.choice(list(ROT))
    mult = rng.choice([None, 2.5, "k"])
    wp = rng.choice([None, "w"])
    par = rng.choice(["phi", "x", Parameter("q", trainable=True, value=.3)])
    nm = par if isinstance(par, str) else "q"
    kw = {k: v for k, v in dict(support=sup, feature_range=fr, target_range=tr, param_prefix=wp).items() if v is not None}
    if mult is not None:
        kw["multiplier"] = mult if mult != "k" else 2 * VariationalParameter("k")
    b = feature_map(n, param=par, op=ROT[op], fm_type=fa, reupload_scaling=ra, **kw)
    what = f"feature_map({n}, op={op}, fm_type={fm}, reupload_scaling={rs}, feature_range={fr}, target_range={tr}, multiplier={mult}, support={sup}, prefix={wp})"
    check_fm(ctx, b, what, op, sup or tuple(range(n)), nm, fm, rs, f_, t_, lambda v: 1. if mult is None else 2.5 if mult == 2.5 else 2 * v["k"], wp, ("k",) if mult == "k" else ())


def check_fm(ctx, b, what, op, sup, nm, fm, rs, fr, tr, mult=lambda v: 1., wp=None, other=()):
    gs = gates(b)
    ctx.ok(sorted(tuple(g.qubit_support) for g in gs) == sorted((q,) for q in sup) and {type(g).__name__ for g in gs} <= {op}, f"{what}: gates {[(type(g).__name__, tuple(g.qubit_support)) for g in gs]}")
    ws = [f"{wp}_{i}" if wp else None for i in range(len(sup))]
    by = {tuple(g.qubit_support)[0]: expr(g) for g in gs}
    syms = {s for e in by.values() for s in getattr(e, "free_symbols", ())}
    ctx.ok({s.name for s in syms} == {nm} | set(other) | {w for w in ws if w}, f"{what}: parameters {sorted(s.name for s in syms)}")
    for s in syms:
        ctx.ok(s.trainable == (s.name != nm), f"{what}: {s.name} {'is' if s.trainable else 'is not'} trainable")
    for x in points(fr):
        vs = {nm: x, "k": .7, **{w: .9 - .1 * i for i, w in enumerate(ws) if w}}
        for i, q in enumerate(sup):
            v = lin(x, fr, tr)
            want = mult(vs) * SCALE[rs](i) * TRANS[fm](v * (vs[ws[i]] if wp else 1.))
            got = angle(by[q], vs)
            ctx.ok(abs(got - want) < 1e-8 * (1 + abs(want)), f"{what}: qubit {q} turns by {got} instead of {want} for the value {x}")


def exp_case(ctx, rng, n):
    sup = support(rng, n) if rng.random() < .5 else None
    fr = rng.choice([None, (-1., 3.)])
    b = exp_fourier_feature_map(n, param="y", **{k: v for k, v in dict(support=sup, feature_range=fr).items() if v is not None})
    s, f = sup or tuple(range(n)), fr or (0., 2. ** n)
    gs = gates(b)
    ctx.ok(line([(type(g).__name__, tuple(g.qubit_support), ()) for g in gs]) == line([("H", (q,), ()) for q in s] + [("RZ", (q,), ()) for q in s]), f"exp_fourier_feature_map({n}, {sup}): {[(type(g).__name__, tuple(g.qubit_support)) for g in gs]}")
    check_fm(ctx, kron(*[g for g in gs if type(g).__name__ == "RZ"]), f"exp_fourier_feature_map({n}, support={sup}, feature_range={fr})", "RZ", s, "y", "Fourier", "Exponential", f, (0., 2 * PI))


AX = {"AnalogRX": (1, 0, 0), "AnalogRY": (0, 1, 0), "AnalogRZ": (0, 0, 1)}


def analog_angles(g, vs):
    p = g.parameters
    om, ph, de, t = (angle(getattr(p, k), vs) for k in ("omega", "phase", "delta", "duration"))
    return np.array([om * math.cos(ph), -om * math.sin(ph), de]) * t / 1000


def analog_case(ctx, rng):
    fm = rng.choice(["Fourier", "Chebyshev", "custom"])
    fa = (lambda v: sympy.sin(v) + 1) if fm == "custom" else fm
    fr, tr, f_, t_ = ranges(rng, fm)
    op = rng.choice(list(AX))
    mult = rng.choice([None, 1.5])
    b = analog_feature_map(param="x", op=dict(AnalogRX=AnalogRX, AnalogRY=AnalogRY, AnalogRZ=AnalogRZ)[op], fm_type=fa, feature_range=fr, target_range=tr, multiplier=mult)
    what = f"analog_feature_map(op={op}, fm_type={fm}, feature_range={fr}, target_range={tr}, multiplier={mult})"
    ctx.ok(isinstance(b, ConstantAnalogRotation) and tuple(b.qubit_support) == ("global",), f"{what}: {b}")
    for x in points(f_):
        want = (mult or 1.) * TRANS[fm](lin(x, f_, t_)) * np.array(AX[op])
        got = analog_angles(b, {"x": x})
        ctx.ok(np.abs(got - want).max() < 1e-8 * (1 + abs(want).max()), f"{what}: turns by {got} instead of {want} at {x}")


def rydfm(ctx, rng, n):
    tower = rng.random() < .4
    own = None if tower or rng.random() < .5 else [round(rng.uniform(.2, 2), 3) for _ in range(n)]
    mx = rng.choice([2 * PI * 10, 30.])
    b = rydberg_tower_feature_map(n, param="x", max_abs_detuning=mx) if tower else rydberg_feature_map(n, param="x", max_abs_detuning=mx, weights=own)
    gs = gates(b)
    what = f"rydberg feature map({n}, {'tower' if tower else own}, {mx})"
    ctx.ok(sorted(tuple(g.qubit_support) for g in gs) == [(i,) for i in range(n)], f"{what}: {gs}")
    vs = {"x": .83, **{f"w_x_{i}": .4 + .3 * i for i in range(n)}}
    w = [i + 1. for i in range(n)] if tower else own or [vs[f"w_x_{i}"] for i in range(n)]
    for g in gs:
        i = g.qubit_support[0]
        syms = [s for k in ("duration", "delta") for s in getattr(getattr(g.parameters, k), "free_symbols", ())]
        ctx.ok(all(s.trainable == (s.name != "x") for s in syms), f"{what}: trainable parameters {[s for s in syms if s.trainable]}")
        got = analog_angles(g, vs)
        ctx.ok(np.abs(got - np.array([0, 0, -w[i] * vs["x"]])).max() < 1e-8, f"{what}: qubit {i} turns by {got} instead of {-w[i] * vs['x']} about z")
        de = abs(angle(g.parameters.delta, vs))
        ctx.ok(abs(de - mx * w[i] / sum(w)) < 1e-8 * mx, f"{what}: detuning {de} on qubit {i} instead of its share of {mx}")


def names_fm(ctx, rng):
    for bad in (dict(fm_type="nonsense"), dict(reupload_scaling="nonsense"), dict(op=CNOT), dict(support=(0,))):
        try:
            feature_map(3, **bad)
        except (ValueError, NotImplementedError):
            continue
        ctx.ok(False, f"feature_map accepts {bad}")
    for f, bad in ((lambda **k: hea(3, **k), dict(entangler=X)), (lambda **k: ala(3, 2, **k), dict(entangler=SWAP)), (lambda **k: identity_initialized_ansatz(3, **k), dict(entangler=SWAP))):
        try:
            f(**bad)
        except ValueError:
            continue
        ctx.ok(False, f"an ansatz accepts {bad}")


# ---------------------------------------------------------------- configurations
def config_fm(ctx, rng, feats, strat):
    names = ["x", "y", "t"][:feats]
    n = rng.randint(feats, 5)
    fms = {f: rng.choice(["Fourier", "Chebyshev"]) for f in names}
    rss = {f: rng.choice(["Constant", "Tower", "Exponential"]) for f in names}
    reps = {f: rng.randint(0, 2) for f in names}
    frs = {f: rng.choice([None, (-1., 2.)]) for f in names}
    trs = {f: rng.choice([None, (-1., 0.5)]) for f in names}
    wp = rng.choice([None, "p"])
    op = rng.choice(["RX", "RY", "RZ"])
    cfg = FeatureMapConfig(num_features=feats, inputs=list(names), basis_set=dict(fms), reupload_scaling=dict(rss), num_repeats=dict(reps), feature_range=dict(frs), target_range=dict(trs),
                           operation=ROT[op], multivariate_strategy=strat, param_prefix=wp)
    snap_ = str(cfg)
    bs = create_fm_blocks(n, cfg)
    ctx.ok(str(cfg) == snap_, "creating the feature map changes its configuration")
    size, extra = divmod(n, feats)
    parts, at = {}, 0
    for i, f in enumerate(names):
        k = size + (i < extra)
        parts[f] = tuple(range(at, at + k)) if strat == MultivariateStrategy.PARALLEL else tuple(range(n))
        at += k
    what = f"feature map of {names} on {n} qubits, {strat}, repeats {reps}"
    if strat == MultivariateStrategy.PARALLEL:
        want = [[f for f in names if reps[f] >= i] for i in range(max(reps.values()) + 1)]
    else:
        want = [[f] for i in range(max(reps.values()) + 1) for f in names if reps[f] >= i]
    ctx.ok(len(bs) == len(want), f"{what}: {len(bs)} layers instead of {len(want)}")
    for b, fs in zip(bs, want):
        gs = gates(b)
        for f in fs:
            mine = [g for g in gs if any(s.name == f for s in expr(g).free_symbols)]
            d = DEF[fms[f]]
            check_fm(ctx, kron(*mine), f"{what}, feature {f}", op, parts[f], f, fms[f], rss[f], frs[f] or d, trs[f] or d, wp=f"{wp}_{f}" if wp else None)
        ctx.ok(len(gs) == sum(len(parts[f]) for f in fs), f"{what}: {len(gs)} gates in a layer")


def config_ansatz(ctx, rng, kind):
    n, depth = rng.randint(2, 5), rng.randint(1, 3)
    ops = [rng.choice(["RX", "RY", "RZ"]) for _ in range(rng.randint(1, 3))]
    ent = rng.choice(list(ENT))
    per = rng.random() < .5
    args = {} if rng.random() < .2 else dict(operations=[ROT[o] for o in ops], entangler=ENT[ent])
    sup = tuple(range(n))
    if kind == "hea":
        if args:
            args["periodic"] = per
        cfg = AnsatzConfig(depth=depth, strategy_args=args, param_prefix="v")
        match(ctx, create_ansatz(n, cfg), hea_gates(sup, depth, ops if args else ["RX", "RY", "RX"], ent if args else "CNOT", per and bool(args)), "v", f"create_ansatz({n}, {cfg})")
    elif kind == "ala":
        m = rng.randint(2, n)
        cfg = AnsatzConfig(depth=depth, ansatz_type=AnsatzType.ALA, m_block_qubits=m, strategy_args=args, param_prefix="v")
        b = create_ansatz(n, cfg)
        o = ops if args else (["RX", "RY", "RX"] if sum(1 for g in gates(b) if tuple(g.qubit_support) == (0,)) == 3 * depth else ["RX", "RY"])
        match(ctx, b, ala_gates(sup, m, depth, o, ent if args else "CNOT"), "v", f"create_ansatz({n}, {cfg})")
    elif kind == "iia":
        n = min(n, 4)
        if args:
            args["periodic"] = per
        cfg = AnsatzConfig(depth=depth, ansatz_type=AnsatzType.IIA, strategy_args=args, param_prefix="v")
        iia_case(ctx, rng, n, depth, "Digital", ent if args else None, per and bool(args), ops if args else ["RX", "RY"], create_ansatz(n, cfg))
    elif kind == "iia-sdaqc":
        n = min(n, 4)
        args = {} if rng.random() < .5 else dict(operations=[ROT[o] for o in ops], entangler=kron(Z(0), Z(1)) + X(0))
        cfg = AnsatzConfig(depth=depth, ansatz_type=AnsatzType.IIA, ansatz_strategy=Strategy.SDAQC, strategy_args=args)
        iia_case(ctx, rng, n, depth, "sDAQC", args.get("entangler"), False, ops if args else ["RX", "RY"], create_ansatz(n, cfg))
    elif kind == "rydberg":
        n = min(n, 3)
        cfg = AnsatzConfig(depth=depth, ansatz_strategy=Strategy.RYDBERG, strategy_args=dict(addressable_detuning=per, addressable_drive=not per, tunable_phase=per), param_prefix="v")
        reg = Register.line(n)
        a, b = create_ansatz(reg, cfg), rydberg_hea(reg, n_layers=depth, addressable_detuning=per, addressable_drive=not per, tunable_phase=per, additional_prefix="v")
        names = sorted({s.name for x in (a, b) for s in _syms(x)})
        vs = {k: .3 + .17 * i for i, k in enumerate(names)}
        ctx.ok(D.dist(D.mat(a, n, vs), D.mat(b, n, vs)) < 1e-9, f"create_ansatz({n}, {cfg}): another evolution")


def config_qnn(ctx, rng, kind):
    """feature map layers with an ansatz layer between each two, then the ansatz"""
    feats = rng.randint(1, 2)
    names = ["x", "y"][:feats]
    n, depth, m = rng.randint(feats + 1, 4), rng.randint(1, 2), 2
    reps = rng.randint(0, 2)
    fc = FeatureMapConfig(num_features=feats, inputs=list(names), basis_set="Fourier", num_repeats=reps, multivariate_strategy=MultivariateStrategy.PARALLEL)
    ac = AnsatzConfig(depth=depth, ansatz_type=AnsatzType.ALA, m_block_qubits=m, strategy_args=dict(operations=[RX, RY], entangler=CRZ)) if kind == "ala" else AnsatzConfig(depth=depth, strategy_args=dict(operations=[RX, RY], entangler=CRZ))
    qnn = build_qnn_from_configs(n, ObservableConfig(detuning=Z), fc, ac)
    one = lambda d: ala_gates(tuple(range(n)), m, d, ["RX", "RY"], "CRZ") if kind == "ala" else hea_gates(tuple(range(n)), d, ["RX", "RY"], "CRZ", False)
    fmg = [("RX", (q,), None) for q in range(n)]
    want = []
    for i in range(reps + 1):
        want += fmg + ([(a, b, None) for a, b, _ in one(1)] if i < reps else [])
    want += [(a, b, None) for a, b, _ in one(depth)]
    got = seen(qnn._circuit.original.block)
    what = f"QNN of {kind}, {feats} features, {reps} repeats, depth {depth}, {n} qubits"
    a, w = line([(x[0], x[1], None) for x in got]), line(want)
    ctx.ok(a == w, f"{what}: {str({q: [(x[0], x[1]) for x in a.get(q, [])] for q in w if a.get(q) != w[q]})[:400]}")
    tr = [p[0].name for _, _, p in got if len(p) == 1 and isinstance(p[0], sympy.Symbol) and p[0].trainable]
    ctx.ok(len(tr) == len(set(tr)) and len(tr) == sum(1 for *_, f in one(1) if f == FREE) * reps + sum(1 for *_, f in one(depth) if f == FREE), f"{what}: {len(tr)} trainable gates, {len(set(tr))} parameters")
    ctx.ok([str(i) for i in qnn.inputs] == names, f"{what}: inputs {qnn.inputs}")


def run(ctx):
    for n in range(1, 7):
        for i in range(ctx.n(8, 60)):
            ctx.case(f"hea/{n}/{i}", hea_case, ctx, ctx.rng(f"h{n}{i}"), n, i % 2 == 1)
        for m in range(1, n + 2):
            for i in range(ctx.n(2, 12)):
                ctx.case(f"ala/{n}/{m}/{i}", ala_case, ctx, ctx.rng(f"a{n}{m}{i}"), n, m)
        for i in range(ctx.n(12, 120)):
            ctx.case(f"feature map/{n}/{i}", fm_case, ctx, ctx.rng(f"f{n}{i}"), n)
        for i in range(ctx.n(2, 10)):
            ctx.case(f"exponential/{n}/{i}", exp_case, ctx, ctx.rng(f"e{n}{i}"), n)
    for n in (1, 2, 3, 4):
        for i in range(ctx.n(4, 24)):
            ctx.case(f"sdaqc/{n}/{i}", sdaqc, ctx, ctx.rng(f"s{n}{i}"), n)
        for i in range(ctx.n(4, 24)):
            r = ctx.rng(f"i{n}{i}")
            ctx.case(f"iia/{n}/{i}", iia_case, ctx, r, n, r.randint(1, 3), "Digital", r.choice(list(ENT) + [None]), n > 1 and r.random() < .5, [r.choice(["RX", "RY", "RZ"]) for _ in range(r.randint(1, 3))])
    for n in (2, 3):
        for i in range(ctx.n(3, 12)):
            r = ctx.rng(f"j{n}{i}")
            ctx.case(f"iia sdaqc/{n}/{i}", iia_case, ctx, r, n, r.randint(1, 3), "sDAQC", r.choice([None, kron(Z(0), Z(1))]), False, [r.choice(["RX", "RY", "RZ"]) for _ in range(r.randint(1, 3))])
    ctx.case("iia/many qubits", iia_case, ctx, ctx.rng("iq"), 21, 2, "Digital", "CRX", True, ["RX", "RY", "RZ", "RX"])
    ctx.case("iia/many layers", iia_case, ctx, ctx.rng("im"), 6, 12, "Digital", "CRX", True, ["RX", "RY"])
    for n in (1, 2, 3):
        for i in range(ctx.n(6, 30)):
            if n > 1:
                ctx.case(f"rydberg hea/{n}/{i}", ryd, ctx, ctx.rng(f"r{n}{i}"), n)
            ctx.case(f"rydberg feature map/{n}/{i}", rydfm, ctx, ctx.rng(f"rf{n}{i}"), n)
    for i in range(ctx.n(20, 100)):
        ctx.case(f"analog/{i}", analog_case, ctx, ctx.rng(f"an{i}"))
    ctx.case("wrong arguments", names_fm, ctx, ctx.rng("n"))
    for feats in (1, 2, 3):
        for st in (MultivariateStrategy.PARALLEL, MultivariateStrategy.SERIES):
            for i in range(ctx.n(5, 30)):
                ctx.case(f"configuration/features/{feats}/{st.value}/{i}", config_fm, ctx, ctx.rng(f"cf{feats}{st}{i}"), feats, st)
    for kind in ("hea", "ala", "iia", "iia-sdaqc", "rydberg"):
        for i in range(ctx.n(6, 30)):
            ctx.case(f"configuration/{kind}/{i}", config_ansatz, ctx, ctx.rng(f"ca{kind}{i}"), kind)
    for kind in ("hea", "ala"):
        for i in range(ctx.n(5, 20)):
            ctx.case(f"configuration/qnn/{kind}/{i}", config_qnn, ctx, ctx.rng(f"cq{kind}{i}"), kind)
