"""C06 at run time: serialize -> JSON text -> deserialize on the real code, compared structurally (not only with ==)."""
from bounded.gen import *
from bounded.run import Skip
import builtins, json, math, os, tempfile
import networkx as nx
import sympy
import torch
from qadence import FeatureParameter, VariationalParameter, QuantumCircuit, Register, NoiseHandler, TDagger, TimeParameter
from qadence.analog import RydbergDevice, AddressingPattern
from qadence.qubit_support import QubitSupport
from qadence.serialization import serialize, deserialize, save, load
from qadence.types import NoiseProtocol, Interaction, DeviceType

BOUND = ("every digital gate class on permuted/shifted qubits with and without noise, 45 parameter expressions, random trees of depth <= 4 on <= 4 "
         "qubits with tags, registers of all constructors with several spacings, noise handlers of every protocol, circuits; 30 malformed strings; quantum models and neural networks with every optional setting, in memory and through files")
PROBE = {"a": 0.37, "b": -1.21, "c": 0.83, "d": 2.09, "x": 0.55, "y": -0.41, "t": 0.9}


def esig(e):
    """meaning of an expression: its parameters with attributes and its value at a probe point"""
    if isinstance(e, sympy.Array):
        return ("array", str(e))
    syms = tuple(sorted((s.name, float(s.value), bool(s.trainable), bool(s.is_time)) for s in e.free_symbols))
    v = complex(sympy.N(e.xreplace({s: sympy.Float(PROBE.get(s.name, 0.61)) for s in e.free_symbols})))
    return (syms, round(v.real, 9), round(v.imag, 9))


def nsig(n):
    return None if n is None else tuple((type(p).__name__, str(p), tuple(sorted((k, str(v)) for k, v in o.items()))) for p, o in zip(n.protocol, n.options))


def sig(b):
    n = type(b).__name__
    r = [n, nsig(getattr(b, "noise", None))]
    if n in ("ChainBlock", "KronBlock", "AddBlock"):
        return (*r, b.tag, tuple(sig(x) for x in b.blocks))
    if n == "ScaleBlock":
        return (*r, esig(b.parameters.parameter), sig(b.block))
    r.append(tuple(b.qubit_support))
    for at in ("ket", "bra"):
        if hasattr(b, at):
            r.append(getattr(b, at))
    if hasattr(b, "control"):
        r.append(tuple(b.control))
    if hasattr(b, "parameters") and n != "HamEvo":
        r.append(tuple((k, esig(e)) for k, (u, e) in b.parameters._name_dict.items()))
    if hasattr(b, "blocks"):
        r.append(tuple(sig(x) for x in b.blocks))
    if n == "HamEvo":
        g = b.generator
        r.append(sig(g) if isinstance(g, AbstractBlock) else esig(g) if isinstance(g, sympy.Basic) else str(g.to(torch.cdouble).reshape(-1).tolist()))
        r.append(esig(b.parameters.parameter))
        r.append(None if b.duration is None else esig(b.parameters.duration))
        r.append(tuple(sig(x) for x in b.noise_operators))
    if n == "MatrixBlock":
        r.append(str(b.matrix.to(torch.cdouble).reshape(-1).tolist()))
    return tuple(r)


def text(d):
    return json.loads(json.dumps(d))


def block(ctx, b, direct=True):
    before, s0 = snap(b), sig(b)
    d = serialize(b)
    ctx.ok(bool(d), f"serialization of {describe(b)} is empty")
    ctx.ok(snap(b) == before, "serialization modified the block")
    try:
        t = text(d)
    except TypeError as e:
        ctx.ok(False, f"serialized data of {describe(b)} are not JSON: {e}")
    for data in ((d, t) if direct else (t,)):
        c0 = json.dumps(data)
        r = deserialize(data)
        ctx.ok(json.dumps(data) == c0, "deserialization modified the data")
        ctx.ok(type(r) is type(b), f"{type(b).__name__} came back as {type(r).__name__}")
        ctx.ok(r == b and b == r, f"{describe(b)} came back unequal: {describe(r)}")
        s1 = sig(r)
        ctx.ok(s1 == s0, f"{describe(b)} came back as {describe(r)}: {s0} / {s1}"[:900])
        ctx.ok(r.tag == b.tag, f"tag {b.tag} came back as {r.tag}")
        ctx.ok(r is not b, "a new object")
    ctx.ok(snap(b) == before and sig(b) == s0, "deserialization modified the original block")


def expr(ctx, e):
    s0 = esig(e)
    d = serialize(e)
    ctx.ok(esig(e) == s0, "serialization modified the expression")
    r = deserialize(text(d))
    ctx.ok(esig(r) == s0, f"{e} came back as {r}: {s0} / {esig(r)}")
    ctx.ok(esig(e) == s0, "deserialization modified the original")
    ctx.ok(bool(r == e), f"{e} came back unequal")


def param(ctx, p):
    s0 = esig(p)
    r = Parameter._from_dict(text(p._to_dict()))
    ctx.ok(isinstance(r, Parameter) and esig(r) == s0, f"{p}: {s0} / {esig(r)}")
    ctx.ok(r == p, "equal")


def rsig(r):
    dev = r.device_specs
    return (tuple((n, tuple(float(x) for x in r.coords[n])) for n in r.graph.nodes), tuple(sorted(tuple(sorted(e)) for e in r.graph.edges)), r.n_qubits,
            None if dev is None else dsig(dev))


def dsig(d):
    p = d.pattern
    return (str(d.interaction), d.rydberg_level, d.coeff_xy, d.max_detuning, d.max_amp, str(d.type), d.coeff_ising,
            None if p is None else (p.n_qubits, {k: esig(sympy.sympify(v)) for k, v in p.weights_amp.items()}, {k: esig(sympy.sympify(v)) for k, v in p.weights_det.items()}, esig(sympy.sympify(p.amp)), esig(sympy.sympify(p.det))))


def register(ctx, r):
    s0 = rsig(r)
    d = serialize(r)
    t = text(d)
    ctx.ok(rsig(r) == s0, "serialization modified the register")
    for data in (t, d):
        c0 = json.dumps(data)
        q = deserialize(data)
        ctx.ok(isinstance(q, Register), "a register")
        ctx.ok(rsig(q) == s0, f"register came back changed: {s0} / {rsig(q)}"[:900])
        ctx.ok(q == r, "equal")
        ctx.ok(json.dumps(data) == c0, "deserialization modified the data")
    ctx.ok(rsig(r) == s0, "the original register changed")


def device(ctx, d):
    dd = d._to_dict()
    for data in (text(dd), dd):
        k0 = json.dumps(data)
        r = RydbergDevice._from_dict(data)
        ctx.ok(json.dumps(data) == k0, "deserialization modified the data")
        ctx.ok(dsig(r) == dsig(d) and r == d, f"{d} came back as {r}")


def noise(ctx, n):
    s0 = nsig(n)
    d = n._to_dict()
    for data in (text(d), d):
        r = NoiseHandler._from_dict(data)
        ctx.ok(r == n and nsig(r) == s0, f"{n} came back as {r}")
        for kind in (NoiseProtocol.ANALOG, NoiseProtocol.DIGITAL, NoiseProtocol.READOUT):
            ctx.ok(nsig(r.filter(kind)) == nsig(n.filter(kind)), f"{kind} part of {n}")
    ctx.ok(nsig(n) == s0, "modified")
    ctx.ok(NoiseHandler._from_dict(None) is None, "no noise")


def circuit(ctx, c):
    s0, r0 = sig(c.block), rsig(c.register)
    d = serialize(c)
    for data in (text(d), d):
        r = deserialize(data)
        ctx.ok(isinstance(r, QuantumCircuit), "a circuit")
        ctx.ok(sig(r.block) == s0, f"block of the circuit {describe(c.block)} came back as {describe(r.block)}")
        ctx.ok(rsig(r.register) == r0, f"register of the circuit came back changed: {r0} / {rsig(r.register)}"[:800])
        ctx.ok(r == c and r.n_qubits == c.n_qubits, "equal")
    ctx.ok(sig(c.block) == s0 and rsig(c.register) == r0, "the original circuit changed")
    ctx.ok(QuantumCircuit._from_dict(json.loads(c._to_json())) == c, "json text")


def files(ctx, obj, s):
    with tempfile.TemporaryDirectory(prefix="vp_c06_") as tmp:
        save(obj, tmp, "obj")
        ctx.ok(s(load(os.path.join(tmp, "obj.json"))) == s(obj), "file round trip")
        save(obj, tmp, "obj", "PT")
        ctx.ok(s(load(os.path.join(tmp, "obj.pt"))) == s(obj), "file round trip (pt)")


BAD = ["2*3", "__import__('os').system('true')", "Parameter('x').value", "Mul(2,3); Mul(1,2)", "lambda: 1", "Mul(2*3, 4)", "Parameter('a', value=vp_probe())",
       "Mul(Integer(2), Parameter('a')", "Integer(2))", "Integer(2) Integer(3)", "Integer(2)+Integer(3)", "[1,2]", "(1,2)", "{'a':1}", "'abc'", "a", "True",
       "Float('1.0; 2', precision=53)", "Float(1.0, precision=53)", "Integer(2).as_coeff_Mul()", "Mul(*Integer(2))", "Mul(Integer(2))[0]", "Integer(2)\nInteger(3)",
       "Integer(0x10)", "Parameter(\"x\")", "Integer(2)  # x", "Integer(2) if True else 3", "Parameter('a b')(1)", "_Integer(2)", "Integer()()", "vp_probe('a')",
       "Mul(vp_probe('a'), Integer(2))", "vp_probe(Integer(2))"]


def reject(ctx, s):
    hit = []
    builtins.vp_probe = lambda *a, **k: hit.append(a) or 1
    try:
        try:
            v = deserialize({"name": "x", "expression": s})
        except Exception as e:
            v = e
        ctx.ok(not hit, f"{s!r} was evaluated")
        ctx.ok(isinstance(v, Exception), f"malformed {s!r} was accepted and gave {v!r}")
    finally:
        del builtins.vp_probe


def protocol(ctx, p):
    s0 = (p.protocol, dict(p.options))
    d = text(p._to_dict())
    q = type(p)._from_dict(d)
    ctx.ok((q.protocol, dict(q.options)) == s0, f"{s0} becomes {(q.protocol, q.options)}")
    ctx.ok((p.protocol, dict(p.options)) == s0, "the original changed")


def msig(m):
    ob = None if m._observable is None else [sig(o.abstract) for o in m._observable]
    def pr(p):
        return None if p is None else (p.protocol, dict(p.options))
    return {"class": type(m).__name__, "circuit": (sig(m._circuit.abstract.block), rsig(m._circuit.abstract.register)), "observable": ob, "diff_mode": str(m._diff_mode), "backend": str(m._backend_name),
            "measurement": pr(m._measurement), "mitigation": pr(m._mitigation), "noise": None if m._noise is None else nsig(m._noise), "inputs": [str(i) for i in m.inputs],
            "configuration": {k: str(v) for k, v in vars(m.backend.backend.config).items()}}


def same_model(ctx, m, m2, trained, what):
    a, b = msig(m), msig(m2)
    for k in a:
        ctx.ok(a[k] == b[k], f"{what}: {k} is {str(b[k])[:300]} instead of {str(a[k])[:300]}")
    if trained:
        p, q = {k: v.detach().clone() for k, v in m._params.items()}, {k: v.detach().clone() for k, v in m2._params.items()}
        ctx.ok(set(p) == set(q) and all(torch.equal(p[k], q[k]) for k in p), f"{what}: parameters {q} instead of {p}")
        v = {str(i): torch.tensor([.4, 1.1]) for i in m.inputs}
        if m._noise is None and m._measurement is None:
            ctx.ok(torch.allclose(m.run(v), m2.run(v), atol=1e-9), f"{what}: other state")
            if m._observable is not None:
                ctx.ok(torch.allclose(m.expectation(v), m2.expectation(v), atol=1e-9), f"{what}: other expectation")


def model(ctx, mk, change):
    m = mk()
    with torch.no_grad():
        for p in m.parameters():
            if change and p.requires_grad:
                p.add_(0.3)
    s0 = msig(m)
    same_model(ctx, m, deserialize(serialize(m, save_params=True), as_torch=True), True, "with parameters")
    same_model(ctx, m, deserialize(text(serialize(m))), not change, "without parameters")
    ctx.ok(msig(m) == s0, "the original changed")
    with tempfile.TemporaryDirectory(prefix="vp_c06_") as tmp:
        save(m, tmp, "m", "PT")
        same_model(ctx, m, load(os.path.join(tmp, "m.pt")), True, "pt file")
        save(m, tmp, "m")
        same_model(ctx, m, load(os.path.join(tmp, "m.json")), not change, "json file")


def models(ctx):
    from qadence import QuantumModel, QNN
    from qadence.measurements import Measurements
    from qadence.mitigations import Mitigations
    from qadence.types import DiffMode
    for i, p in enumerate([Measurements("tomography", {"n_shots": 100}), Measurements("shadow", {"accuracy": .1, "confidence": .1}), Measurements("tomography", {}), Mitigations("readout", {"optimization_type": "mle"}),
                           Mitigations("zne", {"noise_model": "x", "stretches": [1., 2.]}), Mitigations("readout")]):
        ctx.case(f"protocol/{i}", protocol, ctx, p)
    x, y, t, u = FeatureParameter("x"), FeatureParameter("y"), VariationalParameter("t", value=.7), VariationalParameter("u", value=-.2)
    c = QuantumCircuit(Register.line(3, spacing=3.0), chain(RX(0, x * t), CNOT(0, 2), RY(1, t), kron(RZ(2, y), RX(1, u + 1))))
    plain = QuantumCircuit(2, chain(H(0), CNOT(0, 1)))
    ro = NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, {"error_probability": .05})
    KW = {"no observable": {}, "one observable": {"observable": Z(0)}, "several observables": {"observable": [Z(0) @ X(2), u * X(1), Z(1) + 2. * Y(2)]}, "gpsr": {"observable": Z(0), "diff_mode": DiffMode.GPSR},
          "measurement": {"observable": Z(0), "measurement": Measurements("tomography", {"n_shots": 100})}, "noise": {"observable": Z(1), "noise": ro},
          "mitigation": {"observable": Z(1), "noise": ro, "mitigation": Mitigations("readout", {"optimization_type": "mle"})}, "configuration": {"observable": Z(0), "configuration": {"_use_gate_params": False}}}
    for nm, kw in KW.items():
        for ch in (False, True):
            ctx.case(f"model/{nm}/{ch}", model, ctx, lambda: QuantumModel(c, **kw), ch)
    ctx.case("model/fixed", model, ctx, lambda: QuantumModel(plain, observable=Z(0)), False)
    for o in (["x", "y"], ["y", "x"]):
        for nm in ("one observable", "several observables", "gpsr"):
            ctx.case(f"qnn/{nm}/{o}", model, ctx, lambda: QNN(c, inputs=o, **KW[nm]), True)


def run(ctx):
    models(ctx)
    P = {n: Parameter(n, trainable=(n in "ab"), value=DEFAULTS[n]) for n in NAMES}
    a, b, c, d = (P[n] for n in NAMES)
    t = TimeParameter("t")
    nz = NoiseHandler(NoiseProtocol.DIGITAL.BITFLIP, {"error_probability": 0.1})
    nz2 = NoiseHandler([NoiseProtocol.DIGITAL.DEPOLARIZING, NoiseProtocol.DIGITAL.PHASEFLIP], [{"error_probability": 0.2}, {"error_probability": 0.3}])
    f = sympy.Float
    exprs = [a, c, t, a + c, 2 * a, a - d, a / 3, sympy.sqrt(2) * a, sympy.pi * c, sympy.pi, sympy.I, sympy.I * a, sympy.E * c, sympy.exp(a), sympy.sin(a * c), sympy.cos(d),
             sympy.tan(a + 0.25 * c), sympy.acos(c / 4), f(0.1), f(-2.5), f(1e-10), f(-1.5e-7), f(1e20), f(3e-5) * a, sympy.Integer(0), sympy.Integer(3), sympy.Integer(-7), sympy.Rational(1, 3), sympy.Rational(-2, 7) * c,
             a**2, 1 / d, a**-0.5, sympy.S.Half * a, sympy.Heaviside(a), sympy.Abs(b), a * b + c * d - 2, (a + b) * (c - d)**3, sympy.sympify(1 + 2j), sympy.sympify(1 + 2j) * a, sympy.Max(a, c),
             -a, sympy.log(d), Parameter("x_1", trainable=False, value=0.0), Parameter("y2", trainable=True, value=-3.25), Parameter("Z", value=1e-9), Parameter("k", trainable=False, value=7), a * t]
    for i, e in enumerate(exprs):
        ctx.case(f"expr/{i}", expr, ctx, e)
        if e not in (0,) and not isinstance(e, Parameter):
            ctx.case(f"scaled/{i}", block, ctx, ScaleBlock(X(1), e))
            ctx.case(f"gate/{i}", block, ctx, RX(2, e)) if not e.has(sympy.I) else None
    for i, p in enumerate((a, c, t, Parameter("x_1", trainable=False, value=0.0), Parameter("y2", trainable=True, value=-3.25), Parameter("k", value=3))):
        ctx.case(f"param/{i}", param, ctx, p)
    G = []
    for cls in (X, Y, Z, I, H, S, SDagger, T, TDagger, N):
        G += [cls(0), cls(3), cls(2, noise=nz)]
    G += [N(1, state="0"), N(2, "0", nz), SWAP(2, 0), SWAP(0, 1, nz), Projector("10", "01", (2, 0)), Projector("1", "0", 3), Projector("110", "010", (4, 1, 2), nz)]
    for cls in (RX, RY, RZ, PHASE):
        G += [cls(1, a), cls(0, c + d), cls(2, 0.3), cls(1, a, nz2), cls(3, "q")]
    G += [U(1, a, c, d), U(0, 0.1, a * b, -0.7, nz), U(2, c, a, c)]
    for cls in (CNOT, CZ):
        G += [cls(2, 0), cls(0, 1), cls(1, 3, nz)]
    for cls in (CRX, CRY, CRZ, CPHASE):
        G += [cls(2, 0, a), cls(0, 3, 2 * c), cls(1, 0, 0.5), cls(1, 3, a, nz)]
    for cls in (MCRX, MCRY, MCRZ, MCPHASE):
        G += [cls((2, 0), 1, a), cls((3,), 0, c * d), cls((4, 1, 0), 2, 0.25, nz)]
    G += [MCZ((2, 0), 1), MCZ((3,), 0), MCZ((0, 1, 3), 2, nz), Toffoli((2, 0), 1), Toffoli((0, 3, 1), 2, nz), CSWAP(2, 0, 1), CSWAP(0, 3, 1, nz)]
    G += [HamEvo(X(0) + Y(1), a), HamEvo(kron(Z(2), Z(0)), 0.3), HamEvo(c * X(0) + d * Z(1), a * b), HamEvo(2 * N(1), c, noise_operators=[X(1)]), HamEvo(t * X(0), t), HamEvo(t * X(0), t, duration=2.5),
          HamEvo(t * X(0) + c * Y(1), t, duration="w"), HamEvo(torch.tensor([[1.0, 2 - 1j], [2 + 1j, 0.5]], dtype=torch.cdouble), a, (1,)), HamEvo(torch.eye(4, dtype=torch.cdouble)[None] * 0.5, 0.1, (2, 0)),
          HamEvo(Parameter("gen", trainable=False, value=1.0), a, (0, 1)), HamEvo(X(0) + Y(1), a).dagger(), MatrixBlock(torch.tensor([[0, 1j], [-1j, 0]], dtype=torch.cdouble), (3,)), PutBlock(CNOT(0, 1), (3, 1)),
          CRX(0, 2, a).dagger(), RX(1, a).dagger(), S(0).dagger(), (2j * X(0)).dagger(), Zero()]
    for i, g in enumerate(G):
        ctx.case(f"leaf/{i}/{type(g).__name__}", block, ctx, g)
        if i % 3 == 0:
            ctx.case(f"nested/{i}/{type(g).__name__}", block, ctx, chain(g, a * kron(g)))
    tg = chain(X(0), Y(1))
    tg.tag = "top"
    k = kron(X(0), RY(1, a))
    k.tag = "inner one"
    s = add(X(0), 2 * Z(1))
    s.tag = "obs"
    top = chain(tg, k, 2.0 * k, c * s, chain(chain(s)))
    top.tag = "all"
    sc = 2 * k
    sc.tag = "scaled"
    x1 = X(1)
    x1.tag = "leaf"
    for i, bb in enumerate([tg, k, s, top, sc, x1, chain(), add(), 2 * chain(), add(kron(X(0), Y(1)), kron(Y(0), X(1))), kron(kron(X(0)), kron(kron(Y(2))))]):
        ctx.case(f"tags/{i}", block, ctx, bb)
    rng = ctx.rng("trees")
    for i in range(ctx.n(120, 1500)):
        bb = tree(rng, rng.sample(range(6), 4), rng.choice([2, 3, 4]))
        if hasattr(bb, "blocks") and rng.random() < 0.5:
            bb.tag = rng.choice(["A", "B b", "layer-1"])
        ctx.case(f"tree/{i}", block, ctx, bb, i % 5 == 0)
    dev = RydbergDevice(interaction=Interaction.XY, rydberg_level=70, coeff_xy=1234.5, max_detuning=3.0, max_amp=2.0, type=DeviceType.REALISTIC)
    dev2 = RydbergDevice(rydberg_level=81)
    g = nx.Graph()
    g.add_node(2, pos=(0.0, 1.5)), g.add_node(0, pos=(3.0, 0.25)), g.add_node(5, pos=(-1.0, 0.0))
    g.add_edge(5, 0)
    regs = []
    for sp in (None, 1.0, 2.5, 0.3, 8):
        kw = {} if sp is None else {"spacing": sp}
        regs += [Register.line(4, **kw), Register.circle(5, **kw), Register.square(2, **kw), Register.rectangular_lattice(2, 3, **kw), Register.triangular_lattice(1, 2, **kw), Register.honeycomb_lattice(1, 1, **kw),
                 Register.all_to_all(4, **kw), Register.line(3, device_specs=dev, **kw), Register(3, **kw), Register(g.copy(), **({"spacing": sp})), Register.from_coordinates([(0, 0), (1, 2), (3.5, -1)], **kw),
                 Register.line(1, **kw)]
    regs += [Register.from_coordinates([(0.1, 0.2), (4, 4)], device_specs=dev2), Register.line(3).rescale_coords(3.7), Register.triangular_lattice(2, 2, spacing=3.0, device_specs=dev2).rescale_coords(0.2), Register.from_coordinates([(0, 0, 1), (1, 1, 5)])]
    for i, r in enumerate(regs):
        ctx.case(f"register/{i}", register, ctx, r)
    for i, dv in enumerate((dev, dev2, RydbergDevice(), RydbergDevice(max_amp=0.1), RydbergDevice(interaction=Interaction.XY))):
        ctx.case(f"device/{i}", device, ctx, dv)
    pat = AddressingPattern(n_qubits=2, weights_amp={0: 0.3, 1: 0.5}, weights_det={0: 0.2})
    ctx.case("device/pattern", device, ctx, RydbergDevice(pattern=pat))
    hs = []
    for kind, o in ((NoiseProtocol.DIGITAL, "error_probability"), (NoiseProtocol.ANALOG, "noise_probs"), (NoiseProtocol.READOUT, "error_probability")):
        hs += [NoiseHandler(p, {o: 0.1 + 0.01 * j}) for j, p in enumerate(kind)]
    hs += [nz, nz2, NoiseHandler([NoiseProtocol.DIGITAL.BITFLIP, NoiseProtocol.READOUT.INDEPENDENT], [{"error_probability": 0.1}, {"error_probability": 0.2, "seed": 3}]),
           NoiseHandler(NoiseProtocol.DIGITAL.PAULI_CHANNEL, {"error_probability": [0.1, 0.2, 0.3]})]
    for i, h in enumerate(hs):
        ctx.case(f"noise/{i}", noise, ctx, h)
    rng = ctx.rng("circ")
    for i in range(ctx.n(25, 200)):
        r = regs[rng.randrange(len(regs))]
        if sorted(r.nodes) != list(range(r.n_qubits)):
            continue
        bb = tree(rng, range(r.n_qubits), 3)
        if hasattr(bb, "blocks"):
            bb.tag = rng.choice([None, "A"])
        ctx.case(f"circuit/{i}", circuit, ctx, QuantumCircuit(r, bb))
    ctx.case("circuit/int", circuit, ctx, QuantumCircuit(3, top))
    ctx.case("files/block", files, ctx, top, sig)
    ctx.case("files/circuit", files, ctx, QuantumCircuit(Register.line(2, spacing=3.0), top), lambda q: (sig(q.block), rsig(q.register)))
    for i, sx in enumerate(BAD):
        ctx.case(f"reject/{i}", reject, ctx, sx)
