"""C06: deserialize(serialize(x)) denotes x, class by class; composites by structural induction."""
from pyvc.kit import *
import json
import z3
import networkx as nx
from qadence import operations as O
from qadence import blocks as QB
from qadence.circuit import QuantumCircuit
from qadence.register import Register
from qadence.noise import NoiseHandler
from qadence.types import NoiseProtocol, Interaction, DeviceType
SER = mod("qadence.serialization")
PAR = mod("qadence.parameters")
DEV = mod("qadence.analog.device")

P = "C06"
TRUSTED = ["networkx node_link_data / node_link_graph are inverse", "sympy srepr prints an expression that evaluates to it", "json", "jsonschema"]
ASSUMES = ["trees are finite (structural induction over the parts of a composition)", "contract of expression serialization at call sites: deserialize(serialize(e)) is e for every parameter expression "
           "(decided at run time over the stated expressions, see the bounded stand-in)"]
FB = ["qadence.blocks.composite.CompositeBlock._to_dict", "qadence.blocks.composite.CompositeBlock._from_dict", "qadence.blocks.utils._construct"]
if not hasattr(O, "Opaque"):
    O.Opaque = Opaque           # the class of an arbitrary part of a composition
    QB.Opaque = Opaque


class SExpr:
    def __init__(self, e):
        self.e = e


def c_serialize(obj, *a, **k):
    if isinstance(obj, sympy.Basic):
        return {"name": "e", "expression": SExpr(obj)}
    return _serialize(obj, *a, **k)


def c_deserialize(d, *a, **k):
    if isinstance(d, dict) and isinstance(d.get("expression"), SExpr):
        return d["expression"].e
    return _deserialize(d, *a, **k)


_serialize, _deserialize = SER.serialize, SER.deserialize


class contracts:
    """expression-level contracts in force at the call sites of the function under proof"""
    def __enter__(self):
        VC.shim(_serialize, c_serialize)
        VC.shim(_deserialize, c_deserialize)
    def __exit__(self, *a):
        VC.shims.pop(id(_serialize), None)
        VC.shims.pop(id(_deserialize), None)


def ob(name, funcs):
    def d(fn):
        def g():
            poly.reset()
            with contracts():
                return fn()
        obligation(P, name, funcs)(g)
        return fn
    return d


# ---------------------------------------------------------------- compositions (any number of arbitrary parts)
for K in (ChainBlock, KronBlock, AddBlock):
    for tg in (None, "a tag"):
        @ob(f"{K.__name__}/any parts, tag={tg}", FB)
        def _(K=K, tg=tg):
            seg, dom = new_seg(kron=K is KronBlock)
            A = new_opaque("A")
            b = mk(K, seg) if K is KronBlock else mk(K, A, seg)
            b.tag = tg
            before = snap(b)
            d = b._to_dict()
            ok = [unchanged("serialization leaves the block unchanged", before, b), holds("type recorded", d["type"] == K.__name__), holds("tag recorded", d["tag"] == tg)]
            r = K._from_dict(d)
            return ok + [holds("same class", type(r) is K), holds("same tag", r.tag == tg), op_eq("same parts in the same order", den(r), den(b)), set_eq("same qubits", sup(r), sup(b)),
                         unchanged("deserialization leaves the block unchanged", before, b)]

    @ob(f"{K.__name__}/through deserialize", FB + ["qadence.serialization.deserialize", "qadence.serialization.serialize", "qadence.serialization.BlockTypeSerialization.__post_init__"])
    def _(K=K):
        seg, dom = new_seg(kron=K is KronBlock)
        b = mk(K, seg)
        b.tag = "t"
        r = SER.deserialize(SER.serialize(b))
        return [holds("same class", type(r) is K), holds("same tag", r.tag == "t"), op_eq("same parts in the same order", den(r), den(b)), set_eq("same qubits", sup(r), sup(b))]


@ob("PutBlock/any part and placement", ["qadence.blocks.composite.PutBlock._from_dict", "qadence.blocks.composite.CompositeBlock._to_dict"])
def _():
    A = new_opaque("A")
    i, j = fresh_int("i", 0), fresh_int("j", 0)
    b = PutBlock(A, (i, j))
    b.tag = "p"
    r = PutBlock._from_dict(b._to_dict())
    q = r.qubit_support
    return [holds("same class", type(r) is PutBlock), op_eq("same part", den(r.blocks[0]), A.den), valid_here("same placement in order", z3.And(zlift(q[0]) == i.z, zlift(q[1]) == j.z)), holds("two qubits", len(q) == 2),
            holds("same tag", r.tag == "p")]


@ob("ScaleBlock/any part and scale", ["qadence.blocks.primitive.ScaleBlock._to_dict", "qadence.blocks.primitive.ScaleBlock._from_dict", "qadence.parameters.ParamMap._to_dict", "qadence.parameters.ParamMap._from_dict"])
def _():
    A = new_opaque("A")
    e = sympy.Symbol("s_any")
    b = ScaleBlock(A, e)
    before = snap(b)
    r = ScaleBlock._from_dict(b._to_dict())
    return [holds("same class", type(r) is ScaleBlock), op_eq("same scaled operator", den(r), den(b)), holds("same scale", r.parameters.parameter is e), unchanged("input unchanged", before, b)]


# ---------------------------------------------------------------- gates on arbitrary qubits
class NoiseTok(NoiseHandler):
    """an arbitrary valid noise handler with the contract of NoiseHandler serialization"""
    def __init__(self):
        pass
    def _to_dict(self):
        return {"protocol": self, "options": self}


_nfd = NoiseHandler.__dict__["_from_dict"]


class noise_contract:
    def __enter__(self):
        NoiseHandler._from_dict = classmethod(lambda cls, d: None if d is None else d["protocol"])
    def __exit__(self, *a):
        NoiseHandler._from_dict = _nfd


def pairs_eq(label, a, b):
    a, b = list(a), list(b)
    if len(a) != len(b):
        return holds(label, False, f"{a} {b}")
    return valid_here(label, z3.And(*[zlift(x) == zlift(y) for x, y in zip(a, b)])) if a else holds(label, True)


def gate(nm, build, np_=0, fr="PrimitiveBlock"):
    F = [f"qadence.blocks.primitive.{fr}._to_dict", f"qadence.blocks.primitive.{fr}._from_dict", f"qadence.operations.{nm}.__init__"]
    if np_:
        F += ["qadence.parameters.ParamMap._to_dict", "qadence.parameters.ParamMap._from_dict"]
    for noisy in (False, True):
        def f(noisy=noisy):
            poly.reset()
            with contracts(), noise_contract():
                es = [sympy.Symbol(f"e{k}_any") for k in range(np_)]
                noise = NoiseTok() if noisy else None
                qs = [fresh_int(f"q{k}", 0) for k in range(4)]
                assume(z3.Distinct(*[q.z for q in qs]))
                b = build(qs, es, noise)
                before = snap(b)
                d = b._to_dict()
                ok = [unchanged("serialization leaves the gate unchanged", before, b)]
                r = type(b)._from_dict(d)
                ok += [holds("same class", type(r) is type(b)), pairs_eq("same qubits in the same order", r.qubit_support, b.qubit_support), holds("same noise", r.noise is noise)]
                if np_:
                    ok += [holds("same expressions under the same names", [(k, v[1]) for k, v in r.parameters._name_dict.items()] == [(k, v[1]) for k, v in b.parameters._name_dict.items()]),
                           holds("same identifiers", list(r.parameters.uuids()) == list(b.parameters.uuids()))]
                for at in ("ket", "bra"):
                    if hasattr(b, at):
                        ok.append(holds(f"same {at}", getattr(r, at) == getattr(b, at)))
                if hasattr(b, "control"):
                    ok.append(pairs_eq("same controls", r.control, b.control))
                if hasattr(b, "blocks"):
                    ok += [holds("same target gate", type(r.blocks[0]) is type(b.blocks[0])), pairs_eq("same targets", r.blocks[0].qubit_support, b.blocks[0].qubit_support)]
                    if np_:
                        ok.append(holds("target gate carries the parameter", list(r.blocks[0].parameters.expressions()) == es))
                return ok
        obligation(P, f"{nm}{' with noise' if noisy else ''}", F)(f)


for nm in ("X", "Y", "Z", "I", "H", "S", "SDagger", "T", "TDagger"):
    gate(nm, lambda q, e, n, nm=nm: getattr(O, nm)(q[0], noise=n))
gate("N", lambda q, e, n: O.N(q[0], "1", n), fr="ProjectorBlock")
gate("N (state 0)", lambda q, e, n: O.N(q[0], "0", n), fr="ProjectorBlock")
gate("SWAP", lambda q, e, n: O.SWAP(q[0], q[1], n))
gate("Projector", lambda q, e, n: O.Projector("01", "10", (q[0], q[1]), n), fr="ProjectorBlock")
for nm in ("RX", "RY", "RZ", "PHASE"):
    gate(nm, lambda q, e, n, nm=nm: getattr(O, nm)(q[0], e[0], n), 1, "ParametricBlock")
gate("U", lambda q, e, n: O.U(q[0], *e, n), 3, "ParametricBlock")
for nm in ("CNOT", "CZ"):
    gate(nm, lambda q, e, n, nm=nm: getattr(O, nm)(q[0], q[1], n), 0, "ControlBlock")
gate("MCZ", lambda q, e, n: O.MCZ((q[0], q[1], q[2]), q[3], n), 0, "ControlBlock")
gate("Toffoli", lambda q, e, n: O.Toffoli((q[0], q[1]), q[2], n), 0, "ControlBlock")
gate("CSWAP", lambda q, e, n: O.CSWAP(q[0], q[1], q[2], n), 0, "ControlBlock")
for nm in ("CRX", "CRY", "CRZ", "CPHASE"):
    gate(nm, lambda q, e, n, nm=nm: getattr(O, nm)(q[0], q[1], e[0], n), 1, "ParametricControlBlock")
for nm in ("MCRX", "MCRY", "MCRZ", "MCPHASE"):
    gate(nm, lambda q, e, n, nm=nm: getattr(O, nm)((q[0], q[1], q[2]), q[3], e[0], n), 1, "ParametricControlBlock")


@ob("HamEvo/any block generator and time", ["qadence.operations.ham_evo.HamEvo._to_dict", "qadence.operations.ham_evo.HamEvo._from_dict"])
def _():
    t = Parameter("tau", value=0.4)
    b = O.HamEvo(O.X(1) + O.Z(3), 2 * t)
    A = new_opaque("G")
    b.generator = A
    before = snap(b)
    d = b._to_dict()
    r = None
    got = {}
    orig = O.HamEvo.__init__
    def init(self, generator, parameter, qubit_support=None, duration=None, noise_operators=list(), **k):
        got.update(g=generator, p=parameter, q=qubit_support, d=duration, n=noise_operators)
    O.HamEvo.__init__ = init
    try:
        O.HamEvo._from_dict(d)
    finally:
        O.HamEvo.__init__ = orig
    return [op_eq("same generator", den(got["g"]), A.den), holds("same time", got["p"] == 2 * t), holds("support from the generator", got["q"] is None), holds("no duration", got["d"] is None),
            holds("no noise operators", list(got["n"]) == []), unchanged("input unchanged", before, b)]


# ---------------------------------------------------------------- parameter maps
for k in range(4):
    @ob(f"ParamMap/{k} entries", ["qadence.parameters.ParamMap._to_dict", "qadence.parameters.ParamMap._from_dict"])
    def _(k=k):
        es = {f"n{i}": sympy.Symbol(f"e{i}_any") for i in range(k)}
        m = ParamMap(**es)
        before = list(m._name_dict.items()), list(m._uuid_dict.items())
        r = ParamMap._from_dict(m._to_dict())
        return [holds("same names, identifiers and expressions", list(r._name_dict.items()) == before[0]), holds("same identifier map", list(r._uuid_dict.items()) == before[1]),
                holds("input unchanged", (list(m._name_dict.items()), list(m._uuid_dict.items())) == before)]


for tr in (True, False):
    for tm in (True, False):
        @ob(f"Parameter/trainable={tr}, time={tm}", ["qadence.parameters.Parameter._to_dict", "qadence.parameters.Parameter._from_dict"])
        def _(tr=tr, tm=tm):
            out = []
            for v in (0.0, 1.5, -2.25e-9, 3, 1e12):
                p = Parameter("par_c06", trainable=tr, value=v, **({"is_time": True} if tm else {}))
                r = Parameter._from_dict(p._to_dict())
                out += [holds("name, trainability, time flag", (r.name, r.trainable, r.is_time) == ("par_c06", tr, tm)), holds("value", r.value == v and p.value == v)]
            return out


# ---------------------------------------------------------------- devices, registers, circuits
@ob("RydbergDevice/any settings", ["qadence.analog.device.RydbergDevice._to_dict", "qadence.analog.device.RydbergDevice._from_dict"])
def _():
    out = []
    for inter in (Interaction.NN, Interaction.XY):
        for ty in DeviceType:
            v = {n: sreal(n) for n in ("coeff_xy", "max_detuning", "max_amp")}
            lv = sint("level", 0)
            d0 = DEV.RydbergDevice(interaction=inter, rydberg_level=lv, type=ty, **v)
            dd = d0._to_dict()
            keys = dict(dd)
            r = DEV.RydbergDevice._from_dict(dd)
            out += [valid_here("numeric settings kept", z3.And(zlift(r.rydberg_level) == lv.z, *[zlift(getattr(r, n)) == v[n].z for n in v])), holds("interaction and type kept", r.interaction == inter and r.type == ty),
                    holds("no pattern", r.pattern is None), holds("data unchanged", list(dd) == list(keys) and all(dd[k] is keys[k] for k in keys))]
    return out


class GraphTok(nx.Graph):
    """an arbitrary register graph"""


class DevTok:
    pass


def with_graph(fn):
    g = GraphTok()
    data = {"nodes": "N", "links": "L", "tok": g}
    nld, nlg = nx.node_link_data, nx.node_link_graph
    seen = []
    nx.node_link_data = lambda G, **k: seen.append(G) or data
    nx.node_link_graph = lambda d, **k: d["tok"]
    dev = DEV.RydbergDevice()
    td, fd = DEV.RydbergDevice._to_dict, DEV.RydbergDevice.__dict__["_from_dict"]
    DEV.RydbergDevice._to_dict = lambda self: {"dev": self}
    DEV.RydbergDevice._from_dict = classmethod(lambda cls, d: d["dev"])
    sc = mod("qadence.register")._scale_node_positions
    touched = []
    VC.shim(sc, lambda *a, **k: touched.append(a))
    try:
        return fn(g, dev, seen, touched)
    finally:
        nx.node_link_data, nx.node_link_graph = nld, nlg
        DEV.RydbergDevice._to_dict, DEV.RydbergDevice._from_dict = td, fd
        VC.shims.pop(id(sc), None)


@ob("Register/any graph and device", ["qadence.register.Register._to_dict", "qadence.register.Register._from_dict", "qadence.register.Register.__init__"])
def _():
    def run(g, dev, seen, touched):
        r = Register.__new__(Register)
        r.graph, r.device_specs = g, dev
        g.add_node(0, pos=(0.0, 0.0))
        g.add_node(1, pos=(3.0, 4.0))       # a spacing other than the default one
        d = r._to_dict()
        q = Register._from_dict(d)
        same = q.graph is g or dict(q.graph.nodes(data=True)) == dict(g.nodes(data=True))
        return [holds("the graph itself is written", seen == [g]), holds("the stored coordinates are kept (no rescaling)", not touched and same), holds("device kept", q.device_specs is dev)]
    return with_graph(run)


@ob("QuantumCircuit/any block and register", ["qadence.circuit.QuantumCircuit._to_dict", "qadence.circuit.QuantumCircuit._from_dict"])
def _():
    A = new_opaque("A")
    class R(Register):
        def __init__(self):
            pass
        n_qubits = 3
    reg = R()
    td, fd = Register._to_dict, Register.__dict__["_from_dict"]
    Register._to_dict = lambda self: {"reg": self}
    Register._from_dict = classmethod(lambda cls, d: d["reg"])
    try:
        c = QuantumCircuit.__new__(QuantumCircuit)
        c.block, c.register = A, reg
        d = c._to_dict()
        got = []
        init = QuantumCircuit.__init__
        QuantumCircuit.__init__ = lambda self, support, *blocks: got.append((support, blocks))
        try:
            QuantumCircuit._from_dict(d)
        finally:
            QuantumCircuit.__init__ = init
    finally:
        Register._to_dict, Register._from_dict = td, fd
    (s, bl), = got
    return [holds("same register", s is reg), holds("one block", len(bl) == 1), op_eq("same block", den(bl[0]), A.den)]


# ---------------------------------------------------------------- noise handlers
KINDS = [(NoiseProtocol.DIGITAL, "error_probability"), (NoiseProtocol.ANALOG, "noise_probs"), (NoiseProtocol.READOUT, "error_probability")]
for kind, key in KINDS:
    for p in kind:
        @ob(f"NoiseHandler/{kind.__name__}.{p.name}", ["qadence.noise.protocols.NoiseHandler._to_dict", "qadence.noise.protocols.NoiseHandler._from_dict"])
        def _(p=p, key=key):
            v = sreal("prob")
            h = NoiseHandler(p, {key: v, "seed": 3})
            out = []
            for data in (h._to_dict(), {"protocol": [str(x.value) for x in h.protocol], "options": [dict(o) for o in h.options]}):
                r = NoiseHandler._from_dict(data)
                out += [holds("same protocol of the same kind", r.protocol == [p] and type(r.protocol[0]) is type(p)), valid_here("same probability", zlift(r.options[0][key]) == v.z), holds("other options", r.options[0]["seed"] == 3)]
            return out


# ------------------------------------------------------------------ settings of models
def _shim_for(fn, new):
    old = VC.shims.get(id(fn))
    VC.shim(fn, new)
    VC.ex.undo.append(lambda: VC.shims.__setitem__(id(fn), old) if old is not None else VC.shims.pop(id(fn), None))


for _mod, _cls in (("qadence.measurements.protocols", "Measurements"), ("qadence.mitigations.protocols", "Mitigations")):
    @obligation(P, f"{_cls}/the protocol and all its options survive", [f"{_mod}.{_cls}._to_dict", f"{_mod}.{_cls}._from_dict"])
    def _(K=getattr(mod(_mod), _cls)):
        out = []
        for nm in ("tomography", "shadow", "readout", "zne"):
            opts = {"n_shots": object(), "other": object()}
            p = K(nm, dict(opts))
            q = K._from_dict(K._to_dict(p))
            out += [holds("class", type(q) is K), holds("protocol", q.protocol == nm), holds("options", set(q.options) == set(opts) and all(q.options[k] is v for k, v in opts.items())),
                    holds("original untouched", p.protocol == nm and all(p.options[k] is v for k, v in opts.items()) and len(p.options) == 2)]
        return out


def _patch(K, name, new):
    old = K.__dict__[name]
    setattr(K, name, staticmethod(new))
    VC.ex.undo.append(lambda: setattr(K, name, old))


class _Token:
    """something with its own (opaque) dictionary"""
    def __init__(self, name):
        self.name, self.d = name, {name: object()}
    def _to_dict(self):
        return self.d
    @property
    def abstract(self):
        return self


class _Made:
    """stands for the class: records what an instance is built from"""
    def __init__(self, **kw):
        self.kw = kw


def _model_round_trip(K, n_obs, opt):
    import types
    MD = mod("qadence.model")
    FN = mod(K.__module__)
    SZ = mod("qadence.serialization")
    toks = {k: _Token(k) for k in ("circuit", "measurement", "mitigation", "noise")}
    obs = [_Token(f"observable {i}") for i in range(n_obs)]
    back = {id(t.d): t for t in [*toks.values(), *obs]}
    seen = lambda d: back.get(id(d)) if d else None
    cfg = object()
    me = K.__new__(K)
    object.__setattr__(me, "__dict__", {"_parameters": {}, "_buffers": {}, "_modules": {}})
    pars = {"t": object(), "u": object()}
    bk, dm = object(), object()
    attrs = {"_circuit": toks["circuit"], "_observable": obs if n_obs else None, "_backend_name": bk, "_diff_mode": dm, "_measurement": toks["measurement"] if opt else None,
             "_noise": toks["noise"] if opt else None, "_mitigation": toks["mitigation"] if opt else None, "_params": pars, "inputs": [sympy.Symbol("y"), sympy.Symbol("x")],
             "backend": types.SimpleNamespace(backend=types.SimpleNamespace(config=cfg))}
    me.__dict__.update(attrs)
    _shim_for(MD.asdict, lambda c: {"config": c})
    d = K._to_dict(me, True)
    args = {}
    _patch(MD.QuantumCircuit, '_from_dict', seen)
    for nm in ("Measurements", "Mitigations", "NoiseHandler"):
        if hasattr(FN, nm):
            _patch(getattr(FN, nm), '_from_dict', seen)
    _shim_for(SZ.deserialize, lambda x, *a, **k: seen(x) or object())
    _shim_for(FN.config_factory, lambda b, c: (b, c["config"]))
    made = type(K.__name__, (_Made,), {})
    got = K._from_dict.__func__(made, d)
    kw = got.kw
    o = kw["observable"]
    out = [holds("circuit", kw["circuit"] is toks["circuit"]), holds("backend", kw["backend"] is bk), holds("differentiation", kw["diff_mode"] is dm),
           holds("configuration", kw["configuration"] == (bk, cfg)),
           holds("observables in order", o is None if not n_obs else isinstance(o, list) and len(o) == n_obs and all(x is y for x, y in zip(o, obs)))]
    for k in ("measurement", "noise", "mitigation"):
        if k == "mitigation" and K.__name__ == "QNN":
            continue                  # not a setting of the constructor
        out.append(holds(k, kw.get(k) is (toks[k] if opt else None)))
    if K.__name__ == "QNN":
        out.append(holds("inputs in order", kw["inputs"] == ["y", "x"]))
    out.append(holds("trained values stored", dict(d["param_dict"]) == pars))
    out.append(holds("original untouched", all(me.__dict__[k] is v for k, v in attrs.items())))
    return out


for _n in (0, 1, 3):
    for _opt in (False, True):
        @obligation(P, f"QuantumModel/{_n} observables, {'with' if _opt else 'without'} optional settings", ["qadence.model.QuantumModel._to_dict", "qadence.model.QuantumModel._from_dict"],
                    assumes=["contracts of the parts (circuit, block, noise, protocol round trips above)"])
        def _(n=_n, opt=_opt):
            return _model_round_trip(mod("qadence.model").QuantumModel, n, opt)
        if _n:
            @obligation(P, f"QNN/{_n} observables, {'with' if _opt else 'without'} optional settings", ["qadence.ml_tools.models.QNN._to_dict", "qadence.ml_tools.models.QNN._from_dict"],
                        assumes=["contracts of the parts (circuit, block, noise, protocol round trips above)"])
            def _(n=_n, opt=_opt):
                return _model_round_trip(mod("qadence.ml_tools.models").QNN, n, opt)
